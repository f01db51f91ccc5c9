"""Executions of one task in the cores of the backends, as sets of abstract paths."""
from .interp import FALSE, NONE, TRUE, Path, app, const
from .lib import *

PYMP_RUN = "unidist.core.backends.pymp.core.process_manager:Worker.run"
PYSEQ_SUBMIT = "unidist.core.backends.pyseq.core.api:submit"
MPI_EXEC = "unidist.core.backends.mpi.core.worker.task_store:TaskStore.execute_received_task"
STORE_STOPS = (
    "*ObjectStore.*", "*.serialization:*", "*RequestStore.*", "*.core.communication:*",
    "*TaskStore.check_*", "*get_logger*", "*.core.common:MpiDataID*",
)
TASK = ("sym", "TASK")


class Exec:
    """One path of the execution of one task."""

    def __init__(self, core, ids, events, call, result, outcome, path):
        self.core, self.ids, self.events = core, ids, events
        self.call, self.result, self.outcome, self.path = call, result, outcome, path

    @property
    def caught(self):
        """The failures handled on the path, in order (term, event)."""
        return [e for e in self.events if e.kind == "catch"]

    def puts(self, include_raising=False):
        """Stores of a value under an identifier: (id, value, loops, event)."""
        out = []
        for e, ctx in walk(self.events):
            if e.kind != "call" or (e.cond == "raises" and not include_raising):
                continue
            if e.name == "meth:put" and len(e.args) == 2:
                out.append((e.args[1][1], e.args[0][1], ctx, e))
            elif e.name.endswith("pyseq.core.object_store:ObjectStore.put") or e.name.endswith("pymp.core.object_store:ObjectStore.put"):
                i = e.arg(1, "data_id")
                out.append((e.res if i in (None, NONE) else i, e.arg(0, "data"), ctx, e))
            elif e.name.endswith("LocalObjectStore.put"):
                out.append((e.arg(0, "data_id"), e.arg(1, "data"), ctx, e))
        return out


def ids_facts(ids, kind):
    if kind == "none":
        return [(app("isnone", ids), True)], {}
    if kind == "one":
        return [(app("isnone", ids), False)], {ids: ("cls", "unidist.core.backends.common.data_id:DataID")}
    return [(app("isnone", ids), False), (app("lt", const(1), app("len", ids)), True)], {ids: ("b", "list")}


THREE = tuple(("sym", f"I{i}") for i in range(3))
THREE_LIST = ("list", tuple(("el", i) for i in THREE))


def three_facts():
    """Three references given as a literal list (which makes loops over them unroll)."""
    return [(app("isnone", i), False) for i in THREE]


def user_call(events, f):
    for e, ctx in walk(events):
        if e.kind == "call" and e.recv == f and not ctx:
            return e
    return None


def pymp(ck, kind):
    ids = ("attr", TASK, "data_ids")
    ov = None
    if kind == "three":
        facts, types, ov, ids = three_facts(), {}, {(TASK, "data_ids"): THREE_LIST}, THREE_LIST
    else:
        facts, types = ids_facts(ids, kind)
    it, ps = run(ck, PYMP_RUN, stops=("*ObjectStore.put", "*ObjectStore.get"), facts=facts, types=types, overlay=ov,
                 results={"ext:cloudpickle.loads": TASK})
    out = []
    for p in ps:
        for e in p.events:
            if e.kind == "loop":
                for q in e.paths:
                    c = next((x for x in q.events if x.kind == "call" and x.recv == TASK), None)
                    r = c.res if c is not None and c.cond != "raises" else None
                    out.append(Exec("pymp", ids, q.events, c, r, q.outcome, q))
    return it, out


def mpi(ck, kind, coro):
    ids = ("sym", "output_data_ids")
    args = {}
    if kind == "three":
        facts, types, ids = three_facts(), {}, THREE_LIST
        args["output_data_ids"] = ids
        args["args"] = ("list", ())
        args["kwargs"] = ("dict", ())
    else:
        facts, types = ids_facts(ids, kind)
    facts = facts + [(app("truth", app("iscoroutinefunction", ("sym", "task"))), coro)]
    it, ps = run(ck, MPI_EXEC, stops=STORE_STOPS, facts=facts, types=types, args=args)
    out = []
    for p in ps:
        qs = [p]
        sp = [e for e in p.events if e.kind == "spawn"]
        if sp:
            qs = sp[0].paths
        for q in qs:
            c = user_call(q.events, ("sym", "task"))
            r = None
            if c is not None and c.cond != "raises":
                r = app("awaited", c.res) if coro else c.res
            out.append(Exec("mpi", ids, q.events, c, r, q.outcome, q))
    return it, out


def all_execs(ck, kind):
    yield "pymp.Worker.run", lambda: pymp(ck, kind)
    yield "mpi.execute_received_task", lambda: mpi(ck, kind, False)
    yield "mpi.execute_received_task(async)", lambda: mpi(ck, kind, True)


# ------------------------------------------------------------------ lengths
def lens(t):
    """The length terms whose minimum is the length of an iterable / of a loop domain."""
    if t[0] == "app":
        if t[1] == "zip":
            return frozenset().union(*[lens(x) for x in t[2]])
        if t[1] == "range" and len(t[2]) == 1:
            return num_lens(t[2][0])
        if t[1] in ("enumerate", "reversed", "sorted", "list", "tuple", "repeat"):
            return num_lens(t[2][1]) if t[1] == "repeat" else lens(t[2][0])
        if t[1] == "keys":
            return lens(t[2][0])
    if t[0] in ("list", "tuple") and len(t[1]) == 1:
        s = t[1][0]
        if s[0] == "for" and one_case(s) is not None:
            return lens(s[1])
        if s[0] == "splat":
            return lens(s[1])
    return frozenset([app("len", t)])


def num_lens(n):
    """The same for a number."""
    if n[0] == "app" and n[1] == "len":
        return lens(n[2][0])
    if n[0] == "app" and n[1] == "min":
        return frozenset().union(*[num_lens(x) for x in n[2]])
    return frozenset([n])


def at_least(facts, base):
    """Length terms known to be >= the length ``base`` from the facts of a path."""
    ge = {base}
    for f, v in facts:
        if f[0] != "app" or len(f[2]) != 2:
            continue
        a, b = num_lens(f[2][0]), num_lens(f[2][1])
        if f[1] == "lt" and v is False and b == {base}:
            ge |= a
        elif f[1] == "lt" and v is True and a == {base}:
            ge |= b
        elif f[1] == "eq" and v is True:
            if b == {base}:
                ge |= a
            if a == {base}:
                ge |= b
    return ge


def covers(dom, ids_len, facts):
    """Does a loop over dom run exactly once per identifier?  True/False/None."""
    ls = lens(dom)
    if ls == {ids_len}:
        return True
    ge = at_least(facts, ids_len)
    if ids_len in ls:
        return all(x in ge for x in ls)
    return None
