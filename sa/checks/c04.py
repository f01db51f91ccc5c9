"""Path-sensitive abstract interpretation of the execution of a task, of the retrieval of
values and of the worker loop of MPI, with exceptional paths: every operation inside a
protected region may raise, and the paths that do so must end with the failure stored."""
import builtins

from ..argmap import is_inst
from ..execmodel import *
from ..interp import FALSE, NONE, TRUE, app, const
from ..mpimodel import worker_paths

A, B, X = ("sym", "A"), ("sym", "B"), ("sym", "X")
EXC = frozenset(["Exception"])
GETS = {
    "pyseq": "unidist.core.backends.pyseq.core.object_store:ObjectStore.get",
    "pymp": "unidist.core.backends.pymp.core.object_store:ObjectStore.get",
    "mpi": "unidist.core.backends.mpi.core.controller.api:get",
}
DATAID = "unidist.core.backends.common.data_id:DataID"


def check(ck):
    ck.rule("stored", "On every path where the task, an argument or the storing of its result fails, the last value stored under each reference of the task is that failure (or an error describing it).")
    ck.rule("survive", "No path through the execution of a task leaves it by an exception.")
    ck.rule("completed", "Every path reports the completion of the task exactly once, for all its references.")
    ck.rule("argument", "A task with an argument that is a failure is not run; its references get that failure.")
    ck.rule("retrieve", "A value is returned by a retrieval only on paths that established that it is not a failure; reading does not change the store.")
    ck.rule("actor", "Creating an actor or looking up its method may fail without ending the worker or losing the call.")
    for kind in ("one", "list", "none"):
        for name, f in all_execs(ck, kind):
            site = f"{name}/{kind}"
            ck.guard("stored", site, lambda: execution(ck, site, f, kind))
    for name, f in all_execs(ck, "three"):
        site = f"{name}/three"
        ck.guard("stored", site, lambda: three(ck, site, f))
    for k in ("0", "1", "n"):
        ck.guard("stored", f"pyseq.submit/{k}", lambda: pyseq(ck, f"pyseq.submit/{k}", k))
    for coro in (False, True):
        for where in ("args", "kwargs"):
            site = f"mpi.execute_received_task{'(async)' if coro else ''}/{where}"
            ck.guard("argument", site, lambda: argument(ck, site, coro, where))
    for where in ("args", "kwargs"):
        for b in ("pymp", "pyseq"):
            site = f"{b}/{where}"
            ck.guard("argument", site, lambda: local_argument(ck, site, b, where))
    for b, k in GETS.items():
        for n in (1, 3):
            site = f"{b}/{'list' if n > 1 else 'one'}"
            ck.guard("retrieve", site, lambda: retrieve(ck, site, b, k, n))
    for s in ("unidist.core.backends.mpi.core.object_store:ObjectStore.get", "unidist.core.backends.mpi.core.local_object_store:LocalObjectStore.get"):
        ck.guard("retrieve", s, lambda: readonly(ck, s))
    ck.guard("actor", "worker-loop/ACTOR_CREATE", lambda: actor_create(ck))
    ck.guard("actor", "worker-loop/ACTOR_EXECUTE", lambda: actor_execute(ck))


# ------------------------------------------------------------------ helpers
def is_failure(v, path, events):
    """The value is an exception: one that was raised on the path or one made there."""
    if v[0] == "exc":
        return True
    if v[0] == "res" and len(v) > 2:
        n = v[2].split(".")[-1].split(":")[-1]
        c = getattr(builtins, n, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return True
    if v[0] == "obj" and any(s in ("Exception", "BaseException") for s in v[1].split(":")):
        return True
    for e, _ in walk(events):
        if e.kind == "raise" and e.recv == v:
            return True
        if e.kind == "catch" and e.data == v:
            return True
    for f, val in (path.facts() if path is not None else ()):
        if val is True and f[0] == "app" and f[1] == "isinst" and f[2][0] == v and f[2][1] & {"Exception", "BaseException"}:
            return True
    return False


def flat(events):
    """Top-level events in order."""
    return list(events)


def trigger(x):
    """Index of the event of the path at which the task has definitely failed, or None."""
    if x.call is not None and x.call.cond == "raises":
        return x.events.index(x.call) if x.call in x.events else 0
    if x.call is None:
        for i, e in enumerate(x.events):
            if e.kind == "catch":
                return i
        return None
    if x.result is None:
        return None
    for i, e in enumerate(x.events):
        if e.kind == "call" and e.cond == "raises" and mentions(e, x.result):
            return i
        if e.kind == "raise" and i > (x.events.index(x.call) if x.call in x.events else 0):
            return i
        if e.kind == "loop" and any(q.outcome == "raise" for q in e.paths):
            # a raising iteration continues with the events of that iteration at this level
            continue
    return None


def leaf_puts(events, ids, kind):
    """Puts of the tail of a path: [(covering?, value, event)] in order.  covering is True if
    every identifier gets the value, False if it is another identifier, None if unknown."""
    out = []
    x = Exec("", ids, events, None, None, None, None)
    for e in events:
        if e.kind == "call" and e.cond != "raises":
            p = Exec("", ids, [e], None, None, None, None).puts()
            for i, v, ctx, ev in p:
                if kind == "one":
                    out.append((i == ids if precise(i) else None, v, ev, e))
                else:
                    out.append((False if precise(i) and i[0] != "item" else None, v, ev, e))
        elif e.kind == "loop":
            last = []
            for q in e.paths:
                if q.outcome == "raise":
                    continue
                ps = Exec("", ids, q.events, None, None, None, None).puts()
                if ps:
                    last.append((ps[-1], q))
                else:
                    last.append((None, q))
            if not any(l[0] for l in last):
                continue
            for pt, q in last:
                if pt is None:
                    out.append((None, None, None, e))
                    continue
                i, v, ctx, ev = pt
                if i[0] == "item" and i[1] == ids:
                    cov = covers(e.dom, app("len", ids), ())
                elif i == ids and kind == "one":
                    cov = True
                else:
                    cov = None if not precise(i) or i[0] == "item" else False
                out.append((cov, v, ev, e))
    return out


def execution(ck, site, f, kind):
    it, ex = f()
    if not ex:
        raise Undecided("no path")
    failing = 0
    for x in ex:
        if x.outcome == "raise":
            if doubtful(x.path, x.ids):
                ck.unk("survive", site)
            else:
                w = next((e.where for e in reversed(x.events) if e.kind in ("call", "raise")), "")
                ck.bad("survive", site, f"{brief(x.path.value) if x.path.value else 'an exception'} leaves the execution of the task", w)
            continue
        ck.ok("survive", site)
        completion(ck, site, x, kind)
        t = trigger(x)
        if t is None:
            if x.call is None:
                ck.unk("stored", site, "the task is not called and nothing fails")
            continue
        failing += 1
        if kind == "none":
            continue
        tail = leaf_puts(x.events[t:], x.ids, kind)
        w = x.events[t].where
        other = [p for p in tail if p[0] is False]
        if other:
            ck.bad("stored", site, f"a failing task stores {brief(other[0][1])} under an identifier that is not its own", other[0][2].where)
            continue
        if not tail:
            if any(e.kind == "call" and mentions(e, x.ids) and (e.name or "").startswith(("val:", "clo")) for e, _ in walk(x.events[t:])):
                ck.unk("stored", site, "identifiers passed to a function that is not known")
            else:
                ck.bad("stored", site, "the task fails but nothing is stored under its references", w)
            continue
        lastev = tail[-1][3]
        for cov, v, ev, e in tail:
            if e is not lastev:
                continue
            if cov is None or v is None:
                ck.unk("stored", site, "the references that get the failure are not understood", w)
            elif is_failure(v, x.path, x.events):
                ck.ok("stored", site, ev.where)
            elif precise(v):
                ck.bad("stored", site, f"the task fails but {brief(v)} is stored under its references", ev.where)
            else:
                ck.unk("stored", site, brief(v))
    if not failing and site.endswith("/one"):
        # no path handles a failure of the task
        ck.bad("survive", site, "a failure of the task is not handled") if all(x.call is not None for x in ex) else ck.unk("survive", site)


def three(ck, site, f):
    """The same with the references as a literal list of three."""
    it, ex = f()
    for x in ex:
        if x.outcome == "raise":
            continue
        t = trigger(x)
        done = [e for e, ctx in calls(x.events, "*.communication:*") if any(s[0] == "el" and s[1][0] == "nc" and s[1][1].endswith(".TASK_DONE") for s in e.args or ())]
        for e in done:
            ids = e.arg(2, "data")
            if ids is not None and ids[0] in ("list", "tuple") and all(s[0] == "el" for s in ids[1]):
                miss = [i for i in THREE if ("el", i) not in ids[1]]
                if miss or len(ids[1]) != 3:
                    ck.bad("completed", site, f"completion is reported for {brief(ids)} only", e.where)
                else:
                    ck.ok("completed", site, e.where)
            else:
                ck.unk("completed", site, brief(ids))
        if t is None:
            continue
        fin = {}
        vague = False
        for i, v, ctx, e in Exec("", None, x.events[t:], None, None, None, None).puts():
            if i in THREE and not ctx:
                fin[i] = (v, e)
            else:
                vague = True
        for i in THREE:
            if i not in fin:
                if vague:
                    ck.unk("stored", site, f"{brief(i)}")
                else:
                    ck.bad("stored", site, "the task fails but one of its references never gets a value", x.events[t].where)
            elif is_failure(fin[i][0], x.path, x.events):
                ck.ok("stored", site, fin[i][1].where)
            elif precise(fin[i][0]):
                ck.bad("stored", site, f"the task fails but {brief(fin[i][0])} is stored under one of its references", fin[i][1].where)
            else:
                ck.unk("stored", site, brief(fin[i][0]))


def completion(ck, site, x, kind):
    if x.core == "pymp":
        done = [e for e in x.events if e.kind == "call" and e.name == "meth:task_done"]
        got = [e for e in x.events if e.kind == "call" and e.name == "meth:get"]
        if not got:
            return ck.unk("completed", site)
        if len(done) == len(got):
            ck.ok("completed", site, done[0].where if done else "")
        else:
            ck.bad("completed", site, f"task_done is called {len(done)} times for one task", (done or got)[0].where)
        return
    done = []
    for e, ctx in calls(x.events, "*.communication:*"):
        if any(s[0] == "el" and s[1][0] == "nc" and s[1][1].endswith(".TASK_DONE") for s in e.args or ()):
            done.append((e, ctx))
    if len(done) != 1 or done[0][1]:
        if any(c for _, c in done):
            return ck.unk("completed", site)
        return ck.bad("completed", site, f"the completion of the task is reported {len(done)} times", done[0][0].where if done else (x.call.where if x.call else ""))
    e = done[0][0]
    ids = e.arg(2, "data")
    want = {"one": ("list", (("el", x.ids),)), "list": None, "none": ("list", ())}[kind]
    if kind == "list":
        good = ids == x.ids or (ids[0] in ("list", "tuple") and lens(ids) == {app("len", x.ids)} and contains((ids,), x.ids))
    else:
        good = ids[0] in ("list", "tuple") and ids[1] == want[1]
    if good:
        ck.ok("completed", site, e.where)
    elif precise(ids) and ids[0] in ("list", "tuple") and not any(s[0] != "el" for s in ids[1]):
        ck.bad("completed", site, f"completion is reported for {brief(ids)}", e.where)
    elif kind == "list" and ids[0] == "list" and covers(ids, app("len", x.ids), x.path.facts()):
        ck.ok("completed", site, e.where)
    else:
        ck.unk("completed", site, brief(ids))


def pyseq(ck, site, k):
    n = ("sym", "num_returns")
    facts = {"0": None, "1": None, "n": [(app("lt", const(1), n), True)]}[k]
    args = {} if k == "n" else {"num_returns": const(int(k))}
    it, ps = run(ck, PYSEQ_SUBMIT, stops=("*ObjectStore.*",), args=args, facts=facts or ())
    failed = 0
    for p in ps:
        if p.outcome == "raise":
            ck.bad("survive", site, f"{brief(p.value)} leaves submit() instead of being stored", next((e.where for e in reversed(p.events) if e.kind in ("call", "raise")), ""))
            continue
        ck.ok("survive", site)
        c = [e for e in p.events if e.kind == "catch"]
        bad = [e for e, _ in walk(p.events) if e.kind == "call" and e.cond == "raises"]
        if not c or not bad or bad[-1] is None:
            continue
        failed += 1
        if k == "0":
            continue
        at = p.events.index(c[-1])
        puts = []
        for e in p.events[at:]:
            if e.kind == "call" and e.name.endswith("ObjectStore.put"):
                puts.append((e.arg(0, "data"), e))
            elif e.kind == "loop":
                for q in e.paths:
                    for r, _ in calls(q.events, "*ObjectStore.put"):
                        puts.append((r.arg(0, "data"), r))
        if not puts:
            ck.bad("stored", site, "the task fails but nothing is stored for its references", c[-1].where)
        for v, e in puts:
            vs = [v]
            if v[0] == "item" and v[1][0] in ("list", "tuple"):
                vs = [s[1] for s in v[1][1] if s[0] == "el"] or [v]
            if v[0] == "item" and v[1][0] == "app" and v[1][1] in ("repeat", "mul", "mult", "*"):
                b = v[1][2][0]
                if b[0] in ("list", "tuple") and all(s[0] == "el" for s in b[1]):
                    vs = [s[1] for s in b[1]]
                elif v[1][1] == "repeat":
                    vs = [b]
            for w in vs:
                if is_failure(w, p, p.events):
                    ck.ok("stored", site, e.where)
                elif precise(w) and w[0] in ("res", "c", "tuple", "list"):
                    ck.bad("stored", site, f"the task fails but {brief(w)} is stored", e.where)
                else:
                    ck.unk("stored", site, brief(w), e.where)
    if not failed:
        ck.bad("survive", site, "a failure of the task is not handled: it leaves submit()")


def argument(ck, site, coro, where):
    ids = ("sym", "output_data_ids")
    facts, types = ids_facts(ids, "one")
    isx = [(app("isinst", A, EXC), False), (app("isinst", B, EXC), False), (app("isinst", X, EXC), True)]
    facts = facts + isx + [(app("truth", app("iscoroutinefunction", ("sym", "task"))), coro)]
    args = {"args": ("list", (("el", A), ("el", X), ("el", B)) if where == "args" else (("el", A),)),
            "kwargs": ("dict", (("kv", const("k"), A), ("kv", const("m"), X)) if where == "kwargs" else ())}
    it, ps = run(ck, MPI_EXEC, stops=STORE_STOPS, facts=facts, types=types, args=args)
    n = 0
    for p in ps:
        qs = [p]
        sp = [e for e in p.events if e.kind == "spawn"]
        if sp:
            qs = sp[0].paths
        for q in qs:
            n += 1
            c = user_call(q.events, ("sym", "task"))
            if c is not None:
                if doubtful(q, X):
                    ck.unk("argument", site, "condition that is not understood")
                else:
                    ck.bad("argument", site, "the task is run with a failed argument", c.where)
                continue
            x = Exec("mpi", ids, q.events, None, None, q.outcome, q)
            puts = [t for t in x.puts() if t[0] == ids or t[0][0] == "item"]
            if not puts:
                ck.unk("argument", site, "nothing stored")
                continue
            v = puts[-1][1]
            ok = v == X or is_failure(v, q, q.events)
            if ok:
                ck.ok("argument", site, puts[-1][3].where)
            elif precise(v):
                ck.bad("argument", site, f"{brief(v)} is stored for a task whose argument failed", puts[-1][3].where)
            else:
                ck.unk("argument", site)
    if not n:
        raise Undecided("no path")


def local_argument(ck, site, b, where):
    get = f"unidist.core.backends.{b}.core.object_store:ObjectStore.get"
    call = "(X, 1)" if where == "args" else "(1, m=X)"
    if b == "pymp":
        src = f'''
from unidist.core.backends.pymp.core.process_manager import Task
from unidist.core.backends.pymp.core.object_store import ObjectStore
def main(f, X):
    try:
        return Task(f, 0, ObjectStore.get_instance(), {call[1:-1]})()
    except Exception as e:
        raise
'''
    else:
        src = f'''
from unidist.core.backends.pyseq.core.api import submit
def main(f, X):
    return submit(f, {call[1:-1]})
'''
    it, ps = drive(ck, src, stops=("*ObjectStore.*",), facts=[(app("isinst", X, frozenset([DATAID])), True)])
    n = 0
    for p in ps:
        g = [(i, e) for i, (e, _) in enumerate(walk(p.events)) if e.kind == "call" and e.name == get and e.cond == "raises"]
        if not g:
            continue
        n += 1
        c = [e for i, (e, _) in enumerate(walk(p.events)) if i > g[0][0] and e.kind == "call" and e.recv == ("sym", "f")]
        if c:
            ck.bad("argument", site, "the task is run although the retrieval of an argument failed", c[0].where)
        elif b == "pymp" and p.outcome != "raise":
            ck.bad("argument", site, f"the failure of an argument yields {brief(p.value)} instead", g[0][1].where)
        else:
            ck.ok("argument", site, g[0][1].where)
    if not n:
        raise Undecided("no failing retrieval of an argument found")


def not_failure(facts, v, path):
    """The facts establish that v, or the stored value it is taken from, is not an exception."""
    known = [f[2][0] for f, val in facts if val is False and f[0] == "app" and f[1] == "isinst" and f[2][1] & {"Exception", "BaseException"}]
    if v in known:
        return True
    if v[0] == "res":
        q = next((e for e, _ in walk(path.events) if e.kind == "call" and e.res == v), None)
        if q is not None and any(mentions(q, k) for k in known):
            return True
    return any(contains((v,), k) for k in known if k != v)


MUT_OK = ()


def retrieve(ck, site, b, key, n):
    ids = [("sym", f"I{i}") for i in range(n)]
    arg = ids[0] if n == 1 else ("list", tuple(("el", i) for i in ids))
    facts = [(app("isinst", i, frozenset([DATAID])), True) for i in ids] + [(app("isinst", i, frozenset(["list"])), False) for i in ids]
    stops = ("*mpi*ObjectStore.*", "*request_worker_data", "*GarbageCollector*", "*MPIState*", "*get_logger*") if b == "mpi" else ()
    it, ps = run(ck, key, stops=stops, args={"data_ids": arg}, facts=facts, max_paths=4000)
    m = 0
    for p in ps:
        for e, _ in walk(p.events):
            if e.kind == "mut" and e.recv is not None and e.recv[0] == "attr" and e.name.split(":")[-1].split(".")[-1] in ("pop", "popitem", "clear", "delitem", "remove", "del"):
                ck.bad("retrieve", site, f"the retrieval removes what it reads from {brief(e.recv)}", e.where)
        if p.outcome != "ret":
            if p.outcome == "raise":
                m += 1
            continue
        v = p.value
        vs = [v]
        if n > 1:
            if v[0] not in ("list", "tuple") or any(s[0] != "el" for s in v[1]):
                ck.unk("retrieve", site, brief(v))
                continue
            vs = [s[1] for s in v[1]]
        for w in vs:
            if not_failure(p.facts(), w, p):
                ck.ok("retrieve", site)
            elif not precise(w) or doubtful(p, w) or w[0] in ("app",):
                ck.unk("retrieve", site, brief(w))
            else:
                ck.bad("retrieve", site, f"{brief(w)} is returned although it may be the failure of a task")
    if not m:
        ck.unk("retrieve", site, "no raising path")


def readonly(ck, key):
    it, ps = run(ck, key, stops=("*LocalObjectStore.*", "*SharedObjectStore.*"))
    for p in ps:
        for e, _ in walk(p.events):
            nm = (e.name or "").split(":")[-1].split(".")[-1]
            if e.kind in ("mut", "setitem") and nm in ("pop", "popitem", "clear", "delitem", "remove", "del") or e.kind == "call" and nm in ("pop", "popitem", "clear", "remove") and not (e.name or "").startswith("ext:"):
                ck.bad("retrieve", key, f"reading a value removes it: {ev_str(e)}", e.where)
                return
    ck.ok("retrieve", key)


def actor_create(ck):
    site = "worker-loop/ACTOR_CREATE"
    qs = [q for op, q in worker_paths(ck) if op == "ACTOR_CREATE"]
    if not qs:
        raise Undecided("operation not handled")
    seen = False
    for q in qs:
        ctor = [e for e in q.events if e.kind == "call" and (e.name or "").startswith("val:")]
        if q.outcome == "raise" and any(e.kind == "catch" for e in q.events):
            ck.bad("actor", site, "an exception of the constructor ends the worker", q.events[-1].where)
            continue
        if any(e.cond == "raises" for e in ctor) or any(e.kind == "catch" for e in q.events):
            seen = True
            put = [e for e in q.events if e.kind == "setitem" or e.kind == "call" and "actor" in (e.name or "").lower() and e.name.split(".")[-1] in ("put", "setdefault")]
            if put:
                ck.ok("actor", site, put[-1].where)
            else:
                ck.bad("actor", site, "an actor whose constructor failed is not registered: its calls end the worker", ctor[0].where if ctor else "")
        elif ctor:
            ck.ok("actor", site, ctor[0].where)
        else:
            ck.unk("actor", site, "no constructor call found")
    if not seen and all(not any(e.kind == "call" and (e.cond == "raises") for e in q.events) for q in qs) and any(any((e.name or "").startswith("val:") for e in q.events if e.kind == "call") for q in qs):
        ck.bad("actor", site, "an exception of the constructor of an actor ends the worker")


def actor_execute(ck):
    site = "worker-loop/ACTOR_EXECUTE"
    qs = [q for op, q in worker_paths(ck) if op == "ACTOR_EXECUTE"]
    if not qs:
        raise Undecided("operation not handled")
    seen = False
    for q in qs:
        if q.outcome == "raise":
            ck.unk("actor", site, "raising path")
            continue
        if not any(e.kind == "catch" for e in q.events):
            continue
        seen = True
        t = [e for e in q.events if e.kind == "setitem" and e.args and e.args[0][1] == const("task")]
        if t:
            ck.ok("actor", site, t[-1].where)
        else:
            ck.bad("actor", site, "the call of a method that cannot be looked up is not turned into a failing task")
    if not seen:
        used = any("getattr" in brief(t, 2000) for q in qs for e in q.events if e.kind == "setitem" for s in e.args for t in [s[1]])
        ck.bad("actor", site, "an exception while looking up the method of an actor ends the worker") if used else ck.unk("actor", site, "no lookup of the method found")
