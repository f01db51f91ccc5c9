"""Abstract interpretation of the waiting operation of every backend and of the monitor of MPI
over literal lists of pairwise different references (the code only moves them around), for
every number of references to wait for, every order of completion and every split the
execution engine may report: the two lists returned must partition the input, and a
reference may only be in the first one on paths that established its completion."""
import itertools

from ..front import *
from ..interp import NONE, app, const, cval, is_const
from ..mpimodel import LOOP_STOPS, MONITOR, SOURCE, scripted

IDS = tuple(("sym", f"!I{i}") for i in range(3))
DATAID = "unidist.core.backends.common.data_id:DataID"
DELAYED = "unidist.core.backends.pymp.core.object_store:Delayed"
CONTAINS = "unidist.core.backends.mpi.core.object_store:ObjectStore.contains"
MON = "unidist.core.backends.mpi.core.monitor.loop:"


def L(*x):
    return ("list", tuple(("el", i) for i in x))


def check(ck):
    ck.rule("partition", "For 3 different references and every n from 1 to 3, the two lists returned contain each reference exactly once and the first one has n elements.")
    ck.rule("completed", "A reference is in the first list only on paths that saw it completed: reported by the engine, found in a store, or not delayed any more.")
    ck.rule("monitor", "For every order in which tasks complete before and after the request, the monitor answers a wait request exactly once, as soon as n of the references have completed, with a partition whose first list holds n completed references; a second request is answered independently of the first.")
    ck.rule("single", "Waiting for a single reference not given as a list is waiting for a list of it.")
    for b, mod, cls in backends(ck.prog):
        for n in (1, 2, 3):
            site = f"{b}/n={n}"
            ck.guard("partition", site, lambda: frontend(ck, site, b, mod, cls, n, False))
        ck.guard("single", b, lambda: frontend(ck, b, b, mod, cls, 1, True))
    for n in (1, 2, 3):
        ck.guard("monitor", f"monitor/n={n}", lambda: monitor(ck, f"monitor/n={n}", n))
    ck.guard("monitor", "monitor/again", lambda: monitor_again(ck))


def literal(v):
    if v is None or v[0] not in ("list", "tuple", "set") or any(s[0] != "el" for s in v[1]):
        return None
    return [s[1] for s in v[1]]


def last_sent(st):
    for e in reversed(st.events()):
        if e.kind == "call" and e.name.endswith(":send_simple_operation"):
            return e
    return None


def splits(ids, sizes):
    for k in sizes:
        for c in itertools.combinations(ids, k):
            yield list(c), [i for i in ids if i not in c]


class Problem(Exception):
    pass


def frontend(ck, site, b, mod, cls, n, single):
    rule = "single" if single else "partition"
    notes = []

    def dask_wait(it, st, ev):
        fs = literal(ev.arg(0, "fs"))
        rw = ev.arg(2, "return_when")
        if fs is None or rw is None or not is_const(rw):
            return [((), ev.res)]
        if not fs:
            notes.append((ev, "nothing is left to wait for"))
        lo = 1 if cval(rw) == "FIRST_COMPLETED" else len(fs)
        return [((), (lambda y, d=d, r=r: ("tuple", (("el", y.alloc(("set", tuple(("el", i) for i in d)))), ("el", y.alloc(("set", tuple(("el", i) for i in r)))))))) for d, r in splits(fs, range(lo, len(fs) + 1))]

    def ray_wait(it, st, ev):
        fs = literal(ev.arg(0, "object_refs"))
        k = ev.arg(None, "num_returns")
        k = const(1) if k is None else k
        if fs is None or not is_const(k):
            return [((), ev.res)]
        return [((), ("tuple", (("el", L(*d)), ("el", L(*r))))) for d, r in splits(fs, [cval(k)])]

    def reply(it, st, ev):
        s = last_sent(st)
        d = s.arg(2, "data") if s is not None else None
        if d is None or d[0] != "dict":
            return [((), ev.res)]
        f = {cval(x[1]): x[2] for x in d[1] if x[0] == "kv" and is_const(x[1])}
        fs = literal(f.get("data_ids"))
        k = f.get("num_returns")
        if fs is None or k is None or not is_const(k):
            return [((), ev.res)]
        if not 1 <= cval(k) <= len(fs):
            notes.append((s, f"{cval(k)} of {len(fs)} references are asked for, which is never answered"))
            return []
        return [((), ("dict", (("kv", const("ready"), L(*x)), ("kv", const("not_ready"), L(*y))))) for x, y in splits(fs, [cval(k)])]

    ids = IDS[:1] if single else IDS
    arg = "ObjectRef(I0)" if single else "[ObjectRef(I0), ObjectRef(I1), ObjectRef(I2)]"
    src = f'''
from unidist.core.base.backend import BackendProxy
from unidist.core.base.object_ref import ObjectRef
from {mod} import {cls}
def main(I0, I1, I2):
    proxy = BackendProxy({cls}())
    return proxy.wait({arg}{"" if single else f", num_returns={n}"})
'''
    it, ps = drive(
        ck, src, stops=("*mpi*ObjectStore.*", "*core.communication:*", "*GarbageCollector*", "*MPIState*"),
        args={f"I{i}": IDS[i] for i in range(3)}, types={i: ("cls", DATAID) for i in IDS},
        facts=[(app("isinst", i, frozenset(["list"])), False) for i in IDS],
        results={"ext:distributed.wait": dask_wait, "ext:dask.distributed.wait": dask_wait, "ext:distributed.client.wait": dask_wait,
                 "ext:ray.wait": ray_wait, "unidist.core.backends.mpi.core.communication:mpi_recv_object": reply},
        unroll=4, volatile=lambda t: t[0] == "attr" and t[2] == "store_delayed", max_paths=40000)
    for e, msg in notes[:3]:
        ck.bad(rule, site, msg, e.where)
    if not ps:
        raise Undecided("no path")
    for p in ps:
        if p.outcome == "cut":
            continue
        if p.outcome != "ret":
            ck.unk(rule, site, f"{p.outcome} {brief(p.value) if p.value else ''}")
            continue
        v = literal(p.value)
        r, nr = (literal(v[0]), literal(v[1])) if v is not None and len(v) == 2 else (None, None)
        if r is None or nr is None:
            ck.unk(rule, site, brief(p.value))
            continue
        w = next((e.where for e in reversed(p.events) if e.kind in ("call", "read")), "")
        un = lambda l: [objref(x) for x in l]
        r, nr = un(r), un(nr)
        if None in r or None in nr:
            ck.bad(rule, site, f"the result {brief(p.value)} is not made of references")
            continue
        if sorted(r + nr) == sorted(ids) and len(r) == n:
            ck.ok(rule, site, w)
        elif all(i in ids for i in r + nr):
            ck.bad(rule, site, f"waiting for {n} of {len(ids)} references returns {brief(L(*r))} and {brief(L(*nr))}", w)
        else:
            ck.unk(rule, site, brief(p.value))
            continue
        if b in ("pyseq",):
            continue
        done = completed(p, b)
        for i in r:
            if i in done:
                ck.ok("completed", site, w)
            else:
                ck.bad("completed", site, f"{brief(i)} is returned as ready on a path that has not seen it completed", w)


def completed(p, b):
    out = set()
    facts = p.facts()
    for e, _ in walk(p.events):
        if e.kind == "read":
            if (app("isinst", e.res, frozenset([DELAYED])), False) in facts:
                out.add(e.args[0][1])
        if e.kind != "call":
            continue
        if e.name == CONTAINS and (app("truth", e.res), True) in facts:
            out.add(e.args[0][1])
        if e.name.endswith(".wait") and e.res and e.res[0] == "tuple":
            out |= set(literal(e.res[1][0][1]) or [])
        if e.name.endswith(":mpi_recv_object") and e.res and e.res[0] == "dict":
            for s in e.res[1]:
                if s[0] == "kv" and s[1] == const("ready"):
                    out |= set(literal(s[2]) or [])
    return out


# ------------------------------------------------------------------ monitor
def done(*ids):
    return ("TASK_DONE", SOURCE, L(*ids))


def wait(ids, n):
    return ("WAIT", ("sym", "S"), ("dict", (("kv", const("data_ids"), L(*ids)), ("kv", const("num_returns"), const(n)))))


def histories(n):
    """Completions before and after the request, in every order, one by one and grouped."""
    other = ("sym", "!O")
    for k in range(4):
        for before in itertools.permutations(IDS, k):
            rest = [i for i in IDS if i not in before]
            for after in itertools.permutations(rest):
                pre = [done(i) for i in before]
                yield pre + [wait(IDS, n)] + [done(i) for i in after]
                if k >= 1:
                    yield [done(*before)] + [done(other), wait(IDS, n), done(other)] + ([done(*after)] if after else [])


def outcome(msgs):
    """Index of the message at which the answer is due, with the set completed by then."""
    comp, want, due = set(), None, []
    for i, (op, _, d) in enumerate(msgs):
        if op == "TASK_DONE":
            comp |= {s[1] for s in d[1]}
        else:
            want = (set(x[1] for x in d[1][0][2][1]), cval(d[1][1][2]))
        if want and len(comp & want[0]) >= want[1]:
            due.append((i, set(comp), want))
            want = None
    return due


def run_monitor(ck, msgs):
    singles = [MON + c for c in ("TaskCounter", "DataIDTracker", "WaitHandler")]
    singles = [c for c in singles if c in ck.prog.classes]
    singles += [c.key for c in ck.prog.classes.values() if c.key.startswith(MON) and "get_instance" in c.methods and c.key not in singles]
    return scripted(ck, MONITOR, msgs, singles=singles)


def judge(ck, site, msgs):
    it, ps = run_monitor(ck, msgs)
    due = outcome(msgs)
    if not ps:
        raise Undecided("no path")
    for p in ps:
        if p.outcome == "cut":
            ck.unk("monitor", site, "history not followed to its end")
            continue
        if p.outcome == "raise" and p.value != ("exc", "END", "?"):
            ck.unk("monitor", site, f"raises {brief(p.value)}")
            continue
        n, got = 0, []
        for e in p.events:
            if e.kind == "loop" and any(True for _ in calls(e.paths[0].events if e.paths else (), "*send*")):
                raise Undecided("the answer is sent in a loop that is not understood")
            if e.kind != "call":
                continue
            if e.name.endswith(":mpi_recv_operation"):
                n += 1
            if e.name.split(":")[-1] in ("mpi_send_object", "send_simple_operation", "mpi_isend_object"):
                d = e.arg(1, "data")
                if d is None or d[0] != "dict":
                    d = next((s[1] for s in e.args if s[0] == "el" and s[1][0] == "dict"), None)
                got.append((n - 1, d, e))
        hist = " ".join(f"{o}{brief(d, 40) if o == 'TASK_DONE' else ''}" for o, _, d in msgs)
        if len(got) != len(due):
            ck.bad("monitor", site, f"{len(got)} answers instead of {len(due)} after {hist}", got[0][2].where if got else "")
            continue
        for (i, d, e), (j, comp, (ids, k)) in zip(got, due):
            f = {cval(x[1]): x[2] for x in d[1] if x[0] == "kv" and is_const(x[1])} if d else {}
            r, nr = literal(f.get("ready")), literal(f.get("not_ready"))
            if r is None or nr is None:
                ck.unk("monitor", site, brief(d) if d else "")
            elif i != j:
                ck.bad("monitor", site, f"the answer is sent after message {i + 1} instead of {j + 1} of {hist}", e.where)
            elif sorted(r + nr) != sorted(ids) or len(r) != k:
                ck.bad("monitor", site, f"asked for {k} of {len(ids)}, the monitor answers {brief(L(*r))} / {brief(L(*nr))} after {hist}", e.where)
            elif not set(r) <= comp:
                ck.bad("monitor", site, f"the monitor reports {brief(L(*r))} as ready although only {brief(L(*sorted(comp)))} completed", e.where)
            else:
                ck.ok("monitor", site, e.where)
        if not due:
            ck.ok("monitor", site)


def monitor(ck, site, n):
    for h in histories(n):
        judge(ck, site, h)


def monitor_again(ck):
    a, b, c = IDS
    for h in (
        [wait([a, b], 1), done(b), wait([a, c], 2), done(c), done(a)],
        [done(a, b), wait([a, b], 1), wait([a, b], 2), done(c)],
        [done(a), wait([a, b, c], 1), wait([b, c], 1), done(c), wait([a, b], 1)],
        [wait([a, b], 2), done(a), done(b), wait([c, a], 2), done(c)],
    ):
        judge(ck, "monitor/again", h)
