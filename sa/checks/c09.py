"""Asynchronous sends of the MPI backend: every job is interpreted with the handles of the sends
as abstract objects that complete at different times; what has not completed must be strongly
reachable at the end, with its data, and everything must have completed before an exit."""
import itertools

from ..front import *
from ..interp import FALSE, NONE, TRUE, const, cval, is_const
from ..scen import ACTORS, CLEANUPS, DROP, GC, KLASS, MK, PENDING, POOL, PRE, RF, SHUTDOWNS, TASKS, Scen, judge, schedules, wstr
from ..world import DEFAULT_STOPS, MPI, STOP, W, Cluster, World, called, ident, lst, value
from .c11 import FAR, op_codes as _ops, roots, timeline

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (composition of all MPI processes; strong reachability of pending send handles in the abstract heap)"
NOTE = "MPI's own progress and the content of handles are trusted; the handles complete at chosen times."
STOPS = tuple(s for s in DEFAULT_STOPS if "AsyncOperations" not in s)
SENDS = ("meth:isend", "meth:Isend", "meth:issend", "meth:Issend", "meth:ibsend", "meth:Ibsend")
ONE = ("test", "Test", "wait", "Wait")
MANY = ("Waitall", "waitall", "Testall", "testall", "Waitsome", "waitsome", "Testsome", "testsome")

# which handles complete, after how many looks
MODES = {
    "slow": lambda i, n: n >= 6,
    "fast": lambda i, n: True,
    "odd": lambda i, n: i % 2 == 1 or n >= 6,
    "even": lambda i, n: i % 2 == 0 or n >= 6,
    "third": lambda i, n: i % 3 == 2 or n >= 3,
}


def handle(t, st):
    """Index of the send whose handle the term is."""
    if t is None or t[0] != "res":
        return None
    n = 0
    for e in st.events():
        if e.kind == "call" and e.cond != "raises" and e.name in SENDS:
            if e.res == t:
                return n
            n += 1
    return None


def done(st):
    d = st.overlay.get((W, "complete"))
    return cval(d) if d is not None else ()


def looks(st):
    d = st.overlay.get((W, "looks"))
    return dict(cval(d)) if d is not None else {}


def finish(y, i):
    if i not in done(y):
        y.overlay[(W, "complete")] = const(tuple(done(y)) + (i,))


class Handles:
    """Meaning of the operations on handles of sends."""

    def __init__(self, mode):
        self.mode = mode
        self.world = None

    def hooks(self, old):
        h = {"meth:" + n: self.one(old.get("meth:" + n)) for n in ONE}
        for n in MANY:
            for p in ("ext:mpi4py.MPI.Request.", "ext:mpi4py.util.pkl5.Request."):
                h[p + n] = self.many
        return h

    def look(self, y, i):
        k = looks(y)
        k[i] = k.get(i, 0) + 1
        y.overlay[(W, "looks")] = const(tuple(sorted(k.items())))
        if i in done(y) or MODES[self.mode](i, k[i]):
            finish(y, i)
            return True
        return False

    def one(self, old):
        def f(it, st, ev):
            i = handle(ev.recv, st)
            if i is None:
                return old(it, st, ev) if old is not None else [((), ev.res)]
            n = ev.name[5:]

            def mk(y):
                if n in ("wait", "Wait"):
                    finish(y, i)
                    return TRUE if n == "Wait" else NONE
                ok = TRUE if self.look(y, i) else FALSE
                return ok if n == "Test" else ("tuple", (("el", ok), ("el", NONE)))
            return [((), mk)]
        return f

    def many(self, it, st, ev):
        x = ev.arg(0, "requests")
        x = it.snap(st, x) if x is not None else None
        if x is None or x[0] not in ("list", "tuple") or any(s[0] != "el" for s in x[1]):
            return [((), ev.res)]
        hs = [handle(s[1], st) for s in x[1]]
        if None in hs:
            return [((), ev.res)]
        n = ev.name.rpartition(".")[2]

        def mk(y):
            if n in ("Waitall", "waitall"):
                for i in hs:
                    finish(y, i)
                return TRUE if n == "Waitall" else lst(*[NONE for _ in hs])
            oks = [self.look(y, i) for i in hs]
            if n in ("Testall", "testall"):
                ok = TRUE if all(oks) else FALSE
                return ok if n == "Testall" else ("tuple", (("el", ok), ("el", NONE)))
            if n in ("Waitsome", "waitsome") and not any(oks) and hs:
                finish(y, hs[0])
                oks[0] = True
            r = lst(*[const(k) for k, o in enumerate(oks) if o])
            return r if n[0].isupper() else ("tuple", (("el", r), ("el", NONE)))
        return [((), mk)]


def job(ck, s, mode, o, sl):
    c = s.cluster(ck, o, sl)
    for w in c.worlds.values():
        w.it.results.update(Handles(mode).hooks(dict(w.it.results)))
    return c.go()


def live(s):
    kw = dict(s.kw)
    kw["stops"] = STOPS
    t = Scen(s.name, s.body, s.expect, tasks=s.tasks, raises=s.raises, judge=s.judge, ends=s.ends, loose=s.loose, **kw)
    return t


SOS = MPI + "shared_object_store:SharedObjectStore."
SHARED = {SOS + "is_allocated": TRUE, SOS + "contains": TRUE, SOS + "get": ident("A"),
          SOS + "get_shared_info": ("dict", (("kv", const("id"), ident("id0_0")), ("kv", const("service_index"), const(0))))}
MORE = FAR + [
    Scen("shared-args", RF + "p = proxy.put(A)\nf.remote(p)\nf.remote(p, p)\nf.remote(B)", None, shared=True, results=SHARED),
    Scen("shared-actor", MK + "p = proxy.put(A)\na = k.remote(p)\na.add.remote(p)", None, tasks=KLASS, shared=True, results=SHARED),
]


def check(ck):
    ck.rule("held", "An asynchronous send that MPI has not reported as completed is held by the process, together with the buffer being sent.")
    ck.rule("finished", "When a process announces that it is ready to exit, or exits, every asynchronous send it has made has been waited for or reported as completed.")
    ck.rule("exact", "Looking at the outstanding sends forgets only completed ones, for every combination of completed and pending sends; waiting for all waits for each.")
    jobs = []
    for s in POOL + ACTORS + PENDING + CLEANUPS + SHUTDOWNS + MORE:
        s = live(s)
        for k, mode in enumerate(MODES):
            for i, (o, sl) in enumerate(schedules(ck.tier, s.ranks())):
                if ck.tier == "quick" and i != k:
                    continue
                site = f"{s.name}/{mode}/{i}"
                jobs.append(("held", site, lambda kk, site=site, s=s, o=o, sl=sl, mode=mode: sends(kk, site, s, job(kk, s, mode, o, sl))))
    jobs.append(("exact", "histories", histories))
    ck.pguard(jobs)


def reach(st):
    """Terms strongly reachable from the objects that outlive a call."""
    seen, out = set(), set()
    todo = [r for r, _ in roots(st)]
    while todo:
        t = todo.pop()
        if not isinstance(t, tuple) or not t:
            continue
        if t[0] == "ref":
            if t[1] in seen or t[1] not in st.heap:
                continue
            seen.add(t[1])
            c = st.heap[t[1]]
            wk = st.overlay.get((t, "__weak__"))
            wk = cval(wk) if wk is not None else ""
            if c[0] == "inst":
                todo += list(c[2].values())
                todo += [v for (b, n), v in st.overlay.items() if b == t and isinstance(n, str) and not n.startswith("__")]
            elif c[0] in ("list", "set", "dict"):
                for g in c[1]:
                    if g[0] == "kv":
                        if "WeakKey" not in wk:
                            todo.append(g[1])
                        if "WeakValue" not in wk:
                            todo.append(g[2])
                    elif wk != "WeakSet":
                        todo += list(g[1:])
            continue
        out.add(t)
        if t[0] in ("tuple", "list", "dict", "set"):
            todo += list(t[1])
        elif t[0] in ("el", "kv"):
            todo += list(t[1:])
        elif t[0] == "obj":
            todo += [v for _, v in t[2]]
        elif t[0] not in ("res", "sym", "c"):
            todo += [x for x in t[1:] if isinstance(x, tuple)] + [y for x in t[1:] if isinstance(x, tuple) for y in x if isinstance(y, tuple)]
    return out


def base(t):
    """The buffer a part of which is sent."""
    while t is not None and t[0] == "app" and t[1] in ("slice", "getslice", "item", "memoryview") and t[2]:
        t = t[2][0]
    while t is not None and t[0] == "item":
        t = t[1]
    return t


def sends(ck, site, s, c):
    ops = dict(_ops(ck))
    ops.update(exits(ck))
    for r, p in c.paths.items():
        if p.outcome == "cut":
            ck.unk("held", site, f"process {r} not followed to its end")
            continue
        st = p.state
        evs = [e for e, ctx in walk(p.events) if e.kind == "call" and e.cond != "raises" and e.name in SENDS]
        comp = set(done(st))
        held = reach(st)
        bad = None
        for i, e in enumerate(evs):
            if i in comp:
                continue
            if e.res not in held:
                bad = (e, "the handle of an asynchronous send is dropped before the send has completed")
                break
            if e.name[5].isupper():
                d = e.arg(0, "buf")
                if d is not None and d[0] != "c" and d not in held and base(d) not in held and not any(x in held for x in inner(d)):
                    bad = (e, f"the data of an asynchronous send, {brief(d, 60)}, is dropped before the send has completed")
                    break
        if bad:
            ck.bad("held", site, f"process {r}: {bad[1]}", bad[0].where)
        else:
            ck.ok("held", site)
        exits_of(ck, site, r, p, c.worlds[r], ops, evs)


def inner(d):
    """Parts of a slice or a view that stand for the whole buffer."""
    if d[0] == "app" and d[1] in ("slice", "getslice", "sub", "item", "view", "cast", "memoryview", "meth"):
        return [x for x in d[2] if isinstance(x, tuple) and x and x[0] not in ("c", "nc")]
    if d[0] == "item":
        return [d[1]]
    return []


def exits(ck):
    ci = next((c for c in ck.prog.classes.values() if c.name == "Operation" and ".mpi." in c.key), None)
    return {getattr(ci.consts.get(n), "value", None): n for n in ("READY_TO_SHUTDOWN",) if ci is not None and ci.consts.get(n) is not None}


def exits_of(ck, site, r, p, w, ops, evs):
    """Sends outstanding at the points where the process announces its exit or exits."""
    sent = {id(m.ev): m for m in w.sent(p)}
    order = {id(e): i for i, e in enumerate(evs)}
    out = set()
    for e, ctx in walk(p.events):
        if e.kind != "call" or e.cond == "raises":
            continue
        m = sent.get(id(e))
        what = None
        if m is not None and value(m.tag) == w.optag and ops.get(value(m.data)) == "READY_TO_SHUTDOWN":
            what = "announces that it is ready to exit"
        elif e.name in ("ext:mpi4py.MPI.Finalize", "ext:sys.exit", "ext:os._exit"):
            what = "exits"
        if what and out - {order.get(id(e))}:
            i = min(out)
            ck.bad("finished", site, f"process {r} {what} without having waited for the send at {evs[i].where}", e.where)
            return
        if what:
            ck.ok("finished", site)
        if id(e) in order:
            out.add(order[id(e)])
        n = e.name.rpartition(":")[2].rpartition(".")[2]
        if n in ONE and e.recv is not None or n in MANY:
            out -= completed(e, evs, p)


def completed(e, evs, p):
    """Sends reported as completed by that event (its result says so, or it waits)."""
    hs = {}
    n = e.name.rpartition(":")[2].rpartition(".")[2]
    for i, s in enumerate(evs):
        hs[s.res] = i
    comp = set(done(p.state))
    if n in ("wait", "Wait"):
        return {hs[e.recv]} if e.recv in hs else set()
    if n in MANY:
        from ..interp import subterms
        ts = set()
        for a in e.args:
            ts |= {t for t in subterms(a) if t in hs}
        return {hs[t] for t in ts} & comp
    return {hs[e.recv]} & comp if e.recv in hs else set()


# -------------------------------------------------------------------- the collection of handles
def histories(ck):
    """All short histories of sends, looks and waits on the process's collection of handles."""
    key = MPI + "async_operations:AsyncOperations"
    ci = ck.prog.classes.get(key)
    if ci is None or not all(m in ci.methods for m in ("extend", "check", "finish")):
        return ck.unk("exact", "histories", "no collection of handles with extend, check and finish")
    alpha = ["E0", "E1", "E2", "C", "F"]
    hist = [h for n in (1, 2, 3, 4) for h in itertools.product(alpha, repeat=n) if h[0] != "C" and h[0] != "F"]
    if ck.tier == "quick":
        hist = [h for h in hist if len(h) < 4 or h[-1] in "CF"]
    for h in hist:
        for mode in MODES:
            history(ck, h, mode)


def history(ck, h, mode):
    w = World(ck, 2, stops=STOPS)
    w.it.results.update(Handles(mode).hooks(dict(w.it.results)))
    body, n = "", 0
    for op in h:
        if op[0] == "E":
            body += "    a.extend([" + ", ".join(f"(comm.Isend(D{n + i}, dest=3, tag=1), D{n + i})" for i in range(int(op[1]))) + "])\n"
            n += int(op[1])
        else:
            body += "    a.check()\n" if op == "C" else "    a.finish()\n"
    names = [f"D{i}" for i in range(n)]
    src = f"from unidist.core.backends.mpi.core.async_operations import AsyncOperations\ndef main({', '.join(['comm'] + names)}):\n    a = AsyncOperations.get_instance()\n{body}"
    args = {x: ident(x) for x in names}
    args["comm"] = ident("COMM")
    ps = w.run(src, args=args, types={ident(x): ("b", "bytes") for x in names})
    site = f"histories/{''.join(h)}/{mode}"
    if len(ps) != 1 or ps[0].outcome != "ret":
        return ck.unk("exact", site, f"{len(ps)} behaviours, {ps[0].outcome if ps else ''}")
    p = ps[0]
    st = p.state
    evs = [e for e, _ in walk(p.events) if e.kind == "call" and e.name in SENDS]
    comp, held = set(done(st)), reach(st)
    where = wstr(p)
    for i, e in enumerate(evs):
        if i not in comp and (e.res not in held or ident(f"D{i}") not in held):
            return ck.bad("exact", site, f"send {i + 1} of {len(evs)} is forgotten before it has completed", where)
    if h[-1] == "F" and len(comp) != len(evs):
        return ck.bad("exact", site, "a send has not been waited for", where)
    ck.ok("exact", site)
