"""Cleanup of data on MPI: the driver is interpreted against the monitor's own answers for every
number of completed tasks, whole jobs are interpreted with deletions, and what the stores of
each process hold strongly is read off the abstract heap."""
import ast

from ..front import *
from ..interp import NONE, app, const, cval, is_const
from ..scen import ACTORS, CLEANUPS, DROP, GC, KLASS, MK, PENDING, POOL, PRE, RF, TASKS, Scen, fv, judge, schedules, tup, wstr
from ..world import MPI, STOP, W, Cluster, World, called, ident, lst, value, value_of

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (composition of all MPI processes; strong reachability in the abstract heap)"
NOTE = "Tasks submitted by tasks are not in the driver's count (known finding)."
A, B, C = ident("A"), ident("B"), ident("C")
GCMOD = MPI + "controller.garbage_collector"
STORE = MPI + "local_object_store:LocalObjectStore"
OPS = ("TASK_DONE", "GET_TASK_COUNT", "CLEANUP", "EXECUTE", "ACTOR_EXECUTE")
MAKE = GC + DROP + RF + "k = proxy.put(A)\ns = [proxy.put(i) for i in range(6)] + [proxy.put(i) for i in range(6)] + [proxy.put(i) for i in range(6)]\ns += [proxy.put(i) for i in range(7)] + [proxy.put(i) for i in range(7)]\n"
DROPS = "for i in s[:8]:\n    drop(i)\nfor i in s[8:16]:\n    drop(i)\nfor i in s[16:24]:\n    drop(i)\nfor i in s[24:]:\n    drop(i)\n"
READ = "for i in range(8):\n    proxy.get(k)\nfor i in range(8):\n    proxy.get(k)\n"
NDROP = 32
WORK = [
    ("none", "", 0, ""),
    ("one", "f.remote(A)\n", 1, ""),
    ("three", "f.remote(A)\nf.remote(k)\nf.remote(A, B)\n", 3, ""),
    ("results", "g = proxy.make_remote_function(F, None, 2, None)\nh = proxy.make_remote_function(F, None, 0, None)\ng.remote(A)\nh.remote(A)\nf.remote(B)\n", 3, ""),
    ("options", "f.options(num_returns=2).remote(A)\nf.options(num_returns=0).remote(B)\n", 2, ""),
    ("actor", MK + "a = k_.remote(A)\na.add.remote(B)\na.add.remote(C)\n".replace("k_", "k"), 2, KLASS),
    ("actor-results", MK + "a = k.remote(A)\na.add.options(num_returns=0).remote(B)\na.two.options(num_returns=2).remote(C)\na.add.remote(1)\n", 3, KLASS),
    ("actor-only", MK + "a = k.remote(A)\n", 0, KLASS),
    ("mixed", MK + "a = k.remote(A)\nx = f.remote(A)\na.add.remote(x)\ny = f.remote(x)\n", 3, KLASS),
    ("same-arg", "p = f.remote(A)\nf.remote(p, p)\nf.remote(p)\nf.remote(p, 1)\n", 4, ""),
]
SOS = MPI + "shared_object_store:SharedObjectStore."
OFF = {SOS + "is_allocated": const(False), SOS + "contains": const(False)}
_far = dict(hosts={"h0": [0, 1, 2, 3], "h1": [4, 5, 6]}, shared=True, results=OFF)
FAR = [
    Scen("far-tasks", RF + "r = [f.remote(i) for i in range(4)]\nreturn proxy.get(r)", None, **_far),
    Scen("far-chain", RF + "a = f.remote(A)\nb = f.remote(a)\nc = f.remote(a, b)\nd = f.remote(c)\nreturn proxy.get(d)", None, **_far),
    Scen("far-actor", MK + "a = k.remote(A)\nb = k.remote(A)\nc = k.remote(B)\nreturn proxy.get([a.add.remote(B), b.add.remote(C), c.add.remote(A)])", None, tasks=KLASS, **_far),
]


def check(ck):
    ck.rule("counted", "Every task or actor call that is submitted is reported as completed exactly once, after it has run.")
    ck.rule("after-all", "The driver asks for deletion only when the monitor has reported as many completed tasks as have been submitted, and then does.")
    ck.rule("exact", "A request for deletion names exactly the identifiers whose last reference is gone and that have not been named before, and goes to every other process once.")
    ck.rule("kept", "An identifier deleted while a request is being made is part of a later request.")
    ck.rule("dropped", "A process that gets the request drops every strong reference to the named identifiers, and keeps data of other processes' identifiers until then; a store holds no strong reference to the process's own identifiers.")
    jobs = []
    for s in POOL + ACTORS + PENDING + FAR:
        for i, (o, sl) in enumerate(schedules(ck.tier, s.ranks())):
            if ck.tier == "quick" and i not in (0, 1, 4, 5):
                continue
            site = f"{s.name}/{i}"
            jobs.append(("counted", site, lambda k, site=site, s=s, o=o, sl=sl: counted(k, site, s, s.cluster(k, o, sl).go())))
    for s in CLEANUPS + MORE:
        for i, (o, sl) in enumerate(schedules(ck.tier, s.ranks(), True)):
            site = f"{s.name}/{i}"
            jobs.append(("after-all", site, lambda k, site=site, s=s, o=o, sl=sl: job(k, site, s, s.cluster(k, o, sl).go())))
    for name, body, n, tasks in WORK:
        site = f"driver/{name}"
        jobs.append(("after-all", site, lambda k, site=site, body=body, n=n, tasks=tasks: driver(k, site, body, n, tasks)))
    for when in ("ser", "send", "ask"):
        site = f"driver/during-{when}"
        jobs.append(("kept", site, lambda k, site=site, when=when: during(k, site, when)))
    jobs.append(("dropped", "store", store))
    ck.pguard(jobs)


def op_codes(ck):
    ci = next((c for c in ck.prog.classes.values() if c.name == "Operation" and ".mpi." in c.key), None)
    if ci is None:
        raise Undecided("no class Operation")
    out = {getattr(ci.consts.get(n), "value", None): n for n in OPS}
    if None in out:
        raise Undecided("operations")
    return out


def timeline(w, p, ops):
    """(kind, operation or None, partner, message, event) of what a process sends and receives."""
    taken = list(cval(p.state.overlay.get((W, "taken"), const(()))))
    sent = {id(m.ev): m for m in w.sent(p)}
    out = []
    for e, ctx in walk(p.events):
        if e.kind != "call" or e.cond == "raises":
            continue
        n = e.name.rpartition(":")[2]
        if id(e) in sent:
            m = sent[id(e)]
            out.append(("send", ops.get(value(m.data)) if value(m.tag) == w.optag else None, value(m.dest), m, e))
        elif n in ("recv", "Recv") and taken:
            m = w.incoming[taken.pop(0)]
            out.append(("recv", ops.get(value(m.data)) if value(m.tag) == w.optag else None, value(m.src), m, e))
    return out


# -------------------------------------------------------------------- counting
def counted(ck, site, s, c):
    ops = op_codes(ck)
    asked, done = {}, {}
    ran = {}
    for r, p in c.paths.items():
        if p.outcome == "cut":
            return ck.unk("counted", site, f"process {r} not followed to its end")
        for k, op, d, m, e in timeline(c.worlds[r], p, ops):
            if k == "send" and op in ("EXECUTE", "ACTOR_EXECUTE"):
                asked[d] = asked.get(d, 0) + 1
            if k == "send" and op == "TASK_DONE":
                done.setdefault(r, []).append((d, e))
    if c.paths[0].outcome == "raise" and c.paths[0].value == STOP:
        return  # judged elsewhere
    for r in c.worlds[0].workers:
        if r not in c.paths:
            continue
        d = done.get(r, [])
        if len(d) != asked.get(r, 0):
            ck.bad("counted", site, f"process {r} reports {len(d)} completed tasks of the {asked.get(r, 0)} it was given", d[-1][1].where if d else wstr(c.paths[r]))
        elif any(x != c.monitors[0] for x, _ in d):
            ck.bad("counted", site, f"process {r} reports a completed task to {sorted({x for x, _ in d})} instead of {c.monitors[0]}", d[-1][1].where)
        else:
            ck.ok("counted", site)


# -------------------------------------------------------------------- the driver alone
def source(body):
    lines = "".join("    " + l + "\n" for l in body.strip("\n").split("\n"))
    return PRE + f"def main(F, A, B, C):\n    proxy = BackendProxy(MPIBackend())\n{lines}"


def run(ck, w, body, tasks, incoming, **k):
    src = (TASKS + tasks if tasks else "") + source(body)
    args = {n: ident(n) for n in "FABC"}
    types = {ident(n): ("b", "int") for n in "ABC"}
    types[ident("F")] = ("b", "function")
    ps = w.run(src, incoming=incoming, args=args, types=types, facts=[(app("truth", app("iscoroutinefunction", ident("F"))), False)], **k)
    if len(ps) != 1:
        raise Undecided(f"{len(ps)} behaviours of the driver")
    return ps[0]


def reports(ck):
    """The messages of completed tasks of every kind, in turn."""
    ops = op_codes(ck)
    out = []
    for s in (Scen("two", "f = proxy.make_remote_function(F, None, 2, None)\nreturn proxy.get(f.remote(A))", None, arity={"F": 2}), Scen("one", RF + "return proxy.get(f.remote(A))", None),
              Scen("zero", "f = proxy.make_remote_function(F, None, 0, None)\nf.remote(A)", None), Scen("call", MK + "a = k.remote(A)\nreturn proxy.get(a.add.remote(B))", None, tasks=KLASS)):
        c = s.cluster(ck).go()
        m = c.monitors[0]
        for r in c.worlds[0].workers:
            ms = [x for x in c.worlds[r].sent(c.paths[r]) if value(x.dest) == m]
            if ms and ops.get(value(ms[0].data)) == "TASK_DONE":
                out.append(ms)
    if len(out) != 4:
        raise Undecided("reports of completed tasks")
    return out


def answers(ck, done, n, ask, times):
    """What the monitor answers when n reports have arrived."""
    w = World(ck, 1)
    src = "from unidist.core.backends.mpi.core.monitor.loop import monitor_loop\ndef main():\n    monitor_loop()\n"
    ps = w.run(src, incoming=[m for i in range(n) for m in done[i % len(done)]] + ask * times)
    if len(ps) != 1:
        raise Undecided("several behaviours of the monitor")
    return [m for m in w.sent(ps[0]) if value(m.dest) == 0], ps[0]


def first_question(ck, w, body, tasks):
    ops = op_codes(ck)
    p = run(ck, w, body, tasks, [])
    if p.outcome != "raise" or p.value != STOP:
        return None, p
    t = timeline(w, p, ops)
    i = next((i for i, x in enumerate(t) if x[0] == "send" and x[1] == "GET_TASK_COUNT"), None)
    if i is None:
        raise Undecided(f"the driver waits: {World.why(p)}")
    return [x[3] for x in t[i:] if x[0] == "send" and x[2] == t[i][2]], p


def payload(m):
    """The list of identifiers in a message, or None."""
    t = m.data
    if t is not None and t[0] == "item" and t[2][0] == "slice":
        t = t[1]
    if t is not None and t[0] == "app" and t[1] == "pickled":
        t = t[2][0]
    return t if t is not None and t[0] in ("list", "tuple") else None


def tuples(t):
    """Identifiers named in a request."""
    if t is None:
        return None
    out = []
    for s in t[1]:
        v = s[1] if s[0] == "el" else None
        if v is None or v[0] != "tuple" or any(value(x[1]) is None for x in v[1]):
            return None
        out.append(tuple(value(x[1]) for x in v[1]))
    return out


def requests(w, p, ops):
    """Requests for deletion: [(position of the first message, {destination: number}, identifiers, event)]."""
    t = timeline(w, p, ops)
    out = []
    for i, (k, op, d, m, e) in enumerate(t):
        if k == "send" and op == "CLEANUP":
            body = next((payload(x[3]) for x in t[i + 1:] if x[0] == "send" and x[2] == d and payload(x[3]) is not None), None)
            ids = tuples(body)
            if ids is None:
                raise Undecided(f"request {brief(body or NONE)}")
            if not out or out[-1][2] != ids or d in out[-1][1]:
                out.append([i, {}, ids, e])
            out[-1][1][d] = out[-1][1].get(d, 0) + 1
    return out, t


def driver(ck, site, body, n, tasks):
    w = World(ck, 0, unroll=16)
    body = MAKE + body.replace("k = proxy", "k_ = proxy").replace("k.remote(A)\na", "k_.remote(A)\na").replace("a = k.remote", "a = k_.remote") + DROPS + READ
    ask, p0 = first_question(ck, w, body, tasks)
    if ask is None:
        return ck.bad("after-all", site, f"{NDROP} identifiers are deleted, but the driver never asks how many tasks have completed", wstr(p0)) if p0.outcome == "ret" else ck.unk("after-all", site, brief(p0.value))
    done = reports(ck)
    ops = op_codes(ck)
    for i in range(n + 2):
        ans, mp = answers(ck, done, i, ask, 16)
        if len(ans) < 16:
            return ck.bad("after-all", site, "the monitor does not answer how many tasks have completed", wstr(mp))
        p = run(ck, w, body, tasks, ans)
        if p.outcome != "ret":
            return ck.unk("after-all", site, f"with {i} of {n}: {brief(p.value)} {World.why(p)}")
        rq, t = requests(w, p, ops)
        if i != n:
            if rq and i < n:
                return ck.bad("after-all", site, f"data is deleted when {i} of {n} submitted tasks have completed", rq[0][3].where)
            ck.ok("after-all", site)
            continue
        if not rq:
            return ck.bad("after-all", site, f"data is not deleted although all {n} submitted tasks have completed", wstr(p))
        ck.ok("after-all", site)
        exact(ck, site, w, rq, {(0, j) for j in range(1, NDROP + 1)}, n)


def exact(ck, site, w, rq, gone, n):
    others = [r for h in w.hosts.values() for r in h if r != w.rank]
    seen = {}
    for pos, dests, ids, e in rq:
        miss = [r for r in others if r not in dests]
        if miss or any(v != 1 for v in dests.values()):
            ck.bad("exact", site, f"a request for deletion does not reach process {miss}" if miss else "a request for deletion reaches a process twice", e.where)
        else:
            ck.ok("exact", site)
        for i in ids:
            seen[i] = seen.get(i, 0) + 1
        bad = [i for i in ids if i not in gone]
        if bad:
            ck.bad("exact", site, f"the deletion of {bad[0]} is requested although references to it are left", e.where)
        else:
            ck.ok("exact", site)
    twice = [i for i, v in seen.items() if v > 1]
    left = sorted(gone - set(seen))
    if twice:
        ck.bad("exact", site, f"the deletion of {twice[0]} is requested {seen[twice[0]]} times", rq[-1][3].where)
    elif left:
        ck.bad("exact", site, f"the deletion of {left[:4]} is not requested", rq[-1][3].where)
    else:
        ck.ok("exact", site)


def during(ck, site, when):
    """An identifier is deleted at a point inside the making of the request."""
    ops = op_codes(ck)
    code = next(k for k, v in ops.items() if v == "CLEANUP")
    gc = ck.prog.modules.get(GCMOD)
    expr = ast.parse("garbage_collector.collect((0, 777))", mode="eval").body
    flag = (("sym", "@c11"), "done")

    def fire(it, y):
        if flag in y.overlay:
            return
        y.overlay[flag] = const(True)
        if value_of(it, y, gc, expr) is None:
            raise Undecided("deletion of an identifier")

    w = World(ck, 0, unroll=16)
    rs = w.it.results

    def isend(it, st, ev):
        def mk(y):
            if value(ev.arg(0, "obj")) == code and value(ev.arg(2, "tag")) == w.optag:
                fire(it, y)
            return ev.res
        return [((), mk)]

    def wrapped(base):
        def f(it, st, ev):
            fs, t = base(it, st, ev)[0]

            def mk(y):
                fire(it, y)
                return t(y) if callable(t) else t
            return [(fs, mk)]
        return f
    if when == "send":
        rs["meth:isend"] = isend
    elif when == "ser":
        k = MPI + "serialization:SimpleDataSerializer.serialize_pickle"
        rs[k] = wrapped(rs[k])
    else:
        rs["meth:send"] = lambda it, st, ev: [((), lambda y: (fire(it, y), ev.res)[1])]
    tail = DROPS.replace("s[", "s2[")
    body = MAKE + DROPS + "s2 = [proxy.put(i) for i in range(8)] + [proxy.put(i) for i in range(8)] + [proxy.put(i) for i in range(8)] + [proxy.put(i) for i in range(8)]\n" + READ + tail + READ
    ask, p0 = first_question(ck, w, body, "")
    if ask is None:
        raise Undecided("no question")
    ans, _ = answers(ck, reports(ck), 0, ask, 40)
    p = run(ck, w, body, "", ans)
    if p.outcome != "ret" or flag not in p.state.overlay:
        return ck.unk("kept", site, f"{p.outcome} {brief(p.value)} {World.why(p)}")
    rq, t = requests(w, p, ops)
    if len(rq) < 2:
        return ck.unk("kept", site, f"{len(rq)} requests")
    n = sum(x[2].count((0, 777)) for x in rq)
    if n == 0:
        ck.bad("kept", site, "an identifier deleted while a request for deletion is being made is in no request", rq[0][3].where)
    elif n > 1:
        ck.bad("kept", site, "an identifier deleted while a request for deletion is being made is in two requests", rq[-1][3].where)
    else:
        ck.ok("kept", site)


# -------------------------------------------------------------------- whole jobs
TWELVE = "s = [proxy.put(i) for i in range(6)] + [proxy.put(i) for i in range(6)] + [proxy.put(i) for i in range(6)]\nfor i in s[:6]:\n    drop(i)\nfor i in s[6:12]:\n    drop(i)\nfor i in s[12:]:\n    drop(i)\n"
READS = "v = [proxy.get(k) for i in range(7)]\n"
NEST = "def N(x):\n    j = api.submit(api.put(T2), x, 1)\n    k = api.submit(api.put(T2), x, 2)\n    return api.get([j, k])\ndef T2(x, y):\n    return [y, x]\n"
MORE = [
    Scen("unfinished", GC + DROP + RF + "k = proxy.put(A)\na = f.remote(B)\nb = f.remote(a)\nc = f.remote(b)\n" + TWELVE + READS + "d = f.remote(c)\n" + READS.replace("v", "u") + "return proxy.get([d, b, k])",
         lst(fv(fv(fv(fv(B)))), fv(fv(B)), A), ncalls=4),
    Scen("unfinished-dropped", GC + DROP + RF + "k = proxy.put(A)\np = proxy.put(B)\na = f.remote(p)\nb = f.remote(a, p)\nc = f.remote(b)\ndrop(p)\ndrop(a)\n" + TWELVE + READS + "return proxy.get([c, b, k])",
         lst(fv(fv(fv(B), B)), fv(fv(B), B), A), ncalls=3),
    Scen("actor-dropped", GC + DROP + RF + MK.replace("k =", "kk =") + "k = proxy.put(A)\np = proxy.put(B)\nh = kk.remote(A)\na = h.add.remote(f.remote(p))\nb = h.add.remote(p)\nc = f.remote(b)\ndrop(p)\ndrop(a)\n" + TWELVE + READS + "return proxy.get([c, k])",
         lst(fv(tup(tup(A, fv(B)), B)), A), tasks=KLASS),
    Scen("nested", GC + DROP + RF + "n = proxy.make_remote_function(N, None, None, None)\nk = proxy.put(A)\np = proxy.put(B)\na = f.remote(p)\nb = n.remote(C)\nx = proxy.get([a, b])\nc = f.remote(a, 1)\nd = f.remote(a, 2)\ndrop(a)\n" + TWELVE + READS + "return x, proxy.get([c, d])",
         tup(lst(fv(B), lst(lst(const(1), C), lst(const(2), C))), lst(fv(fv(B), const(1)), fv(fv(B), const(2)))), tasks=NEST),
]


def job(ck, site, s, c):
    ops = op_codes(ck)
    for r, p in c.paths.items():
        if p.outcome == "cut":
            return ck.unk("after-all", site, f"process {r} not followed to its end")
    judge(ck, "after-all", site, s, c)
    p = c.paths[0]
    rq, t = requests(c.worlds[0], p, ops)
    mon = c.monitors[0]
    tm = timeline(c.worlds[mon], c.paths[mon], ops)
    replies = []
    n = 0
    for k, op, d, m, e in tm:
        if (k, op) == ("recv", "TASK_DONE"):
            n += 1
        if k == "send" and d == 0:
            replies.append((m, n))
    nested = sum(1 for r in c.worlds[0].workers if r in c.paths for x in timeline(c.worlds[r], c.paths[r], ops) if x[0] == "send" and x[1] in ("EXECUTE", "ACTOR_EXECUTE"))
    for pos, dests, ids, e in rq:
        mine = sum(1 for x in t[:pos] if x[0] == "send" and x[1] in ("EXECUTE", "ACTOR_EXECUTE"))
        got = [x[3] for x in t[:pos] if x[0] == "recv" and x[2] == mon]
        cnt = next((n for m, n in reversed(replies) if got and m is got[-1]), None)
        if cnt is None:
            ans = [n for m, n in replies]
            cnt = ans[len(got) - 1] if got and len(got) <= len(ans) else None
        if cnt is None:
            ck.bad("after-all", site, "data is deleted without the monitor's report on the completed tasks", e.where)
        elif cnt < mine + nested:
            ck.bad("after-all" if not nested else "nested", site if not nested else "job", f"data is deleted when {cnt} of {mine + nested} submitted tasks have completed" + (f" ({nested} of them submitted by tasks)" if nested else ""), e.where)
        else:
            ck.ok("after-all", site)
    for r, q in c.paths.items():
        if r in c.worlds[0].workers:
            heap(ck, site, c.worlds[r], q, cleaned(c.worlds[r], q, ops))


def cleaned(w, p, ops):
    """Identifiers whose deletion a process has been asked for."""
    out = set()
    t = timeline(w, p, ops)
    for i, x in enumerate(t):
        if x[0] == "recv" and x[1] == "CLEANUP":
            b = next((payload(y[3]) for y in t[i + 1:] if y[0] == "recv" and y[2] == x[2] and payload(y[3]) is not None), None)
            out |= set(tuples(b) or ())
    return out


def id_of(st, t):
    if t[0] == "sym" and t[1].startswith("!id"):
        o, n = st.overlay.get((t, "owner_rank")), st.overlay.get((t, "data_number"))
        if value(o) is not None and value(n) is not None:
            return value(o), value(n)
    return None


def strong(st, roots):
    """(identifiers strongly reachable, keys of weak maps reachable)."""
    seen, ids, weak = set(), {}, {}
    todo = [(r, n) for r, n in roots]
    while todo:
        t, frm = todo.pop()
        if not isinstance(t, tuple) or not t:
            continue
        if t[0] == "ref":
            if t[1] in seen or t[1] not in st.heap:
                continue
            seen.add(t[1])
            wk = st.overlay.get((t, "__weak__"))
            wk = cval(wk) if wk is not None else ""
            c = st.heap[t[1]]
            if c[0] == "inst":
                todo += [(x, f"{c[1].rpartition(':')[2]}.{n}") for n, x in c[2].items()]
                for (b, n), v in st.overlay.items():
                    if b == t and isinstance(n, str) and not n.startswith("__"):
                        todo.append((v, f"{c[1].rpartition(':')[2]}.{n}"))
                continue
            if c[0] not in ("list", "set", "dict"):
                continue
            for s in c[1]:
                if s[0] == "kv":
                    if "WeakKey" in wk:
                        i = id_of(st, s[1])
                        if i:
                            weak.setdefault(i, []).append((frm, s[2]))
                    else:
                        todo.append((s[1], frm))
                    if "WeakValue" not in wk:
                        todo.append((s[2], frm))
                elif wk != "WeakSet":
                    todo += [(x, frm) for x in s[1:]]
            continue
        i = id_of(st, t)
        if i:
            ids.setdefault(i, frm)
            continue
        if t[0] in ("tuple", "list", "dict", "set", "el", "kv", "obj"):
            todo += [(x, frm) for x in (t[1] if t[0] in ("tuple", "list", "dict", "set") else t[1:])]
    return ids, weak


def roots(st):
    out = []
    for (b, n), v in st.overlay.items():
        if b and b[0] in ("cls", "mod") and isinstance(n, str) and not n.startswith("@") and v and v[0] in ("ref", "tuple", "list", "dict", "set"):
            out.append((v, f"{b[1]}.{n}"))
        if b and b[0] == "single":
            out.append((v, f"{b[1].rpartition(':')[2]}.{n}"))
    return out


def heap(ck, site, w, p, gone):
    st = p.state
    ids, weak = strong(st, roots(st))
    left = sorted(i for i in gone if i in ids)
    if left:
        ck.bad("dropped", site, f"process {w.rank} still holds a reference to {left[0]} in {ids[left[0]]} after its deletion was requested", wstr(p))
    elif gone:
        ck.ok("dropped", site)
    for i, where in sorted(weak.items()):
        maps = [f for f, v in where if "owner" in f or "data_map" in f or "serializ" in f]
        if i[0] != w.rank and i not in ids and i not in gone and where and any(v[0] != "set" and not (v[0] == "ref" and st.heap[v[1]][0] == "set") for _, v in where):
            ck.bad("dropped", site, f"process {w.rank} keeps data of {i} in {where[0][0]} but no reference to the identifier, so it may be lost before its deletion is requested", wstr(p))
            break
    else:
        ck.ok("dropped", site)


def store(ck):
    """The store of one worker, operation by operation."""
    import itertools
    w = World(ck, 2)
    I, J, K = ident("id0_1"), ident("id0_2"), ident("id2_1")
    ov = {}
    for t, (o, n) in ((I, (0, 1)), (J, (0, 2)), (K, (2, 1))):
        ov[(t, "owner_rank")], ov[(t, "data_number")] = const(o), const(n)
    ops = ["s.put({0}, A)", "s.put_data_owner({0}, 3)", "s.cache_serialized_data({0}, {{'s_data': B, 'raw_buffers': [], 'buffer_count': []}})", "s.cache_send_info({0}, 3)"]
    wh = next((f"{c.module.path}:{c.node.lineno}" for c in ck.prog.classes.values() if c.key == STORE and hasattr(c.module, "path")), "")
    for n in (1, 2, 3):
        for combo in itertools.combinations(range(4), n):
            body = "".join("    " + ops[k].format(x) + "\n" for k in combo for x in ("I", "J", "K"))
            for clear, gone in (("", set()), ("    s.clear([I])\n", {(0, 1)}), ("    s.clear([J, I])\n    s.clear([J])\n", {(0, 1), (0, 2)}), ("    s.clear([])\n", set())):
                src = f"from unidist.core.backends.mpi.core.local_object_store import LocalObjectStore\ndef main(I, J, K, A, B):\n    s = LocalObjectStore.get_instance()\n{body}{clear}"
                site = f"store/{'-'.join(map(str, combo))}/{len(gone)}"
                ps = w.run(src, args={"I": I, "J": J, "K": K, "A": A, "B": B}, types={A: ("b", "int"), B: ("b", "int"), **{x: ("cls", MPI + "common:MpiDataID") for x in (I, J, K)}}, overlay=dict(ov))
                for p in ps:
                    if p.outcome == "raise":
                        ck.bad("dropped", site, f"the store raises {brief(p.value)}", wh)
                        continue
                    if p.outcome != "ret":
                        ck.unk("dropped", site, p.outcome)
                        continue
                    ids, weak = strong(p.state, roots(p.state))
                    want = ({(0, 1), (0, 2)} - gone) if set(combo) - {3} else set()
                    held = set(ids)
                    if (2, 1) in held:
                        ck.bad("dropped", site, f"the store holds a strong reference to an identifier of its own process in {ids[(2, 1)]}, which is therefore never deleted", wh)
                    elif held & gone:
                        x = sorted(held & gone)[0]
                        ck.bad("dropped", site, f"{ids[x]} still refers to an identifier whose deletion was requested", wh)
                    elif want - held:
                        ck.bad("dropped", site, "data of another process's identifier is kept without a reference to the identifier" if not gone else "an identifier is dropped whose deletion was not requested", wh)
                    else:
                        ck.ok("dropped", site, wh)
