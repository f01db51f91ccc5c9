"""Actors: programs that create actors and call them through their handles and copies of them
are interpreted on every backend (all processes together for MPI, under several orders of
delivery); creations, the object each call reaches, its position among the calls of its
process and the processes that receive tasks are read off the events."""
from ..front import *
from ..interp import NONE, app, const
from ..local import MP_POOL, MP_STORE, SEQ_STORE, local, unique
from ..scen import ACTORS, KLASS, MK, PRE, RF, Scen, chainv, judge, judge_alive, schedules, tup, wstr
from ..world import STOP, Cluster, World, called, field, ident, lst, program, value

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (object graph of each backend, composition of all MPI processes through their messages)"
A, B, C, D, E = (ident(x) for x in "ABCDE")
K1 = const(1)
MORE = [
    Scen("actor-again", MK + "a = k.remote(A)\nx = proxy.get(a.add.remote(1))\nb = k.remote(B)\nr = [a.add.remote(2), b.add.remote(3), a.add.remote(4)]\nreturn x, proxy.get(r)",
         tup(chainv(A, K1), lst(chainv(A, K1, const(2)), chainv(B, const(3)), chainv(A, K1, const(2), const(4)))), tasks=KLASS),
    Scen("actor-three", MK + "v = [k.remote(i) for i in (A, B, C)]\nr = [a.add.remote(1) for a in v]\ns = [a.add.remote(2) for a in v]\nreturn proxy.get(s + r)",
         lst(*[chainv(x, K1, const(2)) for x in (A, B, C)], *[chainv(x, K1) for x in (A, B, C)]), tasks=KLASS),
    Scen("actor-late", RF + MK + "t = f.remote(A)\nu = f.remote(t)\na = k.remote(A)\nr = [a.add.remote(u), a.add.remote(1), a.add.remote(t), a.add.remote(2)]\nreturn proxy.get(r[3])",
         (lambda t, u: chainv(A, u, K1, t, const(2)))(called("F", A), called("F", called("F", A))), tasks=KLASS),
    Scen("actor-kept", MK + RF + "a = k.remote(A)\nr = f.remote(B)\ns = a.add.remote(r)\nt = a.add.remote(s)\nreturn proxy.get([t, r, s])",
         (lambda r: lst(chainv(A, r, chainv(A, r)), r, chainv(A, r)))(called("F", B)), tasks=KLASS),
]
COREACTOR = "unidist.core.backends.mpi.core.controller.actor:Actor"


def check(ck):
    ck.rule("instance", "Each creation of an actor creates exactly one instance, with the arguments given, and no call or copy of a handle creates another.")
    ck.rule("reaches", "Every call through a handle, or a copy of one, runs on the instance the handle was made for.")
    ck.rule("order", "Calls made by one process run in the order in which they were made.")
    ck.rule("exclusive", "While a handle exists in the driver, the process of the actor is not given other tasks or actors.")
    ck.rule("released", "When the last handle is gone the process is available again, and not before.")
    jobs = []
    for s in ACTORS + MORE:
        for i, (o, sl) in enumerate(schedules(ck.tier, s.ranks(), s in MORE)):
            site = f"mpi/{s.name}/{i}"
            jobs.append(("reaches", site, lambda k, site=site, s=s, o=o, sl=sl: mpi(k, site, s, s.cluster(k, o, sl).go())))
    ck.pguard(jobs)
    ck.guard("reaches", "pyseq", lambda: pyseq(ck))
    ck.guard("reaches", "pymp", lambda: pymp(ck))
    for n, mod, cls in backends(ck.prog):
        if n in ("ray", "dask"):
            ck.guard("reaches", n, lambda: outside(ck, n, mod, cls))
    ck.guard("released", "mpi/release", lambda: release(ck))


def op_codes(ck, *names):
    ci = next((c for c in ck.prog.classes.values() if c.name == "Operation" and ".mpi." in c.key), None)
    if ci is None:
        raise Undecided("no class Operation")
    out = {getattr(ci.consts.get(n), "value", None): n for n in names}
    if None in out:
        raise Undecided("operations")
    return out


def placed(w, p, ops):
    """(operation, destination, event) of the operations a process sends."""
    out = []
    for m in w.sent(p):
        if value(m.tag) == w.optag and value(m.data) in ops:
            out.append((ops[value(m.data)], value(m.dest), m.ev))
    return out


def mpi(ck, site, s, c):
    judge(ck, "reaches", site, s, c)
    ops = op_codes(ck, "ACTOR_CREATE", "ACTOR_EXECUTE", "EXECUTE")
    want = s.body.count("k.remote(") if "for i in (A, B, C)" not in s.body else 3
    made = 0
    where = ""
    for r, p in c.paths.items():
        ev = placed(c.worlds[r], p, ops)
        mine = [x for x in ev if x[0] == "ACTOR_CREATE"]
        made += len(mine)
        if mine:
            where = mine[-1][2].where
        taken = {}
        for op, d, e in ev:
            if op in ("ACTOR_CREATE", "EXECUTE") and d in taken:
                ck.bad("exclusive", site, f"process {r} gives process {d}, which has an actor, another {'actor' if op == 'ACTOR_CREATE' else 'task'}", e.where)
                break
            if op == "ACTOR_CREATE":
                taken[d] = e
        else:
            ck.ok("exclusive", site)
    if c.paths[0].outcome == "ret" and made != want:
        ck.bad("instance", site, f"{made} requests to create an actor are sent for {want} actors", where or wstr(c.paths[0]))
    else:
        ck.ok("instance", site)


def pyseq(ck):
    src = """
from unidist.core.base.backend import BackendProxy
from unidist.core.backends.pyseq.backend import PySeqBackend
class K:
    def __init__(self, x):
        self.x = x
    def add(self, y):
        self.x = (self.x, y)
        return self.x
def main(A, B, C, D, E):
    proxy = BackendProxy(PySeqBackend())
    k = proxy.make_actor(K, None, None)
    a = k.remote(A)
    b = k.remote(B)
    r = [a.add.remote(C), b.add.remote(D), a.add.remote(E)]
    c = k.options().remote(C)
    s = a.add
    r += [c.add.remote(A), s.remote(D), b.add.options(num_returns=1).remote(r[0])]
    return proxy.get(r)
"""
    want = lst(chainv(A, C), chainv(B, D), chainv(A, C, E), chainv(C, A), chainv(A, C, E, D), chainv(B, D, chainv(A, C)))
    ps = local(ck, src, "ABCDE")
    w = method(ck, "unidist.core.backends.pyseq.actor:PySeqActor")
    if not ps:
        raise Undecided("no path")
    for p in ps:
        if p.outcome == "raise":
            ck.bad("reaches", "pyseq", f"the program raises {brief(p.value)}", w)
        elif p.outcome != "ret" or not precise(p.value):
            ck.unk("reaches", "pyseq", brief(p.value))
        elif p.value == want:
            for r in ("reaches", "order", "instance"):
                ck.ok(r, "pyseq", w)
        elif any(t and t[0] in ("res", "item", "attr") for t in subterms(p.value)):
            ck.unk("reaches", "pyseq", brief(p.value))
        else:
            ck.bad("reaches", "pyseq", f"the calls give {brief(p.value, 200)}", w)


def method(ck, key):
    ci = ck.prog.classes.get(key)
    return f"{ci.module.path}:{ci.node.lineno}" if ci is not None and hasattr(ci.module, "path") else key


MP = """
from unidist.core.base.backend import BackendProxy
from unidist.core.backends.pymp.core.process_manager import ProcessManager
from unidist.core.backends.pymp.core.actor import Actor
from unidist.core.backends.pymp.backend import PyMpBackend
def main(K, F, A, B, C, D, E, M):
    ProcessManager.get_instance(num_workers=4)
    proxy = BackendProxy(PyMpBackend())
    k = proxy.make_actor(K, None, None)
    f = proxy.make_remote_function(F, None, None, None)
"""
MPR = {"ext:multiprocessing.JoinableQueue": unique("queue"), "ext:multiprocessing.managers.BaseManager": unique("manager")}


def mp(ck, body):
    src = MP + "".join("    " + l + "\n" for l in body.strip("\n").split("\n"))
    return local(ck, src, "KFABCDEM", live=(MP_STORE, MP_POOL), fns="F", types={ident("K"): ("b", "class"), ident("M"): ("b", "function")}, results=MPR, unroll=16)


def queues(p):
    """(queue, the object whose method or function is called, arguments, event) of each request."""
    dumped = {}
    out = []
    for e, _ in walk(p.events):
        if e.kind != "call" or e.cond == "raises":
            continue
        if e.name.endswith("pickle.dumps") and e.args:
            dumped[e.res] = e.args[0][1]
        elif e.name == "meth:put" and e.recv and e.recv[0] == "sym" and e.recv[1].startswith("!queue"):
            t = e.args[0][1]
            out.append((e.recv, dumped.get(t, t), e))
        elif e.name == "sym:!M":
            out.append(("mark", e.args[0][1] if e.args else None, e))
    return out


def pymp(ck):
    w = method(ck, "unidist.core.backends.pymp.core.actor:Actor")
    body = "f.remote(9)\na = k.remote(A)\nb = k.remote(B)\na.add.remote(C)\nb.add.remote(D)\na.add.remote(E)\nM(1)\nfor i in range(6):\n    f.remote(i)\na.add.remote(D)"
    seen = 0
    for p in mp(ck, body):
        if p.outcome == "raise":
            ck.bad("reaches", "pymp", f"creating and calling two actors in a pool of four raises {brief(p.value)}", w)
            continue
        if p.outcome != "ret":
            ck.unk("reaches", "pymp", p.outcome)
            continue
        seen += 1
        inst = {}
        for x, arg in (("a", A), ("b", B)):
            ev = [e for e, _ in walk(p.events) if e.kind == "call" and any(len(s) > 1 and s[1] == arg for s in e.args or ())]
            if len(ev) != 1:
                ck.bad("instance", "pymp", f"the arguments of a created actor reach {len(ev)} calls", ev[-1].where if ev else w)
            else:
                inst[x] = ev[0].res
                ck.ok("instance", "pymp", ev[0].where)
        if len(inst) != 2:
            continue
        qs = queues(p)
        got = {"a": [], "b": [], "f": []}
        mark = False
        for q, t, e in qs:
            if q == "mark":
                mark = True
                continue
            if t[0] != "obj":
                raise Undecided(f"request {brief(t)}")
            who = [x for x, v in inst.items() if contains((t,), v)]
            if len(who) > 1:
                raise Undecided("request of two actors")
            if not who and not contains((t,), ident("F")):
                ck.bad("reaches", "pymp", f"the request {brief(t)} does not concern the actor called", e.where)
                continue
            got[who[0] if who else "f"].append((q, t, e, mark))
        qa, qb = {x[0] for x in got["a"]}, {x[0] for x in got["b"]}
        for n, qq in (("a", qa), ("b", qb)):
            if len(qq) != 1:
                ck.bad("order", "pymp", f"the calls of one actor go to {len(qq)} processes, which do not run them in order", w)
            else:
                ck.ok("order", "pymp", w)
        for n, want in (("a", [C, E, D]), ("b", [D])):
            args = [[v for v in (C, D, E) if contains((t,), v)] for _, t, _, _ in got[n]]
            if args == [[v] for v in want]:
                ck.ok("reaches", "pymp", w)
            else:
                ck.bad("reaches", "pymp", f"the calls of an actor reach it as {args} instead of {want}", got[n][-1][2].where if got[n] else w)
        fs = {x[0] for x in got["f"] if x[3]}
        if qa & qb or fs & (qa | qb):
            ck.bad("exclusive", "pymp", "the process of an actor is given another actor or task", w)
        elif len(fs) < 2:
            ck.bad("exclusive", "pymp", f"six tasks use {len(fs)} of the two processes without an actor", w)
        else:
            ck.ok("exclusive", "pymp", w)
    if not seen:
        ck.unk("reaches", "pymp", "no path")
    vals = "ABCDE"
    for p in mp(ck, "\n".join(f"x{i} = k.remote({v})\nx{i}.add.remote(x{i})" for i, v in enumerate(vals))):
        if p.outcome == "raise":
            ck.ok("exclusive", "pymp/full", w)
        elif p.outcome == "ret":
            ck.bad("exclusive", "pymp/full", "five actors are created in a pool of four processes: two of them share one", w)
        else:
            ck.unk("exclusive", "pymp/full", p.outcome)
    for p in mp(ck, "\n".join(f"x{i} = k.remote({v})" for i, v in enumerate(vals[:4])) + "\n" + "\n".join(f"x{i}.add.remote({i})" for i in range(4))):
        qs = [q for q, t, e in queues(p) if q != "mark"]
        if p.outcome == "ret" and len(qs) == len(set(qs)) == 4:
            ck.ok("exclusive", "pymp/four", w)
        elif p.outcome == "ret" and len(qs) == 4:
            ck.bad("exclusive", "pymp/four", f"four actors in a pool of four processes use {len(set(qs))} of them", w)
        else:
            ck.unk("exclusive", "pymp/four", f"{p.outcome} {brief(p.value) if p.value else ''}")
    ci = ck.prog.classes.get("unidist.core.backends.pymp.core.actor:Actor")
    if ci is None or ck.prog.find_method(ci, "__del__") is None:
        return ck.unk("released", "pymp", "how the process is released")
    body = "a = Actor(K, A)\nb = Actor(K, B)\na.__del__()\nM(1)\nfor i in range(7):\n    f.remote(i)\nb.add.submit(C)\nM(2)\nc = Actor(K, C)\nd = Actor(K, D)\nd.add.submit(D)\nfor i in range(6):\n    f.remote(i)"
    for p in mp(ck, body):
        if p.outcome == "raise":
            ck.bad("released", "pymp", f"creating actors after one has been deleted raises {brief(p.value)}", w)
            continue
        if p.outcome != "ret":
            ck.unk("released", "pymp", p.outcome)
            continue
        ph = {0: [], 1: [], 2: []}
        n = 0
        for q, t, e in queues(p):
            if q == "mark":
                n += 1
            else:
                ph[n].append((q, contains((t,), ident("F")), e))
        f1 = {q for q, f, _ in ph[1] if f}
        b1 = {q for q, f, _ in ph[1] if not f}
        f2 = {q for q, f, _ in ph[2] if f}
        d2 = {q for q, f, _ in ph[2] if not f}
        if len(f1) != 3 or f1 & b1:
            ck.bad("released", "pymp", f"after one of two actors in a pool of four has been deleted, tasks use {len(f1)} processes" + (", that of the other actor included" if f1 & b1 else ""), w)
        elif len(f2) != 1 or f2 & (d2 | b1) or d2 & b1:
            ck.bad("released", "pymp", f"with three actors in a pool of four, tasks use {len(f2)} processes" + (" of actors" if f2 & (d2 | b1) else ""), w)
        else:
            ck.ok("released", "pymp", w)


def outside(ck, n, mod, cls):
    """Backends that keep actors in another system: the calls made on its handles."""
    inner = [c for c in ck.prog.classes.values() if c.key.startswith(mod.rpartition(".")[0]) and ck.prog.is_subclass(c, "unidist.core.base.actor:Actor") and c.name != "Actor"]
    if len(inner) != 1:
        raise Undecided("actor class of the backend")
    im, ic = inner[0].key.split(":")
    src = f"""
from unidist.core.base.backend import BackendProxy
from unidist.core.base.actor import Actor as Base
from {im} import {ic}
from {mod} import {cls}
def copy(o):
    if isinstance(o, (Base, {ic})):
        fn, args = o.__reduce__()
        return fn(*[copy(x) for x in args])
    if isinstance(o, dict):
        return {{k: copy(v) for k, v in o.items()}}
    return o
def main(K, A, B, C, D, E, G):
    proxy = BackendProxy({cls}())
    k = proxy.make_actor(K, None, None)
    a = k.remote(A)
    b = k.remote(B)
    a.add.remote(C)
    b.add.remote(D)
    a.add.remote(E)
    c = copy(a)
    c.add.remote(G)
"""
    G = ident("G")
    ps = local(ck, src, "KABCDEG", live=(), types={ident("K"): ("b", "class")}, recursion=8)
    w = method(ck, inner[0].key)
    seen = 0
    for p in ps:
        if p.outcome == "raise":
            ck.bad("reaches", n, f"creating and calling actors raises {brief(p.value)}", w)
            continue
        if p.outcome != "ret":
            ck.unk("reaches", n, p.outcome)
            continue
        seen += 1
        ev = [e for e, _ in walk(p.events) if e.kind == "call" and e.cond != "raises" and not e.name.startswith("unidist.")]

        def roots(t):
            """Results a value is made from, through the receivers of the calls that gave them."""
            todo, out = [t], set()
            while todo:
                x = todo.pop()
                for s in subterms((x,)):
                    if s and s[0] == "res" and s not in out:
                        out.add(s)
                        q = next((e for e in ev if e.res == s), None)
                        if q is not None:
                            todo.append(q.recv)
                            todo += [a[1] for a in q.args or () if len(a) > 1]
            return out
        inst = {}
        for x, arg in (("a", A), ("b", B)):
            es = [e for e in ev if any(contains((s,), arg) for s in (e.args or ()) + (e.kw or ()))]
            if len(es) != 1:
                ck.bad("instance", n, f"the arguments of one actor reach {len(es)} creations", es[-1].where if es else w)
            else:
                inst[x] = es[0]
                ck.ok("instance", n, es[0].where)
        makes = [e for e in ev if any(contains((s,), ident("K")) for s in (e.args or ()) + (e.kw or ()))]
        if len(inst) == 2 and len(makes) > 2:
            ck.bad("instance", n, f"{len(makes)} actors are created for two", makes[-1].where)
        if len(inst) != 2:
            continue
        call = {}
        for x, arg, who in (("C", C, "a"), ("D", D, "b"), ("E", E, "a"), ("G", G, "a")):
            es = [e for e in ev if any(contains((s,), arg) for s in (e.args or ()) + (e.kw or ()))]
            if len(es) != 1:
                ck.bad("reaches", n, f"one call of an actor method makes {len(es)} calls with its arguments", es[-1].where if es else w)
                continue
            e = es[0]
            rt = set().union(roots(e.recv or NONE), *[roots(a[1]) for a in e.args or () if len(a) > 1])
            hit = {k for k, q in inst.items() if q.res in rt}
            if hit != {who}:
                ck.bad("reaches", n, f"a call of one actor is made on {sorted(hit) or 'none'} of them", e.where)
            else:
                ck.ok("reaches", n, e.where)
                call[x] = (e, inst[who].res in roots(e.recv or NONE))
        if "C" in call and "E" in call:
            (c1, d1), (c2, d2) = call["C"], call["E"]
            if ev.index(c1) > ev.index(c2):
                ck.bad("order", n, "two calls of an actor are made in the opposite order", c2.where)
            elif d1 and d2 or any(contains((s,), c1.res) for s in (c2.args or ()) + (c2.kw or ())):
                ck.ok("order", n, c2.where)
            else:
                ck.bad("order", n, "the calls of an actor are submitted as tasks that do not depend on one another, so a later call may run first", c2.where)
    if not seen:
        ck.unk("reaches", n, "no path")


def release(ck):
    """The process of an actor on MPI: reserved while a handle exists in this process."""
    ci = ck.prog.classes.get(COREACTOR)
    w = method(ck, COREACTOR)
    if ci is None or ck.prog.find_method(ci, "__del__") is None:
        return ck.unk("released", "mpi/release", "how the process is released")
    ops = op_codes(ck, "ACTOR_CREATE", "EXECUTE")
    head = PRE + "from unidist.core.backends.mpi.core.controller.actor import Actor\ndef copy(o):\n    fn, args = o.__reduce__()\n    return fn(*args)\n"
    cases = [
        ("held", "a = Actor(K, A)\n", {"a"}),
        ("gone", "a = Actor(K, A)\na.__del__()\n", set()),
        ("two", "a = Actor(K, A)\nb = Actor(K, B)\n", {"a", "b"}),
        ("two-first", "a = Actor(K, A)\nb = Actor(K, B)\na.__del__()\n", {"b"}),
        ("two-second", "a = Actor(K, A)\nb = Actor(K, B)\nb.__del__()\n", {"a"}),
        ("copy", "a = Actor(K, A)\nb = copy(a)\n", {"a"}),
        ("copy-gone", "a = Actor(K, A)\nb = copy(a)\nb.__del__()\n", {"a"}),
        ("copy-left", "a = Actor(K, A)\nb = copy(a)\na.__del__()\n", {"a"}),
        ("copy-none", "a = Actor(K, A)\nb = copy(a)\na.__del__()\nb.__del__()\n", set()),
        ("again", "a = Actor(K, A)\na.__del__()\na = Actor(K, B)\n", {"a"}),
        ("again-more", "a = Actor(K, A)\nx = f.remote(A)\na.__del__()\ny = f.remote(B)\nb = Actor(K, B)\nc = Actor(K, C)\nc.__del__()\n", {"b"}),
    ]
    for name, body, keep in cases:
        site = f"mpi/release/{name}"
        ck.guard("released", site, lambda: release_one(ck, site, head, body, keep, ops, w))


def release_one(ck, site, head, body, keep, ops, w):
    src = head + "def main(F, K, A, B, C):\n    proxy = BackendProxy(MPIBackend())\n    f = proxy.make_remote_function(F, None, None, None)\n"
    src += "".join("    " + l + "\n" for l in body.strip("\n").split("\n"))
    src += "    for i in range(8):\n        f.remote(i)\n"
    wd = World(ck, 0, hosts={"h0": [0, 1, 2, 3, 4, 5]})
    args = {n: ident(n) for n in "FKABC"}
    types = {ident("F"): ("b", "function"), ident("K"): ("b", "class"), **{ident(n): ("b", "int") for n in "ABC"}}
    ps = wd.run(src, incoming=[], args=args, types=types, facts=[(app("truth", app("iscoroutinefunction", ident("F"))), False)], overlay={})
    if not ps:
        raise Undecided("no path")
    for p in ps:
        if p.outcome == "raise":
            ck.bad("released", site, f"the program {'waits: ' + World.why(p) if p.value == STOP else 'raises ' + brief(p.value)}", wstr(p))
            continue
        if p.outcome != "ret":
            ck.unk("released", site, p.outcome)
            continue
        ev = placed(wd, p, ops)
        made = [d for op, d, _ in ev if op == "ACTOR_CREATE"]
        tail = [d for op, d, _ in ev if op == "EXECUTE"][-8:]
        # the handles that are left, in the order in which their actors were created
        names = [l.split(" = ")[0] for l in body.split("\n") if "Actor(" in l]
        home = {}
        for n, d in zip(names, made):
            home[n] = d
        if len(made) != len(names):
            ck.bad("instance", site, f"{len(made)} requests to create an actor are sent for {len(names)}", w)
            continue
        busy = {home[n] for n in keep}
        free = set(wd.workers) - busy
        if set(tail) & busy:
            ck.bad("exclusive", site, f"tasks are given to process {sorted(set(tail) & busy)} of an actor whose handle exists", w)
        elif set(tail) != free:
            ck.bad("released", site, f"process {sorted(free - set(tail))} is not given tasks although no handle of an actor on it exists", w)
        else:
            ck.ok("released", site, w)
            ck.ok("exclusive", site, w)
