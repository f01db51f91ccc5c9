"""Programs of an MPI user whose processes are analysed together (see world.py), under several
orders of delivery, and the judgement of what comes out."""
from .interp import NONE, app, const
from .lib import *
from .world import STOP, Cluster, World, called, ident, lst, value

PRE = '''
from unidist.core.base.backend import BackendProxy
from unidist.core.base.object_ref import ObjectRef
from unidist.core.backends.mpi.backend import MPIBackend
'''
TASKS = '''
import unidist.core.backends.mpi.core.controller.api as api
'''

A, B, C = ident("A"), ident("B"), ident("C")


def tup(*x):
    return ("tuple", tuple(("el", i) for i in x))


class Scen:
    def __init__(self, name, body, expect, tasks="", raises=False, judge=None, ends=False, loose=False, calls=None, ncalls=None, dup=False, **kw):
        """expect: the term main returns (None: not judged); raises: main ends with that failure."""
        self.judge, self.ends, self.loose = judge, ends, loose
        self.calls, self.ncalls, self.dup = calls, ncalls, dup
        self.name, self.body, self.expect, self.raises, self.tasks, self.kw = name, body, expect, raises, tasks, kw

    def ranks(self):
        h = self.kw.get("hosts")
        return tuple(x for r in h.values() for x in r) if h else (0, 1, 2, 3, 4)

    def source(self):
        kw = dict(self.kw)
        names = list(kw.get("fns", ("F",))) + list(kw.get("vals", ("A", "B", "C")))
        lines = "".join("    " + l + "\n" for l in self.body.strip("\n").split("\n"))
        return PRE + f"def main({', '.join(names)}):\n    proxy = BackendProxy(MPIBackend())\n{lines}"

    def cluster(self, ck, order=None, slow=(), seed=None):
        kw = dict(self.kw)
        if isinstance(order, int):
            order, seed = None, order
        kw.setdefault("vals", ("A", "B", "C"))
        return Cluster(ck, self.source(), order=order, slow=slow, seed=seed, tasks=TASKS + self.tasks if self.tasks else "", **kw)


RF = "f = proxy.make_remote_function(F, None, None, None)\n"

POOL = [
    Scen("put-get", "a, b = proxy.put(A), proxy.put(B)\nreturn proxy.get([b, a, b]), proxy.get(a), proxy.get([a]), proxy.get(b)",
         tup(lst(B, A, B), A, lst(A), B)),
    Scen("empty", "a = proxy.put(A)\nreturn proxy.get([])", lst()),
    Scen("falsy", "r = [proxy.put(v) for v in (None, 0, '', False, [], {}, ())]\nreturn proxy.get(r)",
         lst(NONE, const(0), const(""), const(False), lst(), ("dict", ()), ("tuple", ()))),
    Scen("containers", "a = proxy.put([A, (B, C), {'k': A}])\nreturn proxy.get(a)",
         lst(A, tup(B, C), ("dict", (("kv", const("k"), A),)))),
    Scen("tasks", RF + "a = f.remote(A)\nb = f.remote(B)\nc = f.remote(C)\nreturn proxy.get([c, a, b, a]), proxy.get(b), proxy.get(c)",
         tup(lst(called("F", C), called("F", A), called("F", B), called("F", A)), called("F", B), called("F", C))),
    Scen("mixed", RF + "a = f.remote(A)\np = proxy.put(B)\nreturn proxy.get([p, a, p]), proxy.get([a, p])",
         tup(lst(B, called("F", A), B), lst(called("F", A), B))),
    Scen("chain", RF + "a = f.remote(A)\nb = f.remote(a)\nc = f.remote(a, b)\nreturn proxy.get([c, b])",
         lst(called("F", called("F", A), called("F", called("F", A))), called("F", called("F", A)))),
    Scen("chain3", RF + "a = f.remote(A)\nb = f.remote(a)\nc = f.remote(b)\nd = f.remote(c, a)\nreturn proxy.get(d)",
         called("F", called("F", called("F", called("F", A))), called("F", A))),
    Scen("shared-arg", RF + "p = proxy.put(A)\nr = [f.remote(p, 1), f.remote(p, 2), f.remote(p, 3), f.remote(p, p)]\nreturn proxy.get(r)",
         lst(*[called("F", A, const(i)) for i in (1, 2, 3)], called("F", A, A))),
    Scen("fan-in", RF + "a = f.remote(A)\nb = f.remote(B)\nc = f.remote(C)\nd = f.remote(a, b, c)\ne = f.remote(c, b, a)\nreturn proxy.get([e, d])",
         lst(called("F", called("F", C), called("F", B), called("F", A)), called("F", called("F", A), called("F", B), called("F", C)))),
    Scen("fan-out", RF + "a = f.remote(A)\nr = [f.remote(a, 1), f.remote(a, 2), f.remote(a, 3), f.remote(a, 4)]\nreturn proxy.get(r)",
         lst(*[called("F", called("F", A), const(i)) for i in (1, 2, 3, 4)])),
    Scen("kwargs", RF + "a = f.remote(A)\nb = f.remote(B, k=a)\nreturn proxy.get(b)",
         called("F", B, kw=(("k", called("F", A)),))),
    Scen("two-results", "f = proxy.make_remote_function(F, None, 2, None)\na, b = f.remote(A)\nc, d = f.remote(b, a)\nreturn proxy.get([a, d, b, c])",
         lst(called("F", A, i=0), called("F", called("F", A, i=1), called("F", A, i=0), i=1), called("F", A, i=1), called("F", called("F", A, i=1), called("F", A, i=0), i=0)), arity={"F": 2}),
    Scen("no-result", "f = proxy.make_remote_function(F, None, 0, None)\ng = proxy.make_remote_function(F, None, 1, None)\nn = f.remote(A)\na = g.remote(B)\nreturn n, proxy.get(a)",
         tup(NONE, called("F", B))),
    Scen("nested", "f = proxy.make_remote_function(T, None, None, None)\na = proxy.get(f.remote(A))\nb = f.remote(B)\nreturn a, proxy.get([b, b])",
         tup(lst(A, A), lst(lst(B, B), lst(B, B))),
         tasks="def T(x):\n    i = api.put(x)\n    j = api.submit(api.put(T2), i, x)\n    return api.get(j)\ndef T2(x, y):\n    return [y, x]\n"),
    Scen("nested-chain", "f = proxy.make_remote_function(T, None, None, None)\na = f.remote(A, B)\nreturn proxy.get(a)",
         lst(tup(A, B), tup(A, B), A),
         tasks="def T(x, y):\n    i = api.put(T2)\n    j = api.submit(i, x, y)\n    k = api.submit(i, j, x)\n    z = api.get([j, k, j])\n    return [z[0], z[2], z[1][0][0]]\ndef T2(x, y):\n    return (x, y)\n"),
    Scen("drop", RF + "b = f.remote(f.remote(A))\nreturn proxy.get(b)", called("F", called("F", A))),
]


def schedules(tier="quick", ranks=(0, 1, 2, 3, 4), pairs=False):
    """(order of the processes, channels whose messages arrive last)."""
    r = list(ranks)
    w = r[2:]
    yield None, ()
    yield r[::-1], ()
    yield [r[1]] + w + [0], ()
    yield None, [(0, w[0])]
    yield w[::-1] + [1, 0], [(a, b) for a in w for b in w]
    for i in range(2 if tier == "quick" else 20):
        yield i + 1, ()  # seed of an interleaving
    if pairs and tier == "quick":
        for a in w:
            for b in w:
                if a != b:
                    yield None, [(a, b)]
    if tier != "quick":
        import itertools
        for o in itertools.permutations(w):
            yield list(o) + [1, 0], ()
            yield [0] + list(o) + [1], ()
        for a in r:
            for b in r:
                if a != b:
                    yield None, [(a, b)]
                    yield r[::-1], [(a, b)]


KNOWN = ("sym", "c", "list", "tuple", "dict", "el", "kv", "nc", "obj")


def plain(t):
    """Made of known values only."""
    if not isinstance(t, tuple) or not t:
        return True
    return precise(t) and not any(s and s[0] in ("res", "attr", "item", "app", "ext") and not (s[0] == "app" and s[1] in ("garbled", "dumps", "loads", "pickled")) for s in subterms(t))


def results(ck, scens=POOL, scheds=None):
    """Run the scenarios; yields (scenario, schedule number, cluster or Undecided)."""
    for s in scens:
        for i, (o, sl) in enumerate(scheds or schedules(ck.tier, s.kw.get("ranks", (0, 1, 2, 3, 4)))):
            c = s.cluster(ck, order=o, slow=sl)
            yield s, i, c


def wstr(p):
    return next((e.where for e in reversed(p.events) if e.kind == "call"), "")


def judge_value(ck, rule, site, s, c):
    """The driver ends with the value expected of the scenario."""
    p = c.paths[0]
    if p.outcome == "cut":
        return ck.unk(rule, site, "driver not followed to its end")
    if p.outcome == "raise":
        if p.value == STOP:
            w = World.why(p)
            return ck.bad(rule, site, f"the driver waits forever: {w}", wstr(p))
        if s.raises:
            if p.value == s.expect:
                return ck.ok(rule, site)
            return ck.bad(rule, site, f"raises {brief(p.value)} instead of {brief(s.expect)}", wstr(p))
        return ck.bad(rule, site, f"raises {brief(p.value)}", wstr(p))
    if s.raises:
        return ck.bad(rule, site, f"returns {brief(p.value)} although {brief(s.expect)} was raised", wstr(p))
    if s.expect is None:
        return
    if p.value == s.expect:
        return ck.ok(rule, site)
    if plain(p.value):
        return ck.bad(rule, site, f"returns {brief(p.value, 300)} instead of {brief(s.expect, 300)}", wstr(p))
    ck.unk(rule, site, f"returns {brief(p.value, 200)}")


def judge_alive(ck, rule, site, c):
    """No other process ends or is stuck in the middle of an operation."""
    for r, p in c.paths.items():
        if r == 0:
            continue
        if p.outcome == "cut":
            ck.unk(rule, site, f"process {r} not followed to its end")
        elif p.outcome == "raise" and p.value == STOP:
            ck.ok(rule, site)
        elif p.outcome == "raise":
            ck.bad(rule, site, f"process {r} ends with {brief(p.value)}", wstr(p))


# -------------------------------------------------------------------- waiting, actors, shutdown
KLASS = """class K:
    def __init__(self, x):
        self.x = x
    def add(self, y):
        self.x = (self.x, y)
        return self.x
    def two(self, y, z=None):
        self.x = (self.x, y, z)
        return y, self.x
    def bad(self, y):
        self.x = (self.x, y)
        raise E
from unidist.core.base.actor import Actor as Actor1
from unidist.core.backends.mpi.actor import MPIActor as Actor2
from unidist.core.backends.mpi.core.controller.actor import Actor as Actor3
class Box:
    def __init__(self, v):
        self.v = v
def pack(o):
    if isinstance(o, (Actor1, Actor2, Actor3)):
        fn, args = o.__reduce__()
        return ("reduced", fn, [pack(x) for x in args])
    if isinstance(o, dict):
        return {k: pack(v) for k, v in o.items()}
    return o
def unpack(o):
    if isinstance(o, tuple) and len(o) == 3 and o[0] == "reduced":
        return o[1](*[unpack(x) for x in o[2]])
    if isinstance(o, dict):
        return {k: unpack(v) for k, v in o.items()}
    return o
def T(h, y):
    h = unpack(h.v)
    return api.get(h.add.remote(y)._ref)
def T3(h, y):
    h = unpack(h.v)
    a = h.add.remote(y)
    b = h.add.remote(a)
    return api.get([a._ref, b._ref])
def N():
    return None
"""
MK = "k = proxy.make_actor(K, None, None)\n"
E1 = tup(A, B)


def chainv(*x):
    v = x[0]
    for y in x[1:]:
        v = tup(v, y)
    return v


ACTORS = [
    Scen("actor", MK + "a = k.remote(A)\nr = a.add.remote(B)\ns = a.add.remote(C)\nreturn proxy.get([s, r])", lst(chainv(A, B, C), chainv(A, B)), tasks=KLASS),
    Scen("actor-two", MK + "a = k.remote(A)\nb = k.remote(B)\nr = [a.add.remote(1), b.add.remote(2), a.add.remote(3), b.add.remote(4)]\nreturn proxy.get(r)",
         lst(chainv(A, const(1)), chainv(B, const(2)), chainv(A, const(1), const(3)), chainv(B, const(2), const(4))), tasks=KLASS),
    Scen("actor-pending", RF + MK + "a = k.remote(A)\nt = f.remote(B)\nr = [a.add.remote(t), a.add.remote(1), a.add.remote(f.remote(t)), a.add.remote(2)]\nreturn proxy.get(r)",
         (lambda t: lst(chainv(A, t), chainv(A, t, const(1)), chainv(A, t, const(1), called("F", t)), chainv(A, t, const(1), called("F", t), const(2))))(called("F", B)), tasks=KLASS),
    Scen("actor-cross", MK + "a = k.remote(A)\nb = k.remote(B)\nr = a.add.remote(1)\ns = b.add.remote(r)\nt = a.add.remote(s)\nu = b.add.remote(2)\nv = a.add.remote(3)\nreturn proxy.get([v, u, t])",
         (lambda r: (lambda s: lst(chainv(r, s, const(3)), chainv(s, const(2)), chainv(r, s)))(chainv(B, r)))(chainv(A, const(1))), tasks=KLASS),
    Scen("actor-tasks", RF + MK + "a = k.remote(A)\nt = [f.remote(i) for i in (1, 2, 3, 4, 5)]\nr = a.add.remote(t[4])\nu = f.remote(r)\nreturn proxy.get([u, t[0], t[3]])",
         lst(called("F", chainv(A, called("F", const(5)))), called("F", const(1)), called("F", const(4))), tasks=KLASS),
    Scen("actor-results", MK + "a = k.remote(A)\np = proxy.put(B)\nr = a.two.options(num_returns=2).remote(p, z=C)\nn = a.add.options(num_returns=0).remote(1)\ns = a.add.remote(r[0])\nreturn n, proxy.get(r), proxy.get(s)",
         tup(NONE, lst(B, tup(A, B, C)), chainv(tup(A, B, C), const(1), B)), tasks=KLASS),
    Scen("actor-handle", MK + "f = proxy.make_remote_function(T, None, None, None)\na = k.remote(A)\nx = proxy.get(f.remote(Box(pack(a)), B))\nr = a.add.remote(C)\nreturn x, proxy.get(r)",
         tup(chainv(A, B), chainv(A, B, C)), tasks=KLASS, recursion=12),
    Scen("actor-handle-order", MK + "f = proxy.make_remote_function(T3, None, None, None)\na = k.remote(A)\nx = f.remote(Box(pack(a)), B)\nreturn proxy.get(x)",
         lst(chainv(A, B), chainv(chainv(A, B), chainv(A, B))), tasks=KLASS, recursion=12),
]


def partition(n, values):
    """main returns (values of the ready ones, values of the others, ...)."""
    def judge(ck, rule, site, c):
        p = c.paths[0]
        if p.outcome == "raise":
            return ck.bad(rule, site, f"the driver waits forever: {World.why(p)}" if p.value == STOP else f"raises {brief(p.value)}", wstr(p))
        if p.outcome != "ret" or not plain(p.value) or p.value[0] != "tuple":
            return ck.unk(rule, site, brief(p.value))
        xs = [s[1] for s in p.value[1]]
        ns = n if isinstance(n, tuple) else (n, len(values) - n)
        got = sorted((e[1] for x in xs for e in x[1]), key=show)
        if any(x[0] != "list" for x in xs) or tuple(len(x[1]) for x in xs) != ns or got != sorted(values, key=show):
            return ck.bad(rule, site, f"waiting gives {brief(p.value, 200)}", wstr(p))
        ck.ok(rule, site)
    return judge


R3 = RF + "r = [f.remote(A), f.remote(B), f.remote(C)]\n"
V3 = [called("F", A), called("F", B), called("F", C)]
WAITS = [
    Scen(f"wait{n}", R3 + f"x, y = proxy.wait(r, num_returns={n})\nreturn proxy.get(x), proxy.get(y)", None, judge=partition(n, V3)) for n in (1, 2, 3)
] + [
    Scen("wait-got", R3 + "proxy.get(r[1])\nx, y = proxy.wait(r, num_returns=1)\nreturn proxy.get(x), proxy.get(y)", None, judge=partition(1, V3)),
    Scen("wait-again", R3 + "x, y = proxy.wait(r, num_returns=1)\nz, w = proxy.wait(y, num_returns=1)\nreturn proxy.get(x), proxy.get(z), proxy.get(w)", None, judge=partition((1, 1, 1), V3)),
    Scen("wait-put", RF + "r = [f.remote(A), proxy.put(B), f.remote(C)]\nx, y = proxy.wait(r, num_returns=2)\nreturn proxy.get(x), proxy.get(y)", None, judge=partition(2, [called("F", A), B, called("F", C)])),
    Scen("wait-chain", RF + "a = f.remote(A)\nb = f.remote(a)\nx, y = proxy.wait([b, a], num_returns=2)\nreturn proxy.get(x), proxy.get(y)", None, judge=partition(2, [called("F", A), called("F", called("F", A))])),
    Scen("wait-results", "f = proxy.make_remote_function(F, None, 2, None)\na, b = f.remote(A)\nx, y = proxy.wait([b, a], num_returns=1)\nreturn proxy.get(x), proxy.get(y)", None,
         judge=partition(1, [called("F", A, i=0), called("F", A, i=1)]), arity={"F": 2}),
    Scen("wait-actor", MK + "a = k.remote(A)\nr = [a.add.remote(B), a.add.remote(C)]\nx, y = proxy.wait(r, num_returns=1)\nreturn proxy.get(x), proxy.get(y)", None,
         judge=partition(1, [chainv(A, B), chainv(A, B, C)]), tasks=KLASS),
]
SHUT = "\nfrom unidist.core.backends.mpi.core.controller.api import shutdown\nshutdown()\n"
SHUTDOWNS = [
    Scen("stop", "pass" + SHUT, None, ends=True),
    Scen("stop-idle", RF + "x = proxy.get([f.remote(A), f.remote(B)])" + SHUT + "return x", lst(called("F", A), called("F", B)), ends=True),
    Scen("stop-busy", RF + "a = f.remote(A)\nb = f.remote(a)\nc = f.remote(a, b)" + SHUT, None, ends=True, loose=True),
    Scen("stop-busy-actor", RF + MK + "t = f.remote(A)\na = k.remote(t)\nr = a.add.remote(t)\nu = f.remote(r)" + SHUT, None, ends=True, tasks=KLASS, loose=True),
    Scen("stop-twice", RF + "x = proxy.get(f.remote(A))" + SHUT + "shutdown()\nreturn x", called("F", A), ends=True),
]

GC = "from unidist.core.backends.mpi.core.controller.garbage_collector import garbage_collector as gc\n"
DROP = "def drop(x):\n    gc.collect((x._ref.owner_rank, x._ref.data_number))\n"
CLEANUPS = [
    Scen("clean", GC + DROP + RF + "r = [f.remote(i) for i in range(6)]\ns = [proxy.put(i) for i in range(6)]\nk = proxy.put(A)\nproxy.get(r)\nt = [f.remote(i) for i in s]\nproxy.get(t)\nfor i in r:\n    drop(i)\nfor i in s:\n    drop(i)\n"
         "v = [proxy.get(k) for i in range(7)]\nu = [f.remote(k, i) for i in t]\nreturn v[6], proxy.get(u)",
         tup(A, lst(*[called("F", A, called("F", const(i))) for i in range(6)])), dup=True, ncalls=18),
]
H1, H2 = {"h0": [0, 1, 2]}, {"h0": [0, 1, 2, 3]}


def fv(*x):
    return called("F", *x)


_l = [A]
for _i in range(6):
    _l.append(fv(*(_l[-1:] + [_l[max(_i - 1, 0)]])))
LADDER = RF + "v = [A]\nfor i in range(6):\n    v.append(f.remote(v[-1], v[max(i - 1, 0)]))\nreturn proxy.get(v[1:])"
PENDING = [
    Scen("ladder1", LADDER, lst(*_l[1:]), ncalls=6, hosts=H1),
    Scen("ladder2", LADDER, lst(*_l[1:]), ncalls=6, hosts=H2),
    Scen("ladder3", LADDER, lst(*_l[1:]), ncalls=6),
    Scen("last-only", RF + "a = f.remote(A)\nb = f.remote(a, 1)\nc = f.remote(a, 2)\nd = f.remote(b, c)\ne = f.remote(d, a, B)\nreturn proxy.get(e)",
         (lambda a: fv(fv(fv(a, const(1)), fv(a, const(2))), a, B))(fv(A)), ncalls=5, hosts=H2),
    Scen("unread", RF + "a = f.remote(A)\nb = [f.remote(a, i) for i in range(5)]\nreturn proxy.get(b[0])", fv(fv(A), const(0)), ncalls=6),
    Scen("no-result-dep", RF + "g = proxy.make_remote_function(F, None, 0, None)\na = f.remote(A)\ng.remote(a, 1)\ng.remote(a, 2)\nb = f.remote(a, 3)\nreturn proxy.get(b)", fv(fv(A), const(3)), ncalls=4, hosts=H2),
    Scen("containers-dep", RF + "a = f.remote(A)\nb = f.remote(B)\nc = f.remote([a, (b, a)], k={'x': b, 'y': [a]})\nreturn proxy.get(c)",
         called("F", lst(fv(A), tup(fv(B), fv(A))), kw=(("k", ("dict", (("kv", const("x"), fv(B)), ("kv", const("y"), lst(fv(A)))))),)), ncalls=3, hosts=H2),
    Scen("put-dep", RF + "p = proxy.put(A)\na = f.remote(p)\nb = f.remote(a, p)\nc = f.remote(b, p)\nd = f.remote(p, c)\nreturn proxy.get([d, p, a])",
         (lambda a: lst(fv(A, fv(fv(a, A), A)), A, a))(fv(A)), ncalls=4, hosts=H2),
    Scen("get-between", RF + "a = f.remote(A)\nb = f.remote(a, 1)\nx = proxy.get(a)\nc = f.remote(a, 2)\ny = proxy.get([b, c])\nd = f.remote(c, b)\nreturn x, y, proxy.get(d)",
         (lambda a: (lambda b, c: tup(a, lst(b, c), fv(c, b)))(fv(a, const(1)), fv(a, const(2))))(fv(A)), ncalls=4, hosts=H2),
    Scen("both-wait", RF + "a = f.remote(A)\nb = f.remote(a, 1)\nc = f.remote(b, 2)\nd = f.remote(B)\ne = f.remote(b, d)\nreturn proxy.get([b, c, e])",
         (lambda b: lst(b, fv(b, const(2)), fv(b, fv(B))))(fv(fv(A), const(1))), ncalls=5),
    Scen("two-waiters", RF + "a = f.remote(A)\nr = [f.remote(a, i) for i in range(4)]\ns = [f.remote(r[i], r[3 - i]) for i in range(4)]\nreturn proxy.get(s)",
         (lambda r: lst(*[fv(r[i], r[3 - i]) for i in range(4)]))([fv(fv(A), const(i)) for i in range(4)]), ncalls=9),
]


def judge(ck, rule, site, s, c):
    return s.judge(ck, rule, site, c) if s.judge else judge_value(ck, rule, site, s, c)
