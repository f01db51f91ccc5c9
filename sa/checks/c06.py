"""Retrieval and storing: the front end and the stores are interpreted over literal lists of
references to pairwise different opaque values (the code only moves them around); for MPI all
processes are interpreted together, exchanging messages, under several orders of delivery."""
import itertools

from ..front import *
from ..interp import FALSE, NONE, TRUE, app, const, cval, is_const
from ..mpimodel import fresh_singletons
from ..scen import POOL, RF, Scen, judge_alive, judge_value, plain, schedules, tup, wstr
from ..world import called, ident, lst

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (value-flow terms over literal lists of references; for MPI a composition of the abstract semantics of all processes through their messages)"
DATAID = "unidist.core.backends.common.data_id:DataID"
DELAYED = "unidist.core.backends.pymp.core.object_store:Delayed"
A, B = ident("A"), ident("B")

ONES = [called("F", ident("A"), const(i)) for i in range(10)]
LONG = "r = [" + ", ".join(f"f.remote(A, {i})" for i in range(10)) + "]\n"
PUTS = "r = [" + ", ".join(f"proxy.put({i})" for i in range(10)) + "]\n"
# more references than any small number the code may have in mind
MANY = [
    Scen("many", RF + LONG + "return proxy.get(r)", lst(*ONES)),
    Scen("many-args", RF + LONG + "return proxy.get(f.remote(r)), proxy.get(f.remote(*r))", tup(called("F", lst(*ONES)), called("F", *ONES))),
    Scen("many-put", PUTS + "return proxy.get(r)", lst(*[const(i) for i in range(10)])),
]


def check(ck):
    ck.rule("retrieve", "Retrieving [r_i1, ..., r_ik] returns the list [v_i1, ..., v_ik], repetitions included; retrieving r alone returns v.")
    ck.rule("store", "Storing a value yields one reference, different from all others, that resolves to this value, for values of every kind (containers, falsy values, callables).")
    ck.rule("wait", "A retrieval reads a value only after it has been established that it is not a placeholder of a running task any more, and of every requested reference.")
    ck.rule("mpi", "Every retrieval in the MPI programs returns the expected values in the order asked for, under every order of delivery analysed.")
    ck.rule("alive", "No MPI process ends because of a retrieval.")
    for b, mod, cls in backends(ck.prog):
        if b == "mpi":
            continue
        ck.guard("retrieve", b, lambda: local(ck, b, mod, cls))
        ck.guard("store", b, lambda: kinds(ck, b, mod, cls))
        if b == "pymp":
            ck.guard("wait", b, lambda: pymp_wait(ck, b, mod, cls))
    jobs = []
    for s in POOL + MANY:
        for i, (o, sl) in enumerate(schedules(ck.tier)):
            if s in MANY and i > 0:
                break
            site = f"{s.name}/{i}"

            def one(c, s=s, o=o, sl=sl, site=site):
                k = s.cluster(c, o, sl).go()
                judge_value(c, "mpi", site, s, k)
                judge_alive(c, "alive", site, k)
            jobs.append(("mpi", site, one))
    ck.pguard(jobs)


def els(t):
    if t is not None and t[0] in ("list", "tuple", "set") and all(s[0] == "el" for s in t[1]):
        return [s[1] for s in t[1]]
    return None


def engine():
    """Meaning of the calls of the execution engines: references are terms of what they stand for."""
    n = itertools.count()

    def ref(y, x, ty=None):
        r = ("sym", f"!ref{next(n)}")
        y.overlay[(r, "__value__")] = x
        y.overlay[(r, "key")] = r
        y.types[r] = ty or ("b", "ref")
        return r

    def val(st, r):
        return st.overlay.get((r, "__value__"))

    def put(it, st, ev):
        return [((), lambda y: ref(y, ev.args[0][1]))]

    def scatter(it, st, ev):
        x = ev.arg(0, "data")
        h = ev.arg(None, "hash")
        if x[0] in ("list", "tuple", "set") and els(x) is not None:
            return [((), lambda y: (lambda t: t if x[0] == "tuple" else y.alloc(t))((x[0], tuple(("el", ref(y, v)) for v in els(x)))))]
        if x[0] == "dict" and all(s[0] == "kv" for s in x[1]):
            return [((), lambda y: y.alloc(("dict", tuple(("kv", s[1], ref(y, s[2])) for s in x[1]))))]
        return [((), lambda y: ref(y, x))]

    def get(it, st, ev):
        x = ev.args[0][1]
        if els(x) is not None and all(val(st, r) is not None for r in els(x)):
            return [((), lambda y: y.alloc(("list", tuple(("el", val(y, r)) for r in els(x)))))]
        v = val(st, x)
        return [((), ev.res if v is None else v)]

    def result(it, st, ev):
        v = val(st, ev.recv) if ev.recv is not None else None
        return [((), ev.res if v is None else v)]

    def data_id(it, st, ev):
        if ev.args or ev.kw:
            return [((), ev.res)]
        return [((), lambda y: ref(y, NONE, ("cls", DATAID)))]

    def manager_dict(it, st, ev):
        return [((), lambda y: y.alloc(("dict", ())))]

    def dumps(it, st, ev):
        return [((), app("dumps", ev.args[0][1]))]

    def loads(it, st, ev):
        x = ev.args[0][1]
        return [((), x[2][0] if x[0] == "app" and x[1] == "dumps" else app("loads", x))]
    rs = {"ext:ray.put": put, "ext:ray.get": get, "meth:scatter": scatter, "meth:gather": get, "meth:result": result, DATAID: data_id, "meth:dict": manager_dict}
    for m in ("cloudpickle", "pickle", "dill"):
        rs[f"ext:{m}.dumps"] = dumps
        rs[f"ext:{m}.loads"] = loads
    return rs


def overlay(prog):
    ov, keys = fresh_singletons(prog)
    keys = [k for k in keys if ".mpi." not in k and k.endswith("ObjectStore")]
    return {a: b for a, b in ov.items() if a[0][1] in keys}, tuple(keys)


def program(ck, mod, cls, body, args, types=None, facts=(), unroll=6, **k):
    src = f"""
from unidist.core.base.backend import BackendProxy
from unidist.core.base.object_ref import ObjectRef
from {mod} import {cls}
def main({', '.join(args)}):
    proxy = BackendProxy({cls}())
""" + "".join("    " + l + "\n" for l in body.split("\n"))
    ov, keys = overlay(ck.prog)
    a = {x: ident(x) for x in args}
    ty = {ident(x): ("b", "int") for x in args}
    ty.update(types or {})
    it, ps = drive(ck, src, stops=("*mpi*", "*ProcessManager*", DATAID), pure=(), overlay=ov, no_single=keys, args=a, types=ty, facts=facts, results=engine(), unroll=unroll, raise_forks=False, **k)
    if not ps:
        raise Undecided("no path")
    return ps


def expect(ck, rule, site, ps, want):
    for p in ps:
        w = wstr(p)
        if p.outcome == "ret" and p.value == want:
            ck.ok(rule, site, w)
        elif p.outcome == "ret" and plain(p.value):
            ck.bad(rule, site, f"returns {brief(p.value, 200)} instead of {brief(want, 200)}", w)
        elif p.outcome == "raise" and (p.value[0] == "exc" or len(ps) == 1 and p.value[0] == "res"):
            ck.bad(rule, site, f"raises {brief(p.value)}", w)
        elif p.outcome == "cut":
            continue
        else:
            ck.unk(rule, site, f"{p.outcome} {brief(p.value) if p.value else ''}")


def local(ck, b, mod, cls):
    n = 3 if ck.tier == "quick" else 4
    ps = program(ck, mod, cls, "a, b = proxy.put(A), proxy.put(B)\nreturn proxy.get(a), proxy.get(b), proxy.get(a)", ["A", "B"])
    expect(ck, "retrieve", f"{b}/single", ps, tup(A, B, A))
    for k in range(n + 1):
        for c in itertools.product("ab", repeat=k):
            ps = program(ck, mod, cls, f"a, b = proxy.put(A), proxy.put(B)\nreturn proxy.get([{', '.join(c)}])", ["A", "B"])
            expect(ck, "retrieve", f"{b}/list{k}", ps, lst(*[{"a": A, "b": B}[x] for x in c]))


KINDS = [("None", NONE), ("0", const(0)), ("''", const("")), ("False", FALSE), ("[]", lst()), ("[A, B]", lst(A, B)), ("(A,)", tup(A)), ("()", tup()),
         ("{}", ("dict", ())), ("{'x': A}", ("dict", (("kv", const("x"), A),))), ("{A}", ("set", (("el", A),))), ("G", ident("G")), ("A", A)]


def kinds(ck, b, mod, cls):
    for e, v in KINDS:
        ps = program(ck, mod, cls, f"a = proxy.put({e})\nb = proxy.put(B)\nreturn proxy.get(a), proxy.get([b, a])", ["A", "B", "G"],
                     types={ident("G"): ("b", "function")}, facts=[(app("callable", ident("G")), True)])
        expect(ck, "store", f"{b}/{e}", ps, tup(v, lst(B, v)))
        ps = program(ck, mod, cls, f"return proxy.put({e})._ref", ["A", "B", "G"], types={ident("G"): ("b", "function")}, facts=[(app("callable", ident("G")), True)])
        for p in ps:
            if p.outcome == "ret" and p.value[0] == "sym" and p.value[1].startswith("!ref"):
                ck.ok("store", f"{b}/{e}", wstr(p))
            elif p.outcome == "ret" and p.value[0] in ("list", "tuple", "set", "dict", "c"):
                ck.bad("store", f"{b}/{e}", f"storing {e} gives {brief(p.value)} instead of one reference", wstr(p))
            else:
                ck.unk("store", f"{b}/{e}", f"{p.outcome} {brief(p.value)}")
    ps = program(ck, mod, cls, "a = proxy.put(A)\nb = proxy.put(A)\nreturn a._ref, b._ref, type(a)", ["A"])
    for p in ps:
        x = els(p.value) if p.outcome == "ret" else None
        if x and x[0][0] == "sym" and x[1][0] == "sym":
            (ck.ok if x[0] != x[1] else lambda r, s, w="": ck.bad(r, s, "two stored objects get the same reference", w))("store", f"{b}/distinct", wstr(p))
        else:
            ck.unk("store", f"{b}/distinct", brief(p.value) if p.value else "")


def pymp_wait(ck, b, mod, cls):
    """Values of running tasks: every element returned is a read of the shared dictionary that
    was not a placeholder when it was read."""
    ids = [("sym", f"!I{i}") for i in range(2)]
    src = f"""
from unidist.core.base.backend import BackendProxy
from unidist.core.base.object_ref import ObjectRef
from {mod} import {cls}
def main(I0, I1):
    proxy = BackendProxy({cls}())
    return proxy.get([ObjectRef(I0), ObjectRef(I1)])
"""
    it, ps = drive(ck, src, stops=("*mpi*", "*ProcessManager*"), pure=(), args={"I0": ids[0], "I1": ids[1]}, types={i: ("cls", DATAID) for i in ids},
                   unroll=4, volatile=lambda t: t[0] == "attr" and t[2] == "store_delayed", max_paths=40000, raise_forks=False, results={k: v for k, v in engine().items() if k.endswith(".loads")})
    n = 0
    for p in ps:
        if p.outcome != "ret":
            continue
        v = els(p.value)
        if v is None or len(v) != 2:
            ck.unk("wait", b, brief(p.value))
            continue
        facts = p.facts()
        reads = [e for e, _ in walk(p.events) if e.kind == "read"]
        for i, x in zip(ids, v):
            rd = [e for e in reads if contains((x,), e.res)]
            if not rd:
                ck.unk("wait", b, f"{brief(x)} is not a value read from the store")
                continue
            n += 1
            e = rd[-1]
            if e.args[0][1] != i:
                ck.bad("retrieve", b + "/running", f"the value of {brief(e.args[0][1])} is returned for {brief(i)}", e.where)
                continue
            # completion is final: an earlier read of the same entry that was not a placeholder will do
            prev = [r for r in reads if r.args[0][1] == i and reads.index(r) <= reads.index(e)]
            if any((app("isinst", r.res, frozenset([DELAYED])), False) in facts for r in prev):
                ck.ok("wait", b, e.where)
            else:
                ck.bad("wait", b, f"{brief(i)} is returned on a path that has not established that its task is finished", e.where)
    if not n:
        raise Undecided("no retrieval understood")
