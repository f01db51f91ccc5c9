"""Identifiers: the code that creates, compares, hashes, encodes and rebuilds them is
interpreted over symbolic ranks and numbers; the text of an identifier is a template whose
injectivity is decided from its shape."""
import itertools

from ..front import *
from ..interp import FALSE, NONE, TRUE, app, const, cval, is_const
from ..scen import tup
from ..world import MPIDATAID, STATE, ident, program, value

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (object protocol over symbolic ranks and numbers; injectivity of string templates)"
STORE = "unidist.core.backends.mpi.core.local_object_store:LocalObjectStore"
DATAID = "unidist.core.backends.common.data_id:DataID"
G = ident("G")


def check(ck):
    ck.rule("numbered", "Identifiers created one after the other in a process carry pairwise different numbers and the rank of that process, also after data has been deleted.")
    ck.rule("injective", "Different (rank, number) pairs give different identifiers; the same pair gives equal ones.")
    ck.rule("travel", "An identifier that is encoded and rebuilt, in the same or another process, equals the original, has the same hash, owner and number; rebuilt in the same process it is the same object and keeps its collector; rebuilt elsewhere it has none.")
    ck.rule("unique", "Identifiers without a given value get a new random value each; a given value, falsy ones included, is kept.")
    ck.rule("wrap", "A reference holds the identifier it was created with, and unwrapping gives it back in the same place.")
    ck.guard("numbered", "LocalObjectStore", lambda: numbered(ck))
    ck.guard("injective", "MpiDataID", lambda: injective(ck))
    for n in ("same", "other"):
        ck.guard("travel", n, lambda: travel(ck, n))
    ck.guard("travel", "tuple", lambda: by_tuple(ck))
    ck.guard("unique", "DataID", lambda: unique(ck))
    ck.guard("wrap", "ObjectRef", lambda: wrap(ck))


def els(t):
    return [s[1] for s in t[1]] if t and t[0] in ("tuple", "list") and all(s[0] == "el" for s in t[1]) else None


def fields(t):
    return dict(t[2]) if t and t[0] == "obj" else None


def where(ck, key, name=None):
    ci = ck.prog.classes.get(key)
    if ci is None:
        raise Undecided(f"{key} not found")
    n = ci.methods[name].node if name in ci.methods else ci.node
    return f"{ci.module.path}:{n.lineno}" if hasattr(ci.module, "path") else key


def single(ck, rule, site, ps, w):
    """The value of the only path, or None."""
    if not ps:
        raise Undecided("no path")
    out = []
    for p in ps:
        if p.outcome == "raise":
            ck.bad(rule, site, f"raises {brief(p.value)}", w)
        elif p.outcome != "ret":
            ck.unk(rule, site, p.outcome)
        else:
            out.append(p)
    return out


def at_rank(rank):
    def setup(it, st, bound):
        st.overlay[(("single", STATE), "global_rank")] = rank
    return setup


def numbered(ck):
    w = where(ck, STORE, "generate_data_id")
    for rank in (const(0), const(3)):
        src = """
from unidist.core.backends.mpi.core.local_object_store import LocalObjectStore
def main(G):
    s = LocalObjectStore.get_instance()
    a = s.generate_data_id(G)
    b = s.generate_data_id(G)
    c = s.generate_output_data_id(2, G, 1)
    d = s.generate_output_data_id(2, G, 3)
    n = s.generate_output_data_id(2, G, 0)
    s.clear([a, b])
    h = s.generate_data_id(G)
    s.put(a, 1)
    s.clear([a, b])
    e = LocalObjectStore.get_instance().generate_data_id(G)
    f = s.generate_output_data_id(3, G, 2)
    g = s.generate_data_id(G)
    return (a, b, c, d[0], d[1], d[2], e, f[0], f[1], g, h)
"""
        for p in single(ck, "numbered", "sequence", program(ck, src, args={"G": G}, live=(STORE,), setup=at_rank(rank), stops=("*maybe_update_data_id_map",)), w):
            x = els(p.value)
            fs = [fields(i) for i in x] if x else None
            if not fs or any(f is None for f in fs):
                ck.unk("numbered", "sequence", brief(p.value))
                continue
            for f in fs:
                if value(f.get("owner_rank", NONE)) != cval(rank) and precise(f.get("owner_rank", NONE)):
                    ck.bad("numbered", "sequence", f"an identifier created by rank {brief(rank)} is given owner {brief(f.get('owner_rank', NONE))}", w)
                else:
                    ck.ok("numbered", "sequence", w)
                if f.get("_gc") != G:
                    ck.bad("numbered", "sequence", "an identifier is created without the collector that tracks its deletion", w)
            ids = [f.get("_id") for f in fs]
            for i, j in itertools.combinations(range(len(ids)), 2):
                if ids[i] == ids[j]:
                    ck.bad("numbered", "sequence", f"two objects get the same identifier {brief(ids[i])}", w)
                elif is_const(ids[i]) and is_const(ids[j]):
                    ck.ok("numbered", "sequence", w)
                else:
                    ck.unk("numbered", "sequence", f"{brief(ids[i])} / {brief(ids[j])}")


MK = """
from unidist.core.backends.mpi.core.common import MpiDataID
def main(R, N, G):
    a = MpiDataID(R, N, G)
    return a._id, a
"""


def injective(ck):
    w = where(ck, MPIDATAID, "__init__")
    R, N = ("sym", "R"), ("sym", "N")
    for p in single(ck, "injective", "template", program(ck, MK, args={"R": R, "N": N, "G": G}, types={R: ("b", "int"), N: ("b", "int")}), w):
        t = els(p.value)[0]
        if not precise(t):
            ck.unk("injective", "template", brief(t))
            continue
        if not contains((t,), R) or not contains((t,), N):
            ck.bad("injective", "template", f"the identifier {brief(t)} does not depend on " + ("the rank" if not contains((t,), R) else "the number"), w)
            continue
        pairs = [(r, n) for r in (0, 1, 2, 11, 12, 121) for n in (0, 1, 2, 3, 11, 12, 23, 121, 1211)]
        vals = {}
        und = False
        for r, n in pairs:
            v = subst(t, {R: r, N: n})
            if v is None:
                und = True
                break
            vals.setdefault(v, []).append((r, n))
        if und:
            ck.unk("injective", "template", brief(t))
            continue
        clash = next((v for v in vals.values() if len(v) > 1), None)
        if clash:
            ck.bad("injective", "template", f"(rank, number) {clash[0]} and {clash[1]} give the same identifier ({brief(t)})", w)
        elif separated(t, (R, N)):
            ck.ok("injective", "template", w)
        else:
            ck.unk("injective", "template", f"shape of {brief(t)}")
    src = """
from unidist.core.backends.mpi.core.common import MpiDataID
def main(G):
    a, b, c, d = MpiDataID(1, 2, G), MpiDataID(1, 3, G), MpiDataID(2, 2, G), MpiDataID(1, 2, G)
    return a == b, a == c, b == c, a == d, a is d, a is b, hash(a) == hash(d), a == 5, a != b, a != d, a.owner_rank, a.data_number, c.owner_rank, b.data_number
"""
    want = [FALSE, FALSE, FALSE, TRUE, TRUE, FALSE, TRUE, FALSE, TRUE, FALSE, const(1), const(2), const(2), const(3)]
    what = ["== of different numbers", "== of different ranks", "== of different ranks and numbers", "== of the same pair", "identity of the same pair", "identity of different pairs", "hash of the same pair", "== with something else", "!= of different", "!= of the same", "owner", "number", "owner", "number"]
    judge(ck, "injective", "equality", single(ck, "injective", "equality", program(ck, src, args={"G": G}), w), want, what, w)

    pairs = [((1, 11), (11, 1)), ((1, 23), (12, 3)), ((0, 1), (1, 0)), ((2, 3), (3, 2)), ((1, 5), (5, 1)), ((0, 12), (1, 2))]
    pairs += [((1, 0), (0, k)) for k in [10 ** i for i in range(1, 13)] + [2 ** i for i in (4, 8, 10, 12, 16, 20, 24, 31, 32, 40, 48, 63)]]
    for i, (a, b) in enumerate(pairs):
        src = f"""
from unidist.core.backends.mpi.core.common import MpiDataID
def main(G):
    a, b = MpiDataID({a[0]}, {a[1]}, G), MpiDataID({b[0]}, {b[1]}, G)
    return a is b, a == b, a.owner_rank, a.data_number, b.owner_rank, b.data_number
"""
        want = [FALSE, FALSE, const(a[0]), const(a[1]), const(b[0]), const(b[1])]
        what = [f"identity of {a} and {b}", f"== of {a} and {b}", f"owner of {a} next to {b}", f"number of {a} next to {b}", f"owner of {b}", f"number of {b}"]
        site = f"pair/{a[0]}-{a[1]}/{b[0]}-{b[1]}"
        judge(ck, "injective", site, single(ck, "injective", site, program(ck, src, args={"G": G}), w), want, what, w)


def judge(ck, rule, site, ps, want, what, w):
    for p in ps:
        x = els(p.value)
        if x is None or len(x) != len(want):
            ck.unk(rule, site, brief(p.value))
            continue
        for got, exp, n in zip(x, want, what):
            if got == exp:
                ck.ok(rule, f"{site}/{n}".replace(" ", "-"), w)
            elif is_const(got) or precise(got) and got[0] in ("obj", "tuple", "list", "sym", "dict"):
                ck.bad(rule, f"{site}/{n}".replace(" ", "-"), f"{n} is {brief(got)} instead of {brief(exp)}", w)
            else:
                ck.unk(rule, f"{site}/{n}".replace(" ", "-"), brief(got))


def subst(t, m):
    """Python value of a term for given integers, or None."""
    if t in m:
        return m[t]
    if is_const(t):
        return cval(t)
    if t[0] == "nc":
        return subst(t[2], m)
    if t[0] == "app" and t[1] == "fstr":
        a = t[2]
        xs = [subst(x, m) for x in a]
        if any(x is None for x in xs):
            return None
        if len(a) > 1 and is_const(a[0]) and isinstance(cval(a[0]), str) and "{" in cval(a[0]):
            try:
                return cval(a[0]).format(*xs[1:])
            except (IndexError, KeyError, ValueError):
                return None
        return "".join(str(x) for x in xs)
    if t[0] == "app" and t[1] in ("str", "repr") and len(t[2]) == 1:
        x = subst(t[2][0], m)
        return None if x is None else (str if t[1] == "str" else repr)(x)
    if t[0] == "app" and t[1] == "sum":
        tot = t[2][1] if not isinstance(t[2][1], tuple) else subst(t[2][1], m)
        for x, c in t[2][0]:
            v = subst(x, m)
            if v is None or isinstance(v, str) or not isinstance(c, int):
                return None
            tot = tot + c * v
        return tot
    if t[0] in ("tuple", "list"):
        xs = [subst(s[1], m) if s[0] == "el" else None for s in t[1]]
        return None if any(x is None for x in xs) else tuple(xs)
    return None


def separated(t, syms):
    """Integers in a text are separated by something that is neither a digit nor a sign."""
    if t[0] == "tuple":
        return True
    if t[0] != "app" or t[1] != "fstr":
        return False
    a = list(t[2])
    if is_const(a[0]) and isinstance(cval(a[0]), str) and "{" in cval(a[0]) and len(a) > 1:
        parts = []
        s = cval(a[0])
        k = 1
        while "{}" in s:
            pre, s = s.split("{}", 1)
            parts += [const(pre), a[k]]
            k += 1
        a = parts + [const(s)]
    prev = False
    for x in a:
        if x in syms or x[0] == "app" and x[1] in ("str", "repr") and x[2][0] in syms:
            if prev:
                return False
            prev = True
        elif is_const(x) and isinstance(cval(x), str):
            if any(not (c.isdigit() or c == "-") for c in cval(x)):
                prev = False
        else:
            return False
    return True


def travel(ck, where_):
    ci = ck.prog.classes[MPIDATAID]
    meths = {n for c in ck.prog.mro(ci) for n in c.methods}
    w = where(ck, MPIDATAID, "__getnewargs__")
    if meths & {"__reduce__", "__reduce_ex__"}:
        rebuild = "    fn, args = (a.__reduce__() if hasattr(a, '__reduce__') else a.__reduce_ex__(5))[:2]\n"
        build = "    b = fn(*args)\n"
    else:
        na = "a.__getnewargs__()" if "__getnewargs__" in meths else "()"
        gs = "a.__getstate__()" if "__getstate__" in meths else "a.__dict__.copy()"
        rebuild = f"    args = {na}\n    state = {gs}\n"
        if "__getnewargs_ex__" in meths:
            raise Undecided("__getnewargs_ex__")
        build = "    b = MpiDataID.__new__(MpiDataID, *args)\n"
        build += "    b.__setstate__(state)\n" if "__setstate__" in meths else "    for k, v in state.items():\n        setattr(b, k, v)\n"
    forget = "    MpiDataID._instances.clear()\n" if where_ == "other" else ""
    src = f"""
from unidist.core.backends.mpi.core.common import MpiDataID
def main(G):
    a = MpiDataID(1, 2, G)
{rebuild}{forget}{build}    c = MpiDataID(1, 3, G)
    return a == b, b == a, hash(a) == hash(b), b is a, b.owner_rank, b.data_number, b == c, getattr(b, "_gc", None), a._gc
"""
    same = where_ == "same"
    want = [TRUE, TRUE, TRUE, TRUE if same else FALSE, const(1), const(2), FALSE, G if same else NONE, G]
    what = ["== of the original and the rebuilt one", "== of the rebuilt one and the original", "equality of the hashes", "identity of the rebuilt one and the original", "owner of the rebuilt one", "number of the rebuilt one", "== of the rebuilt one and another", "collector of the rebuilt one", "collector of the original"]
    judge(ck, "travel", where_, single(ck, "travel", where_, program(ck, src, args={"G": G}), w), want, what, w)


def by_tuple(ck):
    """The deletion request carries (owner, number) tuples, from which the receiver rebuilds the identifier."""
    w = where(ck, MPIDATAID, "__del__")
    src = """
from unidist.core.backends.mpi.core.common import MpiDataID
def main(G):
    got = []
    class Collector:
        def collect(self, x):
            got.append(x)
    a = MpiDataID(1, 2, Collector())
    b = MpiDataID(1, 3, Collector())
    k = MpiDataID(4, 5)
    a.__del__()
    k.__del__()
    n = len(got)
    t = got[0]
    MpiDataID._instances.clear()
    c = MpiDataID(*t)
    return n, c == a, hash(c) == hash(a), c == b, c.owner_rank, c.data_number, c._gc
"""
    want = [const(1), TRUE, TRUE, FALSE, const(1), const(2), NONE]
    what = ["number of deletions reported", "== of the original and the one rebuilt from the report", "equality of the hashes", "== with another", "owner", "number", "collector"]
    judge(ck, "travel", "tuple", single(ck, "travel", "tuple", program(ck, src, args={"G": G}), w), want, what, w)


def unique(ck):
    w = where(ck, DATAID, "__init__")
    src = """
from unidist.core.backends.common.data_id import DataID, is_data_id
def main(X):
    a, b = DataID(), DataID()
    c, d, e = DataID(X), DataID(0), DataID("")
    f = DataID(X)
    return a._id, b._id, c._id, d._id, e._id, c == f, hash(c) == hash(f), c == d, d == 5, c == X, is_data_id(a), is_data_id(X), is_data_id(5)
"""
    X = ident("X")
    for p in single(ck, "unique", "values", program(ck, src, args={"X": X}, types={X: ("b", "int")}), w):
        x = els(p.value)
        if x is None:
            ck.unk("unique", "values", brief(p.value))
            continue
        rnd = [s for s in subterms(x[0]) if s and s[0] == "res"]
        if x[0] == x[1]:
            ck.bad("unique", "values", f"two identifiers get the same value {brief(x[0])}", w)
        elif rnd and any(n in s[2] for s in rnd for n in ("uuid1", "uuid4", "token_hex", "urandom", "token_bytes", "getrandbits")):
            ck.ok("unique", "values", w)
        else:
            ck.unk("unique", "values", f"source of {brief(x[0])}")
        judge(ck, "unique", "given", [p], [x[0], x[1], X, const(0), const(""), TRUE, TRUE, FALSE, FALSE, FALSE, TRUE, FALSE, FALSE],
              ["", "", "value given", "value 0", "empty value", "== of the same value", "equality of the hashes", "== of different values", "== with a number", "== with the value itself", "is_data_id", "is_data_id of another object", "is_data_id of a number"], w)


def wrap(ck):
    w = where(ck, OBJREF, "__init__")
    src = """
from unidist.core.base.object_ref import ObjectRef
from unidist.core.backends.common.utils import unwrap_object_refs
def main(X, Y, Z):
    r, s = ObjectRef(X), ObjectRef(Y)
    return r._ref, s._ref, unwrap_object_refs(r), unwrap_object_refs([r, s, r]), unwrap_object_refs((s, [r, Z], {"k": r})), unwrap_object_refs(Z), unwrap_object_refs({"a": s, "b": [r]})
"""
    X, Y, Z = ident("X"), ident("Y"), ident("Z")

    def l(*x):
        return ("list", tuple(("el", i) for i in x))

    def d(*x):
        return ("dict", tuple(("kv", const(a), b) for a, b in x))
    want = [X, Y, X, l(X, Y, X), tup(Y, l(X, Z), d(("k", X))), Z, d(("a", Y), ("b", l(X)))]
    what = ["first reference", "second reference", "unwrapped reference", "unwrapped list", "unwrapped nested containers", "another value", "unwrapped dictionary"]
    judge(ck, "wrap", "ObjectRef", single(ck, "wrap", "ObjectRef", program(ck, src, args={"X": X, "Y": Y, "Z": Z}, types={i: ("b", "int") for i in (X, Y, Z)}, recursion=6), w), want, what, w)
