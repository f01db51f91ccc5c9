"""Encoding and decoding with the MPI serialization: both are interpreted over models of msgpack,
pickle and cloudpickle, given as small programs, for sequences and nestings of objects of every
kind, with any number of large and small buffers; the decoded structure is compared with the
original one."""
import itertools

from ..front import *
from ..interp import FALSE, NONE, TRUE, app, const, cval, is_const, show
from ..world import MPI, ident, program

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source over models of the pickling libraries"
NOTE = "All sequences of up to three objects of ten kinds and nestings of them; the libraries themselves (msgpack, pickle, cloudpickle) are trusted to be as modelled."
SER = MPI + "serialization"
D = "unidist.__driver__"
SRC = '''
import collections.abc
import pandas, numpy, stubs
import unidist.core.backends.mpi.core.serialization as S


class Frame(pandas.DataFrame):
    def __init__(self, name, bufs):
        self.name = name
        self.bufs = bufs


class Array(numpy.ndarray):
    def __init__(self, name, bufs):
        self.name = name
        self.bufs = bufs


class Column(pandas.Series):
    def __init__(self, name, bufs):
        self.name = name
        self.bufs = bufs


class Broken(pandas.DataFrame):
    def __init__(self, name, bufs):
        self.name = name
        self.bufs = bufs


class Unreadable(pandas.DataFrame):
    def __init__(self, name, bufs):
        self.name = name
        self.bufs = bufs


class Plain:
    def __init__(self, name):
        self.name = name

    def method(self):
        return self.name


class Keys(collections.abc.KeysView):
    def __init__(self, name):
        self.name = name


class Opaque:
    def __init__(self, name):
        self.name = name


class Blob:
    def __init__(self, obj, plan):
        self.obj = obj
        self.plan = plan


def func(x):
    return x


def dumps(obj, protocol=None, *, fix_imports=True, buffer_callback=None):
    if stubs.only_cloudpickle(obj):
        raise TypeError("not picklable")
    plan = []
    if isinstance(obj, (Frame, Array, Column, Broken, Unreadable)):
        for b in obj.bufs:
            if buffer_callback is None:
                plan.append(b)
            elif buffer_callback(b):
                plan.append(b)
            else:
                plan.append(None)
    if isinstance(obj, Broken):
        raise ValueError("broken")
    return Blob(obj, plan)


def cdumps(obj, protocol=None, buffer_callback=None):
    plan = []
    if isinstance(obj, (Frame, Array, Column, Broken, Unreadable)):
        for b in obj.bufs:
            if buffer_callback is None:
                plan.append(b)
            elif buffer_callback(b):
                plan.append(b)
            else:
                plan.append(None)
    if isinstance(obj, Broken):
        raise ValueError("broken")
    return Blob(obj, plan)


def loads(blob, *, fix_imports=True, encoding="ASCII", errors="strict", buffers=None):
    if not isinstance(blob, Blob):
        raise TypeError("not pickled data")
    o = blob.obj
    if isinstance(o, (Frame, Array, Column, Unreadable)):
        given = list(buffers) if buffers is not None else []
        got = []
        for b in blob.plan:
            if b is None:
                if len(given) == 0:
                    raise ValueError("not enough out-of-band buffers")
                got.append(given.pop(0))
            else:
                got.append(b)
        if isinstance(o, Unreadable):
            raise ValueError("unreadable")
        if isinstance(o, Frame):
            return Frame(o.name, got)
        if isinstance(o, Array):
            return Array(o.name, got)
        return Column(o.name, got)
    return o


def native(o):
    return o is None or isinstance(o, (bool, int, float, str, bytes)) or isinstance(o, Blob)


def packb(o, default=None, use_bin_type=True, strict_types=False, **kw):
    if native(o):
        return o
    if isinstance(o, list):
        return [packb(x, default, use_bin_type, strict_types) for x in o]
    if isinstance(o, dict):
        return {packb(k, default, use_bin_type, strict_types): packb(v, default, use_bin_type, strict_types) for k, v in o.items()}
    if isinstance(o, tuple) and not strict_types:
        return [packb(x, default, use_bin_type, strict_types) for x in o]
    if default is None:
        raise TypeError("cannot serialize")
    return packb(default(o), default, use_bin_type, strict_types)


def unpackb(o, object_hook=None, strict_map_key=True, raw=False, use_list=True, **kw):
    if isinstance(o, list):
        xs = [unpackb(x, object_hook, strict_map_key, raw, use_list) for x in o]
        return xs if use_list else tuple(xs)
    if isinstance(o, dict):
        d = {}
        for k, v in o.items():
            kk = unpackb(k, object_hook, strict_map_key, raw, use_list)
            if strict_map_key and not isinstance(kk, (str, bytes)):
                raise ValueError("key of a map")
            d[kk] = unpackb(v, object_hook, strict_map_key, raw, use_list)
        return d if object_hook is None else object_hook(d)
    return o


def main(SEE):
'''
BODY = '''    data = {data}
    SEE("given", data)
    s = S.serialize_complex_data(data)
    SEE("first", S.deserialize_complex_data(**s))
    SEE("again", S.deserialize_complex_data(**s))
'''
TWO = '''    bad = {bad}
    data = {data}
    SEE("given", data)
    try:
        S.deserialize_complex_data(**S.serialize_complex_data(bad))
    except Exception:
        pass
    SEE("failed", None)
    s = S.serialize_complex_data(data)
    SEE("first", S.deserialize_complex_data(**s))
    SEE("again", S.deserialize_complex_data(**s))
'''
BIG, SMALL, EDGE = "L", "s", "e"
LEAVES = {
    "F": "Frame({n!r}, [])", "F.L": "Frame({n!r}, ['{n}aaaaaa'])", "F.s": "Frame({n!r}, ['{n}'])", "F.LL": "Frame({n!r}, ['{n}aaaaaa', '{n}bbbbbb'])",
    "F.sL": "Frame({n!r}, ['{n}', '{n}cccccc'])", "f": "func", "t": "({n!r}, 2)", "i": "{n!r}", "p": "Plain({n!r})",
}
MORE = {
    "A.Ls": "Array({n!r}, ['{n}aaaaaa', '{n}'])", "C.LsL": "Column({n!r}, ['{n}aaaaaa', '{n}', '{n}dddddd'])", "F.e": "Frame({n!r}, ['{n}aaa'])", "c": "Plain", "set": "{{{n!r}, 2}}",
    "m": "Plain({n!r}).method", "k": "Keys({n!r})", "z": "1+2j", "none": "None", "true": "True", "float": "1.5", "bytes": "b'x'", "empty": "[]", "nodict": "{{}}", "o": "Opaque({n!r})",
    "map": "{{{n!r}: 1, 'b': [2]}}", "intmap": "{{1: {n!r}, 2: 'x'}}", "F.LLL": "Frame({n!r}, ['{n}aaaaaa', '{n}bbbbbb', '{n}cccccc'])",
}
SHAPES = ["[{0}, [{1}, {2}]]", "[[{0}], {1}, {2}]", "{{'a': {0}, 'b': {1}, 'c': {2}}}", "[{{'a': {0}}}, {1}, {{'b': {{'c': {2}}}}}]", "{{'a': [{0}, {1}], 'b': {2}}}", "[{0}, None, 5, {1}, 'x', {2}]"]
RESERVED = ["__cloud_custom__", "__pickle_custom__", "__pickle5_custom__"]


def leaf(kind, n):
    return (LEAVES.get(kind) or MORE[kind]).format(n=n)


def check(ck):
    ck.rule("same", "What is decoded has the same structure and content as what was encoded, every time it is decoded: every object in its place, every buffer attached to the object it was taken from.")
    ck.rule("next", "After a failure while encoding or decoding an object, the next object is encoded and decoded as ever, and the garbage collector is enabled.")
    ck.rule("simple", "Each of the simple encodings is inverted by the decoding of the same name.")
    ck.rule("reserved", "A dictionary of the user is not mistaken for an encoded object, whatever its keys are.")
    jobs = []
    names = "abcdef"

    def add(site, data):
        jobs.append(("same", site, lambda c: same(c, site, data)))
    for k in list(LEAVES) + list(MORE):
        add(k, leaf(k, "a"))
        add(f"[{k}]", f"[{leaf(k, 'a')}]")
    for n in (2, 3):
        for ks in itertools.product(LEAVES, repeat=n):
            add(",".join(ks), "[" + ", ".join(leaf(k, names[i]) for i, k in enumerate(ks)) + "]")
    for i, sh in enumerate(SHAPES):
        for ks in itertools.product(("F", "F.L", "F.LL", "F.sL", "f", "t"), repeat=3):
            add(f"shape{i}/" + ",".join(ks), sh.format(*[leaf(k, names[j]) for j, k in enumerate(ks)]))
    for ks in itertools.product(MORE, ("F.L", "F.sL", "t", "C.LsL")):
        add("more/" + ",".join(ks), f"[{leaf(ks[0], 'a')}, {leaf(ks[1], 'b')}, {leaf(ks[0], 'c')}, {leaf('F.L', 'd')}]")
    for bad in ("Broken('x', [])", "Broken('x', ['xaaaaaa'])", "[Frame('y', ['yaaaaaa']), Broken('x', ['xaaaaaa', 'xbbbbbb'])]", "Unreadable('x', ['xaaaaaa'])", "[Frame('y', ['yaaaaaa']), Unreadable('x', ['xaaaaaa']), Frame('z', ['zaaaaaa'])]", "{'k': Broken('x', ['x'])}"):
        for ks in [(k,) for k in LEAVES] + [("F.L", "F.sL"), ("F.LL", "F.L"), ("t", "F.L")]:
            site = f"after {bad}/" + ",".join(ks)
            jobs.append(("next", site, lambda c, site=site, bad=bad, ks=ks: same(c, site, "[" + ", ".join(leaf(k, names[i]) for i, k in enumerate(ks)) + "]", bad)))
    nine = "Frame('a', [" + ", ".join(f"'a{i}xxxxx'" for i in range(9)) + "])"
    add("nine buffers", nine)
    add("nine buffers and more", f"[{nine}, {leaf('F.LL', 'b')}, {leaf('F.sL', 'c')}]")
    add("nine objects", "[" + ", ".join(leaf(k, n) for k, n in zip(("F.L", "F.LL", "t", "F", "F.sL", "F.L", "f", "F.LL", "F.L"), "abcdefghi")) + "]")
    for k in ("as_bytes", "s_data", "raw_buffers", "buffer_count", "id"):
        add("dictionary/" + k, "{%r: 1}" % k)
        add("dictionaries/" + k, "[{%r: b'x'}, Frame('b', ['baaaaaa'])]" % k)
    for k in RESERVED:
        jobs.append(("reserved", k, lambda c, k=k: same(c, k, "{%r: 1, 'other': 2}" % k, rule="reserved")))
    jobs.append(("simple", "simple", simple))
    ck.pguard(jobs)


def see(it, st, ev):
    ev.data = it.snap(st, ev.args[1][1])
    return [((), NONE)]


def only_cloudpickle(it, st, ev):
    v = ev.args[0][1]
    t = it.type_of(st, v)
    return [((), const(v[0] in ("fn", "cls", "bm", "clo") or t in (("cls", D + ":Plain"), ("cls", D + ":Keys"))))]


def first(it, st, ev):
    return [((), ev.args[0][1] if ev.args else NONE)]


def run(ck, body):
    ov = {}
    for m, names in (("msgpack", {"packb": "packb", "unpackb": "unpackb", "dumps": "packb", "loads": "unpackb"}), ("pickle", {"dumps": "dumps", "loads": "loads"}), ("pickle5", {"dumps": "dumps", "loads": "loads"}),
                     ("cloudpickle", {"dumps": "cdumps", "loads": "loads"})):
        for n, f in names.items():
            ov[(("ext", m), n)] = ("fn", f"{D}:{f}")
    for m in ("pandas", "numpy"):
        ov[(("ext", m), "__name__")] = const(m)

    def setup(it, st, b):
        st.overlay[(("cls", SER + ":ComplexDataSerializer"), "PICKLE_THRESHOLD")] = const(4)
        st.overlay[(("mod", SER), "available_modules")] = st.alloc(("list", (("el", ("ext", "pandas")), ("el", ("ext", "numpy")))))
    src = SRC + body
    return program(ck, src, args={"SEE": ident("SEE")}, overlay=ov, setup=setup, recursion=9,
                   results={"sym:!SEE": see, "ext:stubs.only_cloudpickle": only_cloudpickle, "ext:mpi4py.MPI.memory": first, "ext:gc.disable": NONE, "ext:gc.enable": NONE, "cfg:unidist.config.backends.mpi.envvars:MpiPickleThreshold": const(4)})


def where(ck):
    f = ck.prog.funcs.get(SER + ":deserialize_complex_data")
    return f"{f.module.rel}:{f.node.lineno}" if f else ""


def same(ck, site, data, bad=None, rule=None):
    rule = rule or ("next" if bad else "same")
    body = TWO.format(bad=bad, data=data) if bad else BODY.format(data=data)
    what = (f"after the failure for {bad}, " if bad else "") + data
    for p in run(ck, body):
        if any(e.kind == "assume" for e, _ in walk(p.events)):
            ck.unk(rule, site, "a condition is not decided: " + "; ".join(show(e.data)[:90] for e, _ in walk(p.events) if e.kind == "assume")[:300])
            continue
        evs = [e for e, _ in walk(p.events) if e.kind == "call"]
        seen = {cval(e.args[0][1]): e for e in evs if e.name == "sym:!SEE"}
        if p.outcome == "raise":
            return ck.bad(rule, site, f"{what}: fails with {brief(p.value, 100)} when it is {'decoded' if 'first' not in seen else 'decoded again'}", where(ck)) if known_error(p.value) else ck.unk(rule, site, f"raises {brief(p.value, 100)}")
        if p.outcome != "ret" or len(seen) < 3:
            ck.unk(rule, site, f"not followed: {p.outcome}")
            continue
        g = seen["given"].data
        for n in ("first", "again"):
            v = seen[n].data
            if v == g:
                ck.ok(rule, site)
            elif plainly(v):
                return ck.bad(rule, site, f"{what}: decoded {'' if n == 'first' else 'a second time '}as {brief(v, 200)}", where(ck))
            else:
                ck.unk(rule, site, f"decoded as {brief(v, 200)}")
        on = True
        for e in evs:
            if e.name in ("ext:gc.disable", "ext:gc.enable"):
                on = e.name == "ext:gc.enable"
            if e.name == "sym:!SEE" and not on:
                break
        if not on:
            return ck.bad("next", site, f"{what}: the garbage collector stays disabled", where(ck))
        if bad:
            ck.ok("next", site)


def known_error(v):
    """An exception the code or the models raise, not a consequence of something unknown."""
    return v is not None and (plainly(v) or show(v).startswith("<builtins.") and "Error#" in show(v))


def plainly(v):
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] in ("res", "deep", "attr", "item"):
        return False
    if v[0] == "app" and v[1] in ("phi", "for"):
        return False
    return all(plainly(x) for x in v[1:] if isinstance(x, tuple))


def simple(ck):
    ci = next((c for k, c in ck.prog.classes.items() if k.startswith(SER) and any(n.startswith("serialize_") for n in c.methods)), None)
    if ci is None:
        return ck.unk("simple", "simple", "no class with simple encodings")
    for n in sorted(ci.methods):
        if not n.startswith("serialize_"):
            continue
        inv = "de" + n
        if inv not in ci.methods:
            ck.unk("simple", n, "no decoding of the same name")
            continue
        for kind in ["t", "i", "o", "F.L", "F.sL", "set", "map"] + (["f", "p", "c", "m"] if "cloud" in n else []):
            d = leaf(kind, "a")
            site = f"{n}/{kind}"
            for p in run(ck, f"    x = S.{ci.name}()\n    data = {d}\n    SEE('given', data)\n    SEE('first', x.{inv}(x.{n}(data)))\n"):
                seen = {cval(e.args[0][1]): e for e, _ in walk(p.events) if e.kind == "call" and e.name == "sym:!SEE"}
                if any(e.kind == "assume" for e, _ in walk(p.events)):
                    ck.unk("simple", site, "a condition is not decided")
                elif p.outcome == "raise" and known_error(p.value):
                    ck.bad("simple", site, f"{d} fails with {brief(p.value, 100)}", where(ck))
                elif "first" not in seen or not plainly(seen["first"].data):
                    ck.unk("simple", site, f"not followed: {p.outcome}")
                elif seen["first"].data != seen["given"].data:
                    ck.bad("simple", site, f"{d} is decoded as {brief(seen['first'].data, 150)}", where(ck))
                else:
                    ck.ok("simple", site)
