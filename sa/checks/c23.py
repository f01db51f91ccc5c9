"""One instance per process of every store, scheduler and tracker; independent instances share nothing."""
import ast

from ..front import *
from ..interp import FALSE, NONE, TRUE, app, const, cval, is_const
from ..world import STATE, ident, program
from .c21 import els, fields, single

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (object identity over the abstract heap), plus a who-may-construct query over the resolved call graph"
FILLED = ("MPIState", "ProcessManager", "BackendProxy")
MUTS = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "popleft", "appendleft", "remove", "discard", "clear", "sort", "reverse", "__setitem__", "__delitem__"}


def check(ck):
    ck.rule("one", "Asking a class for its instance twice gives the same object, which keeps what was put into it, and asking again with other arguments does not replace it.")
    ck.rule("empty", "The instance starts with empty containers and counters at zero.")
    ck.rule("no-other", "Objects of these classes are constructed only on behalf of the function that hands out the instance, and the instance is not replaced anywhere else.")
    ck.rule("separate", "Two objects created independently do not share a mutable container, and no function keeps a mutable default argument between calls.")
    S = singles(ck)
    for ci in S:
        ck.guard("one", ci.name, lambda: one(ck, ci))
    ck.guard("no-other", "constructions", lambda: no_other(ck, S))
    ck.guard("separate", "classes", lambda: separate(ck, S))
    for ci in fresh_classes(ck, S):
        ck.guard("separate", ci.name, lambda: twice(ck, ci))


def prod(ck):
    for m in ck.prog.modules.values():
        if m.name.startswith("unidist.") and ".test" not in m.name and not m.name.endswith("_version"):
            yield m


def singles(ck):
    return [ci for ci in ck.prog.classes.values() if "get_instance" in ci.methods and ".test" not in ci.module.name]


def resolve(prog, m, e):
    """('class', info), ('func', info) or None."""
    r = prog.resolve_expr(m, e)
    return r if r and r[0] in ("class", "func") else None


def loc(ci, node):
    return f"{ci.module.path}:{node.lineno}"


def init_args(ci, prog):
    fi = prog.find_method(ci, "__init__")
    if fi is None:
        return []
    a = fi.node.args
    n = len(a.posonlyargs + a.args) - 1 - len(a.defaults)
    return [f"I{i}" for i in range(n)]


def one(ck, ci):
    w = loc(ci, ci.methods["get_instance"].node)
    g = ci.methods["get_instance"].node.args
    names = [x.arg for x in g.args[1:]]
    args = init_args(ci, ck.prog) if g.vararg else [f"I{i}" for i in range(len(names))]
    first = ", ".join(args)
    second = ", ".join("J" + a[1:] for a in args)
    syms = {a: ident(a) for a in args}
    syms.update({"J" + a[1:]: ident("J" + a[1:]) for a in args})
    src = f"""
from {ci.module.name} import {ci.name}
def main({", ".join(list(syms) + ["M"])}):
    a = {ci.name}.get_instance({first})
    a.marked_by_check = M
    b = {ci.name}.get_instance()
    c = {ci.name}.get_instance({second})
    return a is b, b is c, a is None, b.marked_by_check, a
"""
    M = ident("M")
    syms["M"] = M
    stops = ["*get_logger*", "*is_shared_memory_supported*"]
    live = (ci.key,)
    k = {}
    if ci.name == "ProcessManager":
        stops += ["*ObjectStore.get_instance*", "*:Worker"]
    if ci.name in FILLED + ("SharedObjectStore", "RoundRobin"):
        stops += [f"{ci.key}.__init__"] if ci.name != "SharedObjectStore" else ["*_allocate_shared_memory"]
    ps = program(ck, src, args=syms, live=live, stops=tuple(stops), **k)
    for p in single(ck, "one", ci.name, ps, w):
        x = els(p.value)
        if x is None or len(x) != 5:
            ck.unk("one", ci.name, brief(p.value))
            continue
        for got, want, n in ((x[0], TRUE, "second request"), (x[1], TRUE, "request with other arguments"), (x[2], FALSE, "first request"), (x[3], M, "kept contents")):
            if got == want:
                ck.ok("one", f"{ci.name}/{n}".replace(" ", "-"), w)
            elif is_const(got) or got[0] == "attr":
                ck.bad("one", f"{ci.name}/{n}".replace(" ", "-"), {"first request": "the first request gives no object", "kept contents": "what was stored in the instance is gone at the next request"}.get(n, f"the {n} gives another object than the first one"), w)
            else:
                ck.unk("one", f"{ci.name}/{n}".replace(" ", "-"), brief(got))
        f = fields(x[4])
        if f is None:
            ck.unk("empty", ci.name, brief(x[4]))
            continue
        if ci.name in FILLED:
            continue
        for a, v in f.items():
            if a == "marked_by_check":
                continue
            if v[0] in ("list", "set", "dict", "tuple"):
                if any(s[0] in ("el", "kv") for s in v[1]):
                    ck.bad("empty", f"{ci.name}.{a}", f"starts with {brief(v)}", w)
                elif not v[1]:
                    ck.ok("empty", f"{ci.name}.{a}", w)
                else:
                    ck.unk("empty", f"{ci.name}.{a}", brief(v))
            elif is_const(v) and isinstance(cval(v), int) and not isinstance(cval(v), bool):
                if cval(v) != 0:
                    ck.bad("empty", f"{ci.name}.{a}", f"starts at {brief(v)}", w)
                else:
                    ck.ok("empty", f"{ci.name}.{a}", w)


def callers_ok(ck, fi, ci, graph, seen):
    """Is every way to reach this function through get_instance of the class?"""
    if fi is None:
        return False
    if fi.key in seen:
        return True
    seen.add(fi.key)
    if fi.cls is not None and fi.cls.key == ci.key and fi.name == "get_instance":
        return True
    cs = graph.get(fi.key)
    if not cs:
        return False
    return all(callers_ok(ck, c, ci, graph, seen) for c in cs)


def no_other(ck, S):
    by = {c.key: c for c in S}
    graph = {}
    sites = []
    resets = []
    for m in prod(ck):
        for owner, n in nodes_with_owner(ck, m):
            if isinstance(n, ast.Call):
                r = resolve(ck.prog, m, n.func)
                if r and r[0] == "class" and r[1].key in by:
                    sites.append((m, owner, n, r[1]))
                elif isinstance(n.func, ast.Name) and n.func.id == "cls" and owner is not None and owner.cls is not None:
                    for c in S:
                        if c.key == owner.cls.key:
                            sites.append((m, owner, n, c))
                if isinstance(n.func, ast.Attribute):
                    nm = n.func.attr
                    if owner is not None and owner.cls is not None and nm in owner.cls.methods:
                        graph.setdefault(owner.cls.methods[nm].key, []).append(owner)
                if r and r[0] == "func":
                    graph.setdefault(r[1].key, []).append(owner)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in ("__instance", "_instance") or isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr.endswith("__instance"):
                resets.append((m, owner, n))
    for m, owner, n, ci in sites:
        w = f"{m.path}:{n.lineno}"
        if owner is not None and callers_ok(ck, owner, ci, graph, set()):
            ck.ok("no-other", f"{ci.name}@{owner.qual if hasattr(owner, 'qual') else owner.name}", w)
        else:
            ck.bad("no-other", f"{ci.name}@{m.name}", f"a second {ci.name} is constructed" + (f" in {owner.name}" if owner else ""), w)
    for m, owner, n in resets:
        w = f"{m.path}:{n.lineno}"
        if owner is not None and (owner.name == "get_instance" or owner.cls is not None and callers_ok(ck, owner, owner.cls, graph, set())):
            ck.ok("no-other", f"write@{owner.name}", w)
        elif owner is not None and not owner.name.startswith("__") and not any(a == owner.name for mm in prod(ck) for a in attr_names(mm)):
            ck.ok("no-other", f"write@{owner.name}", w)  # never called
        else:
            ck.bad("no-other", f"write@{m.name}", "the instance is replaced" + (f" in {owner.name}" if owner else ""), w)


def attr_names(m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute):
            yield n.attr
        elif isinstance(n, ast.Name):
            yield n.id


def nodes_with_owner(ck, m):
    """(function or None, node) for all nodes of a module."""
    fs = {id(f.node): f for f in ck.prog.funcs.values() if f.module is m}

    def go(n, o):
        for c in ast.iter_child_nodes(n):
            co = fs.get(id(c), o)
            yield co, c
            yield from go(c, co)
    yield from go(m.tree, None)


def mutable(m, prog, e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if n in ("list", "dict", "set", "defaultdict", "deque", "OrderedDict", "Counter", "WeakKeyDictionary", "WeakValueDictionary", "WeakSet", "bytearray"):
            return True
        r = resolve(prog, m, f)
        if r and r[0] == "class":
            return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self" for mm in r[1].methods.values() if mm.name != "__init__" for x in ast.walk(mm.node))
    return False


def mutations(fn, test):
    """Nodes of fn that change the object an expression satisfying test denotes (aliases included)."""
    names = set()
    for _ in range(3):
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and (test(x.value) or isinstance(x.value, ast.Name) and x.value.id in names):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)

    def hit(e):
        return test(e) or isinstance(e, ast.Name) and e.id in names
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTS and hit(x.func.value):
            yield x
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and hit(x.value):
            yield x
        elif isinstance(x, ast.AugAssign) and hit(x.target):
            yield x


def separate(ck, S):
    sk = {c.key for c in S}
    for m in prod(ck):
        for ci in [c for c in ck.prog.classes.values() if c.module is m]:
            for b in ci.node.body:
                if isinstance(b, ast.Assign) and mutable(m, ck.prog, b.value):
                    ts = [t.id for t in b.targets if isinstance(t, ast.Name)]
                elif isinstance(b, ast.AnnAssign) and b.value is not None and mutable(m, ck.prog, b.value) and isinstance(b.target, ast.Name):
                    ts = [b.target.id]
                else:
                    continue
                for t in ts:
                    class_level(ck, m, ci, t, b, ci.key in sk)
        for fi in [f for f in ck.prog.funcs.values() if f.module is m]:
            a = fi.node.args if not isinstance(fi.node, ast.Lambda) else None
            if a is None:
                continue
            ps = (a.posonlyargs + a.args)[-len(a.defaults):] if a.defaults else []
            for p, d in list(zip(ps, a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if mutable(m, ck.prog, d):
                    default_arg(ck, m, fi, p.arg, d)


def class_level(ck, m, ci, name, b, is_single):
    """A container that belongs to the class: changed through an object of it?"""
    w = f"{m.path}:{b.lineno}"
    fam = [c for c in ck.prog.classes.values() if c.key == ci.key or ck.prog.is_subclass(c, ci.key)]
    init = ck.prog.find_method(ci, "__init__")
    if init is not None and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == "self" for x in ast.walk(init.node)):
        ck.ok("separate", f"{ci.name}.{name}", w)
        return
    for c in fam:
        for f in c.methods.values():
            slf = f.node.args.args[0].arg if f.node.args.args else None
            if slf is None or slf == "cls" or any(isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod") for d in f.node.decorator_list):
                continue

            def test(e):
                return isinstance(e, ast.Attribute) and e.attr == name and isinstance(e.value, ast.Name) and e.value.id == slf
            hit = next((h for h in mutations(f.node, test) if not general(f.node, h, slf, test)), None)
            if hit is not None:
                ck.bad("separate", f"{ci.name}.{name}", f"{f.name} changes, through one object, a container of the class that all objects of {ci.name} share (line {hit.lineno})", w)
                return
    ck.ok("separate", f"{ci.name}.{name}", w)


def general(fn, hit, slf, test):
    """Is only something stored that does not depend on the object (a cache common to all)?"""
    if not isinstance(hit, ast.Subscript):
        return False
    tainted = {slf}

    def dep(e):
        if test(e):
            return False
        if isinstance(e, ast.Name):
            return e.id in tainted
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and test(e.func.value):
            return any(dep(c) for c in e.args)
        return any(dep(c) for c in ast.iter_child_nodes(e))
    for _ in range(4):
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and dep(x.value):
                tainted |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    a = next((x for x in ast.walk(fn) if isinstance(x, ast.Assign) and hit in x.targets), None)
    return a is not None and not dep(a.value) and not dep(hit.slice)


def default_arg(ck, m, fi, name, d):
    w = f"{m.path}:{d.lineno}"

    def test(e):
        return isinstance(e, ast.Name) and e.id == name
    hit = next(mutations(fi.node, test), None)
    kept = next((x for x in ast.walk(fi.node) if isinstance(x, ast.Assign) and test(x.value) and any(isinstance(t, ast.Attribute) for t in x.targets)), None)
    if hit is not None or kept is not None:
        ck.bad("separate", f"{fi.name}.{name}", "the default value of an argument is one object for all calls, and it is " + ("changed" if hit is not None else "kept"), w)
    else:
        ck.ok("separate", f"{fi.name}.{name}", w)


def fresh_classes(ck, S):
    """Classes whose objects hold containers of their own."""
    out = []
    for ci in ck.prog.classes.values():
        if ".test" in ci.module.name or not ci.module.name.startswith("unidist.core") or "__init__" not in ci.methods or ci in S:
            continue
        fn = ci.methods["__init__"].node
        if any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) for t in x.targets) and (mutable(ci.module, ck.prog, x.value) or isinstance(x.value, ast.Name)) for x in ast.walk(fn)):
            out.append(ci)
    return out


def twice(ck, ci):
    w = loc(ci, ci.methods["__init__"].node)
    a = ci.methods["__init__"].node.args
    req = [x.arg for x in a.args[1:]][: len(a.args) - 1 - len(a.defaults)]
    args = {}
    for i in range(len(req)):
        args[f"I{i}"], args[f"J{i}"] = ident(f"I{i}"), ident(f"J{i}")
    src = f"""
from {ci.module.name} import {ci.name}
def main({", ".join(args)}):
    a = {ci.name}({", ".join(x for x in args if x[0] == "I")})
    b = {ci.name}({", ".join(x for x in args if x[0] == "J")})
    return a, b
"""
    stops = ("*get_instance*", "*is_shared_memory_supported*")
    ps = program(ck, src, args=args, stops=stops, facts=((app("truth", ("sym", "x")), True),))
    names = set()
    for p in ps:
        if p.outcome == "ret":
            x = els(p.value)
            if x and x[0][0] == "obj":
                names |= {k for k, v in x[0][2] if v[0] in ("list", "dict", "set", "obj", "app")}
    names = sorted(n for n in names if n.isidentifier())
    if not names:
        return
    src = src.replace("return a, b", "return a, " + ", ".join(f"a.{n} is b.{n}" for n in names))
    for p in program(ck, src, args=args, stops=stops):
        x = els(p.value) if p.outcome == "ret" else None
        if x is None:
            continue
        have = fields(x[0]) or {}
        for n, v in zip(names, x[1:]):
            if n not in have or have[n][0] not in ("list", "dict", "set", "obj"):
                continue
            if v == FALSE:
                ck.ok("separate", f"{ci.name}.{n}", w)
            elif v == TRUE:
                ck.bad("separate", f"{ci.name}.{n}", f"two objects of {ci.name} share one container", w)
