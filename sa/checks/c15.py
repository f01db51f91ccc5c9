"""Configuration: the modules of unidist.config are interpreted from their import on (module
level, creation of the parameter classes), and histories of environment, put, get and
get_value_source are followed with the values of every type; results are compared with the
order of precedence."""
import ast
import itertools

from ..front import *
from ..interp import NONE, State, const, cval, is_const, show
from ..world import program, value_of

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (constant propagation through histories of each parameter, from the import of its module)"
NOTE = "Histories of up to 5 operations; the environment is taken as it is when a parameter is first read."
CFG = "unidist.config"
VALID = {
    "int": [("7", 7), ("'12'", 12), ("' 30 '", 30), ("0", 0)],
    "float": [("0.25", 0.25), ("'0.5'", 0.5), ("' 2.5 '", 2.5)],
    "bool": [("True", True), ("False", False), ("'true'", True), ("'No'", False), ("' 1 '", True), ("'0'", False), ("'false'", False), ("'YES'", True)],
    "ExactStr": [("' A b'", " A b"), ("'host1,host2'", "host1,host2"), ("''", "")],
    "str": [("'  X y '", "x y"), ("'abc'", "abc")],
    "choice": [],
}
INVALID = {
    "int": ["'x'", "'1.5'", "1.5", "None", "''", "'1 2'"],
    "float": ["'abc'", "'1.2.3'", "None", "''", "'.'"],
    "bool": ["'maybe'", "''", "None", "'2'"],
    "ExactStr": ["5", "None"],
    "str": ["5", "None"],
    "choice": ["5", "None"],
}
SOURCES = {"default": "DEFAULT", "user": "SET_BY_USER", "env": "GOT_FROM_CFG_SOURCE"}


def check(ck):
    ck.rule("order", "A parameter has the value set in the program, else that of its environment variable, else the default, converted to its type.")
    ck.rule("origin", "The origin reported is that of the value.")
    ck.rule("reject", "Setting a value that is not of the type raises and leaves the value and its origin unchanged.")
    ck.rule("valid", "Reading never returns a value that is not of the type or not among the choices, but raises, each time.")
    ck.rule("apart", "Setting a parameter does not change the value or the origin of another one; two parameters never read the same environment variable.")
    ck.rule("pickle", "The pickle threshold is the one of the shared object store when that is in use, with its origin, and its own otherwise.")
    ck.rule("runtime", "The runtime environment holds what was set last; an unsupported option raises and changes nothing.")
    ps = params(ck)
    if not ps:
        return ck.unk("order", "parameters", "no parameter classes found")
    seen, jobs = set(), []
    for k, (name, ty, ch, var) in sorted(ps.items()):
        kind = "choice" if ch else ty
        own = any(n in ck.prog.classes[k].methods for n in ("get", "put", "get_value_source"))
        full = kind not in seen or own
        seen.add(kind)
        hs = list(histories(kind, ch, full or ck.tier != "quick"))
        for i in range(0, len(hs), 12):
            jobs.append(("order", f"{name}/{i // 12}", lambda c, k=k, name=name, kind=kind, ch=ch, var=var, part=hs[i:i + 12]: [history(c, k, name, kind, ch, var, *h) for h in part]))
        jobs.append(("apart", name, lambda c, k=k, name=name, kind=kind, ch=ch: apart(c, k, name, kind, ch, ps)))
    vs = {}
    for k, (name, ty, ch, var) in ps.items():
        vs.setdefault(var, []).append(name)
    for var, names in vs.items():
        if len(names) > 1:
            ck.bad("apart", var, f"the environment variable {var} is read for {' and '.join(sorted(names))}", where(ck, k))
        else:
            ck.ok("apart", var)
    jobs += [("pickle", "threshold", pickle), ("runtime", "runtime", runtime)]
    ck.pguard(jobs)


def where(ck, k, meth=None):
    ci = ck.prog.classes[k]
    m = ck.prog.find_method(ci, meth) if meth else None
    if m is not None:
        return f"{m.module.rel}:{m.node.lineno}"
    return f"{ci.module.rel}:{ci.node.lineno}"


def params(ck):
    """Parameter classes: name, type, choices and environment variable."""
    out = {}
    p = ck.prog
    for k, ci in p.classes.items():
        if not k.startswith(CFG) or not any(c.name == "Parameter" for c in p.mro(ci)[1:] if hasattr(c, "name")):
            continue
        var = next((n.value for n in ci.node.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "varname"), None)
        if not isinstance(var, ast.Constant) or not isinstance(var.value, str):
            continue
        ty = next((ast.unparse(x.value).split(".")[-1] for x in ci.node.keywords if x.arg == "type"), None)
        if ty not in VALID:
            continue
        ch = next((n.value for n in ci.node.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "choices"), None)
        cs = None
        if ch is not None:
            cs = []
            for e in getattr(ch, "elts", []):
                r = ast.literal_eval(e) if isinstance(e, ast.Constant) else const_of(p, ci.module, e)
                if r is None:
                    break
                cs.append(r)
            else:
                out[k] = (ci.node.name, ty, cs, var.value)
            continue
        out[k] = (ci.node.name, ty, None, var.value)
    return out


def const_of(p, m, e):
    if isinstance(e, ast.Attribute):
        r = p.resolve_expr(m, e.value)
        if r and r[0] == "class":
            for n in r[1].node.body:
                if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == e.attr and isinstance(n.value, ast.Constant):
                    return n.value.value
    return None


def importing(env):
    """The state after the import of the configuration."""
    def setup(it, st, bound):
        for m in list(it.p.modules.values()):
            if not m.name.startswith(CFG):
                continue
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id != "__all__":
                    v = value_of(it, st, m, n.value)
                    if v is not None:
                        st.overlay[(("mod", m.name), n.targets[0].id)] = v
        for k, ci in list(it.p.classes.items()):
            if not k.startswith(CFG):
                continue
            for n in ci.node.body:
                t = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) and n.value is not None else None
                if isinstance(t, ast.Name) and not any(isinstance(x, (ast.Lambda, ast.Await)) for x in ast.walk(n.value)):
                    v = value_of(it, st, ci.module, n.value)
                    if v is not None:
                        st.overlay[(("cls", k), t.id)] = v
            m = it.p.find_method(ci, "__init_subclass__")
            if m is None or m.cls is ci:
                continue
            kws = []
            for x in ci.node.keywords:
                v = value_of(it, st, ci.module, x.value)
                if x.arg is None or v is None:
                    break
                kws.append(("kv", const(x.arg), v))
            else:
                rs = it.call_func(st, m, ("cls", k), [], kws, ci.node, ("fn", m.key))
                if len(rs) == 1:
                    for s in State.__slots__:
                        setattr(st, s, getattr(rs[0][0], s))
        e = st.alloc(("dict", tuple(("kv", const(a), const(b)) for a, b in env)))
        st.overlay[(("ext", "os"), "environ")] = e
    return setup


def getenv(it, st, ev):
    e = st.overlay[(("ext", "os"), "environ")]
    a = [x[1] for x in ev.args]
    kw = {cval(x[1]): x[2] for x in ev.kw if x[0] == "kv"}
    d = a[1] if len(a) > 1 else kw.get("default", NONE)
    for s in st.heap[e[1]][1]:
        if s[0] == "kv" and a and s[1] == a[0]:
            return [((), s[2])]
    return [((), d)]


def parse(it, st, ev):
    """Installed packages are recent enough."""
    return [((), const(1 if ev.args and is_const(ev.args[0][1]) else 2))]


def follow(ck, body, env):
    src = "import unidist.config as cfg\ndef main():\n    out = []\n" + body + "    return out\n"
    res = {"ext:os.getenv": getenv, "ext:os.environ.get": getenv, "ext:packaging.version.parse": parse, "ext:secrets.token_hex": ("sym", "!token"), "ext:multiprocessing.cpu_count": const(6), "ext:os.cpu_count": const(6)}
    return program(ck, src, stops=(), results=res, setup=importing(env), prefix=CFG, modules=False, inline_config=True)


def op_src(name, op):
    if op == "get":
        e = f"out.append(('val', cfg.{name}.get()))"
    elif op == "src":
        e = f"out.append(('src', cfg.{name}.get_value_source()))"
    else:
        e = f"cfg.{name}.put({op[1]}); out.append('put')"
    return f"    try:\n        {e}\n    except Exception:\n        out.append('raised')\n"


def histories(kind, ch, full):
    """(environment, operations)"""
    if ch:
        good = [(repr(f" {c.upper()} "), c) for c in ch] + [(repr(ch[0]), ch[0])]
        envs = [None, (f" {ch[-1].title()} ", ch[-1]), ("no-such-choice", ...)]
    else:
        good = VALID[kind]
        bad = [ast.literal_eval(x) for x in INVALID[kind]]
        envs = [None] + [(ast.literal_eval(s), v) for s, v in good if s.startswith("'") and (full or s == next(x for x, _ in good if x.startswith("'")))]
        envs += [(x, ...) for x in bad if isinstance(x, str)][: None if full else 1]
    wrong = INVALID[kind]
    if not full:
        good, wrong = good[:2], wrong[:1]
    for env in envs:
        for s in (["get", "src"], ["src", "get"], ["get", "get", "src"], ["src", "src"]):
            yield env, s
    few = [e for i, e in enumerate(envs) if i < 2 or e and e[1] is ...][:3]
    for env in few:
        for g in good:
            yield env, [("put", *g), "get", "src"]
            yield env, [("put", *g), "src", "get", "get"]
            yield env, ["get", ("put", *g), "get", "src"]
        for b in wrong:
            yield env, [("put", b, ...), "get", "src"]
            yield env, ["get", ("put", b, ...), "src", "get"]
            yield env, [("put", *good[0]), ("put", b, ...), "get", "src"]
        for g, h in itertools.islice(itertools.permutations(good, 2), 12 if full else 1):
            yield env, [("put", *g), ("put", *h), "src", "get"]
            yield env, [("put", *g), "get", ("put", *h), "get", "src"]
        if ch:
            yield env, [("put", "'no-such-choice'", "no-such-choice"), "get", "get"]
            yield env, ["get", ("put", "'no-such-choice'", "no-such-choice"), "get", ("put", *good[0]), "get", "src"]


def results(p):
    v = p.value
    if p.outcome != "ret" or v is None or v[0] != "list" or any(s[0] != "el" for s in v[1]):
        return None
    return [s[1] for s in v[1]]


def source_name(v):
    if is_const(v):
        return v[2][2] if v[0] == "nc" else v[2]
    return None


def codes(ck):
    ks = [c for k, c in ck.prog.classes.items() if k.startswith(CFG) and k.endswith(":ValueSource")]
    d = {}
    for n in ks[0].node.body if ks else ():
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
            d[n.targets[0].id] = n.value.value
    return d


def tell(env, ops, n):
    t = [] if env is None else [f"the environment variable set to {env[0]!r}"]
    return (f"with {t[0]}, " if t else "") + ", ".join(f"put({o[1]})" if isinstance(o, tuple) else {"get": "get()", "src": "get_value_source()"}[o] for o in ops[: n + 1])


def history(ck, k, name, kind, ch, var, env, ops):
    body = "".join(op_src(name, o) for o in ops)
    try:
        ps = follow(ck, body, [(var, env[0])] if env else [])
    except RecursionError:
        return ck.unk("order", name, "recursion limit")
    code = codes(ck)
    n = 0
    for p in ps:
        rs = results(p)
        if rs is None or len(rs) != len(ops):
            ck.unk("order", name, f"{tell(env, ops, len(ops))}: {p.outcome} {brief(p.value, 80) if p.value else ''}")
            continue
        if any(e.kind == "assume" for e, _ in walk(p.events)):
            ck.unk("order", name, f"{tell(env, ops, len(ops))}: a condition is not decided")
            continue
        n += 1
        judge(ck, k, name, kind, ch, env, ops, rs, code)
    if not n:
        ck.unk("order", name, f"{tell(env, ops, len(ops))}: no path")


def judge(ck, k, name, kind, ch, env, ops, rs, code):
    cur, src, unset = None, None, True  # value set in the program
    first = None  # value read when nothing was set
    for i, (o, r) in enumerate(zip(ops, rs)):
        what = f"{name}: {tell(env, ops, i)}"
        raised = r == const("raised")
        if isinstance(o, tuple):
            if o[2] is ...:
                if raised:
                    ck.ok("reject", name)
                else:
                    return ck.bad("reject", name, f"{what} does not raise although the value is not of the type {kind if not ch else 'str'}", where(ck, k, "put"))
            elif raised and ch and o[2] not in ch:
                ck.ok("valid", name)  # rejected at once
            elif raised:
                return ck.bad("order", name, f"{what} raises", where(ck, k, "put"))
            else:
                cur, unset = o[2], False
            continue
        if unset:
            want, ws = (env[1], "env") if env else (None, "default")
        else:
            want, ws = cur, "user"
        if ch and want is not None and want is not ... and want not in ch:
            want = ...
        if o == "get":
            if want is ...:
                if raised:
                    ck.ok("valid", name)
                    continue
                return ck.bad("valid", name, f"{what} returns {brief(r[1][1][1]) if r[0] == 'tuple' else brief(r)} although the value is not {'among the choices' if ch else 'of the type ' + kind}", where(ck, k, "get"))
            if raised:
                return ck.bad("order", name, f"{what} raises", where(ck, k, "get"))
            v = r[1][1][1]
            if ws == "default":
                if first is None:
                    first = v
                if ch and is_const(v) and source_name(v) not in ch:
                    return ck.bad("valid", name, f"{what} returns {brief(v)}, which is not among the choices", where(ck, k, "get"))
                if v != first:
                    return ck.bad("order", name, f"{what} returns {brief(v)}, not the default {brief(first)}", where(ck, k, "get"))
                ck.ok("order", name)
                continue
            if not is_const(v):
                ck.unk("order", name, f"{what}: {brief(v)}")
                continue
            x = source_name(v)
            if type(x) is not type(want) or x != want:
                return ck.bad("order", name, f"{what} returns {x!r} instead of {want!r}", where(ck, k, "get"))
            ck.ok("order", name)
        else:
            if want is ... and raised:
                ck.ok("origin", name)
                continue
            if raised:
                return ck.bad("origin", name, f"{what} raises", where(ck, k, "get_value_source"))
            v = r[1][1][1]
            x = source_name(v)
            if x is None and v != NONE:
                ck.unk("origin", name, f"{what}: {brief(v)}")
                continue
            if want is ... and ws == "env" and x == code.get(SOURCES["env"]):
                ck.ok("origin", name)
                continue
            if x != code.get(SOURCES[ws]):
                back = {b: a for a, b in code.items()}
                return ck.bad("origin", name, f"{what} returns {back.get(x, x)} instead of {SOURCES[ws]}", where(ck, k, "get_value_source"))
            ck.ok("origin", name)


def apart(ck, k, name, kind, ch, ps):
    """Values and origins of all other parameters before and after one is set."""
    others = [n for kk, (n, *_) in sorted(ps.items()) if kk != k]
    val = repr(ch[0]) if ch else VALID[kind][0][0]
    read = "".join(f"    out.append(cfg.{n}.get()); out.append(cfg.{n}.get_value_source())\n" for n in others)
    mk = f"    cfg.{name}.put({val})\n"
    names = [x for n in others for x in (n, n)]
    base = views(ck, read)
    for how, body in (("set before they are read", mk + read), ("set after they are read", read + "    out.clear()\n" + mk + read)):
        got = views(ck, body)
        if not base or not got:
            return ck.unk("apart", name, "not followed")
        for g in got:
            if len(g) != len(names):
                ck.unk("apart", name, "not followed")
                continue
            near = min(base, key=lambda b: sum(x != y for x, y in zip(b, g)))
            diff = [n for n, x, y in zip(names, near, g) if x != y and not (name in RELATED and n in RELATED)]
            if diff:
                ck.bad("apart", name, f"setting {name}, {how}, changes {diff[0]}", where(ck, k, "put"))
                return
            ck.ok("apart", name)


RELATED = ("MpiPickleThreshold", "MpiSharedObjectStore", "MpiSharedObjectStoreThreshold")


def views(ck, body):
    out = []
    for p in follow(ck, body, []):
        if p.outcome != "ret":
            if any(e.kind == "assume" for e, _ in walk(p.events)):
                continue
            return None
        r = results(p)
        if r is None:
            return None
        if r not in out:
            out.append(r)
    return out


def pickle(ck):
    name = "MpiPickleThreshold"
    kk = [k for k in ck.prog.classes if k.startswith(CFG) and k.endswith(":" + name)]
    if not kk:
        return ck.unk("pickle", name, "not found")
    code = codes(ck)
    own = [None, ("put", 111), ("env", 222)]
    thr = [None, ("put", 333), ("env", 444)]
    on = [("none", False), ("put", True), ("put", False), ("env", True), ("env", False)]
    for o, t, s, order in itertools.product(own, thr, on, (0, 1)):
        env = []
        body = []
        for p, var, x in ((name, "UNIDIST_MPI_PICKLE_THRESHOLD", o), ("MpiSharedObjectStoreThreshold", "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD", t), ("MpiSharedObjectStore", "UNIDIST_MPI_SHARED_OBJECT_STORE", s if s[0] != "none" else None)):
            if x is None:
                continue
            if x[0] == "env":
                env.append((var, str(x[1])))
            else:
                body.append(f"    cfg.{p}.put({x[1]!r})\n")
        if order:
            body.reverse()
        read = f"    out.append(cfg.{name}.get()); out.append(cfg.{name}.get_value_source()); out.append(cfg.{name}.default); out.append(cfg.MpiSharedObjectStoreThreshold.default); out.append(cfg.MpiSharedObjectStoreThreshold.get())\n"
        for p in follow(ck, "".join(body) + read, env):
            r = results(p)
            if r is None or len(r) != 5 or any(e.kind == "assume" for e, _ in walk(p.events)):
                ck.unk("pickle", name, f"{p.outcome}")
                continue
            src = t if s[1] else o
            want = const(src[1]) if src else (r[3] if s[1] else r[2])
            wsrc = code.get(SOURCES["default" if src is None else "user" if src[0] == "put" else "env"])
            what = f"with the shared object store {'on' if s[1] else 'off'}, {'its threshold ' + str(t[1]) + ' (' + t[0] + ')' if t else 'its default threshold'} and {'the pickle threshold ' + str(o[1]) + ' (' + o[0] + ')' if o else 'the default pickle threshold'}"
            if r[0] != want and (is_const(r[0]) and is_const(want) and source_name(r[0]) == source_name(want)) is False:
                if is_const(r[0]) or precise(r[0]):
                    return ck.bad("pickle", name, f"{what}, the pickle threshold is {brief(r[0])} instead of {brief(want)}", where(ck, kk[0], "get"))
                ck.unk("pickle", name, brief(r[0]))
                continue
            if source_name(r[1]) != wsrc:
                if is_const(r[1]):
                    return ck.bad("pickle", name, f"{what}, the origin reported is not that of the value", where(ck, kk[0], "get_value_source"))
                ck.unk("pickle", name, brief(r[1]))
                continue
            ck.ok("pickle", name)


def runtime(ck):
    name = "MpiRuntimeEnv"
    kk = [k for k in ck.prog.classes if k.startswith(CFG) and k.endswith(":" + name)]
    if not kk:
        return ck.unk("runtime", name, "not found")
    A, B, BAD, MIX = "{'env_vars': {'X': '1'}}", "{'env_vars': {'Y': '2', 'Z': ''}}", "{'pip': ['a']}", "{'env_vars': {'X': '1'}, 'conda': 'c'}"
    for ops in ([], [A], [A, B], [BAD], [A, BAD], [MIX], [B, MIX], [B, BAD, A], ["{}"], [A, "{}"]):
        body = "".join(f"    try:\n        cfg.{name}.put({o}); out.append('put')\n    except Exception:\n        out.append('raised')\n" for o in ops) + f"    out.append(cfg.{name}.get())\n"
        for p in follow(ck, body, []):
            r = results(p)
            if r is None or len(r) != len(ops) + 1 or any(e.kind == "assume" for e, _ in walk(p.events)):
                ck.unk("runtime", name, f"{p.outcome}")
                continue
            cur = {}
            good = True
            for o, x in zip(ops, r):
                bad = o in (BAD, MIX)
                if (x == const("raised")) != bad:
                    ck.bad("runtime", name, f"put({o}) {'does not raise' if bad else 'raises'}", where(ck, kk[0], "put"))
                    good = False
                    break
                if not bad:
                    cur = ast.literal_eval(o)
            if not good:
                return
            got = plain(r[-1])
            if got is None:
                ck.unk("runtime", name, brief(r[-1]))
            elif got != cur:
                return ck.bad("runtime", name, f"after {', '.join(f'put({o})' for o in ops) or 'the start'}, get() returns {got!r} instead of {cur!r}", where(ck, kk[0], "get"))
            else:
                ck.ok("runtime", name)


def plain(v):
    if is_const(v):
        return source_name(v)
    if v[0] == "dict" and all(s[0] == "kv" for s in v[1]):
        d = {}
        for s in v[1]:
            x = plain(s[2])
            if x is None or not is_const(s[1]):
                return None
            d[source_name(s[1])] = x
        return d
    if v[0] == "list" and all(s[0] == "el" for s in v[1]):
        return [plain(s[1]) for s in v[1]]
    return None
