"""Interprocedural path-sensitive abstract interpreter over the syntax tree.

Values are terms (nested tuples).  A path is a sequence of events (calls that are not
inlined, writes to objects outside the analysed code's local heap, assumptions taken at
branches, loops) plus an outcome.  Loops are summarised: the body is interpreted for one
generic iteration, with everything a previous iteration may have changed replaced by an
unknown (iterated to a fixpoint), so a result does not depend on a bound on iterations.
No solver is involved; branch conditions are pruned only by syntactic facts (equality with
constants, None-ness, integer intervals, types).
"""
import ast
import builtins

from .program import AnalysisError, ClassInfo, FuncInfo, mangle, walk_scope

NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)


def const(v):
    return ("c", type(v).__name__, v)


STR_FOLD = ("strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "replace",
            "startswith", "endswith", "removeprefix", "removesuffix", "count", "find", "zfill")


def is_const(v):
    return v[0] == "c" or v[0] == "nc"


def cval(v):
    """Python value of a constant term (else raises)."""
    if v[0] == "nc":
        v = v[2]
    if v[0] != "c":
        raise ValueError(v)
    return v[2]


def is_int(v):
    return is_const(v) and isinstance(cval(v), int) and not isinstance(cval(v), bool)


def uniq(v):
    """Symbols whose name starts with ! stand for pairwise different objects."""
    return v[0] == "sym" and v[1][:1] == "!"


def app(op, *args):
    return ("app", op, tuple(args))


def subst(t, old, new):
    """Replace a subterm."""
    if t == old:
        return new
    if isinstance(t, tuple):
        if not t or t[0] == "c":
            return t
        r = tuple(subst(x, old, new) for x in t)
        return r if r != t else t
    return t


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        if t and t[0] == "c":
            return False
        return any(contains(x, sub) for x in t)
    return False


def subterms(t):
    if isinstance(t, tuple):
        yield t
        if t and t[0] == "c":
            return
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def literal(t):
    """(value,) of a term made of constants only."""
    if is_const(t):
        return (cval(t),) if t[0] == "c" else None
    if t[0] in ("list", "tuple"):
        xs = [literal(s[1]) if s[0] == "el" else None for s in t[1]]
        if any(x is None for x in xs):
            return None
        return ([x[0] for x in xs],) if t[0] == "list" else (tuple(x[0] for x in xs),)
    if t[0] == "dict":
        d = {}
        for s in t[1]:
            k, v = (literal(s[1]), literal(s[2])) if s[0] == "kv" else (None, None)
            if k is None or v is None or isinstance(k[0], (list, dict)):
                return None
            d[k[0]] = v[0]
        return (d,)
    return None


def bix_depth(t):
    d = 0
    for s in subterms(t):
        if s and s[0] == "bix":
            d = max(d, s[1])
    return d


class Ev:
    """An event of a path."""

    __slots__ = (
        "kind", "name", "recv", "args", "kw", "res", "node", "fn", "stack", "prot",
        "paths", "dom", "data", "bound", "locks", "cond",
    )

    def __init__(self, kind, **k):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        for a, b in k.items():
            setattr(self, a, b)

    @property
    def where(self):
        n = self.node
        if n is None:
            return "?"
        return f"{n._mod.rel}:{getattr(n, 'lineno', '?')}"

    def arg(self, i, name=None):
        """i-th positional or keyword argument (by bound parameter name first)."""
        if self.bound is not None and name is not None and name in self.bound:
            return self.bound[name]
        for e in self.kw or ():
            if e[0] == "kv" and e[1] == const(name):
                return e[2]
        if i is not None:
            pos = self.args or ()
            if i < len(pos) and all(s[0] == "el" for s in pos[: i + 1]):
                return pos[i][1]
        return None

    def __repr__(self):
        if self.kind == "assume":
            return f"assume({show(self.data)}={self.res})"
        if self.kind == "loop":
            return f"loop[{show(self.dom)}]({len(self.paths)} paths)"
        return f"{self.kind}:{self.name}({', '.join(show_seg(a) for a in self.args or ())}{',' if self.kw else ''}{', '.join(show_seg(a) for a in self.kw or ())})"


def show_seg(s):
    if s[0] == "el":
        return show(s[1])
    if s[0] == "splat":
        return "*" + show(s[1])
    if s[0] == "dsplat":
        return "**" + show(s[1])
    if s[0] == "kv":
        return f"{show(s[1])}={show(s[2])}"
    if s[0] == "for":
        return "for(%s: %s)" % (
            show(s[1]),
            " | ".join(
                ("[" + ",".join(f"{show(f)}={b}" for f, b in fs) + "]" if fs else "")
                + ",".join(show_seg(x) for x in segs)
                for fs, segs in s[2]
            ),
        )
    if s[0] == "prior":
        return "..."
    return str(s)


def show(t):
    """Readable form of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "c":
        return repr(t[2])
    if k == "nc":
        return t[1].split(":")[-1]
    if k == "sym":
        return t[1]
    if k in ("mod", "ext"):
        return t[1]
    if k in ("cls", "fn", "single"):
        return t[1].split(":")[-1]
    if k == "cfg":
        return "cfg:" + t[1].split(":")[-1]
    if k == "bm":
        return f"{show(t[1])}.{t[2].split('.')[-1]}"
    if k == "attr":
        return f"{show(t[1])}.{t[2]}"
    if k == "item":
        return f"{show(t[1])}[{show(t[2])}]"
    if k == "app":
        return f"{t[1]}({', '.join(show(x) for x in t[2])})"
    if k == "res":
        return f"<{t[2].split(':')[-1]}#{t[1]}>"
    if k in ("tuple", "list", "set"):
        b = {"tuple": "()", "list": "[]", "set": "{}"}[k]
        return b[0] + ", ".join(show_seg(s) for s in t[1]) + b[1]
    if k == "dict":
        return "{" + ", ".join(show_seg(s) for s in t[1]) + "}"
    if k == "obj":
        return f"{t[1].split(':')[-1]}({', '.join(f'{a}={show(v)}' for a, v in t[2])})"
    if k in ("ix", "bix"):
        return f"{k}{t[1]}"
    if k == "clo":
        return f"<closure {t[3]}>"
    return "(" + " ".join(show(x) for x in t) + ")"


class State:
    __slots__ = ("frames", "heap", "facts", "binds", "ints", "trace", "overlay", "n", "na", "types")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.binds = {}
        self.ints = {}
        self.trace = None
        self.overlay = {}
        self.n = 0
        self.na = 0
        self.types = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.binds = dict(self.binds)
        s.ints = dict(self.ints)
        s.trace = self.trace
        s.overlay = dict(self.overlay)
        s.n = self.n
        s.na = self.na
        s.types = dict(self.types)
        return s

    def setvar(self, fid, name, v):
        f = dict(self.frames[fid])
        f[name] = v
        self.frames[fid] = f

    def events(self, upto=None):
        out = []
        t = self.trace
        while t is not None and t is not upto:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def push(self, ev):
        self.trace = (self.trace, ev)

    def alloc(self, cell):
        a = self.na
        self.na += 1
        self.heap[a] = cell
        return ("ref", a)


class Path:
    """A complete path of an entry: events, outcome, final state."""

    __slots__ = ("events", "outcome", "value", "state")

    def __init__(self, events, outcome, value, state):
        self.events, self.outcome, self.value, self.state = events, outcome, value, state

    def facts(self):
        return [(e.data, e.res) for e in self.events if e.kind == "assume"]

    def __repr__(self):
        return f"<path {self.outcome} {show(self.value) if self.value else ''} {self.events}>"


class Frame:
    """Static information of an activation (the variables live in the state)."""

    __slots__ = ("fid", "fi", "module", "parent", "globals_", "nonlocals", "locals_", "cls", "self_name", "curexc")

    def __init__(self, fid, fi, module, parent, node, cls):
        self.fid, self.fi, self.module, self.parent, self.cls = fid, fi, module, parent, cls
        self.globals_, self.nonlocals, self.locals_ = set(), set(), set()
        self.curexc = []
        if node is not None:
            c = getattr(node, "_sa_scope", None)
            if c is None:
                c = (set(), set())
                for n in walk_scope(node):
                    if isinstance(n, ast.Global):
                        c[0].update(n.names)
                    elif isinstance(n, ast.Nonlocal):
                        c[1].update(n.names)
                node._sa_scope = c
            self.globals_, self.nonlocals = set(c[0]), set(c[1])


BUILTIN_TYPES = {
    "list", "tuple", "dict", "set", "frozenset", "str", "bytes", "bytearray", "int",
    "float", "bool", "complex", "memoryview", "NoneType",
}
MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "popitem", "clear", "add", "discard",
    "update", "setdefault", "sort", "reverse", "popleft", "appendleft", "__setitem__",
    "__delitem__", "difference_update", "intersection_update",
}
PURE_METHODS = {
    "get", "items", "keys", "values", "copy", "index", "count", "startswith", "endswith",
    "lower", "upper", "strip", "split", "join", "format", "title", "tobytes", "raw",
    "union", "difference", "intersection", "issubset", "toreadonly",
}


def Interp_pure(name):
    def f(self, st, a, segs, kw, node):
        a2 = [self.snap_segs(st, segs, 0)] if a is None else [self.snap(st, x) for x in a]
        return [(st, app(name, *a2))]

    return f


class Interp:
    """opts:
    stops: set of function keys (or a predicate) that are not inlined
    max_paths: abort limit
    raise_forks: produce a raising path at opaque calls inside try
    """

    def __init__(self, prog, stops=(), only=None, max_paths=4000, singletons=True,
                 raise_forks=True, keep_assumes=True, no_single=(), inline_depth=40, track_touch=False, inline_config=False, pure=(), results=None,
                 unroll=0, volatile=None, unroll_inf=False, buffers=False, recursion=0, oracle=None, objects=False):
        self.oracle = oracle  # decides comparisons the terms leave open (numeric domain)
        self.recursion = recursion  # nested calls of a function that are followed
        self.p = prog
        self.buffers = buffers  # byte buffers have an identity
        self.unroll = unroll  # iterations of a while loop followed one by one before it is summarised
        self.unroll_inf = unroll_inf
        self.objects = objects  # follow __new__, __eq__, __hash__ of classes of the program
        self.eqs = {}  # results of __eq__ between objects of the program
        self.volatile = volatile  # predicate on containers whose items may change between reads
        self.stops = stops if callable(stops) else (lambda k, s=set(stops): k in s)
        self.only = only
        self.max_paths = max_paths
        self.singletons = singletons
        self.no_single = set(no_single)
        self.raise_forks = raise_forks
        self.inline_depth = inline_depth
        self.track_touch = track_touch
        self.inline_config = inline_config
        self.pure = pure if callable(pure) else (lambda k, s=set(pure): k in s)
        self.results = results or {}
        self.sinks = []
        self.frames = {}
        self.nfid = 0
        self.stack = []  # function keys being inlined
        self.fstack = []  # Frame objects
        self.prot = []  # enclosing try statements that can catch
        self.nloop = 0
        self.nodes = {}
        self.local_cls = {}
        self.lcls_parent = {}
        self.analysed = set()
        self.unknown_calls = 0
        self._attr_type_cache = {}
        self._ret_types = {}
        self._mut_class_attrs = None
        self.steps = 0
        self.loop_depth = 0

    # ------------------------------------------------------------------ entry
    def run(self, fkey, args=None, kwargs=None, self_val=None, types=None, facts=(), init=None, state=None, overlay=None):
        """Analyse one function; returns the list of paths.

        args: dict parameter name -> term (missing ones become symbols named after the parameter)
        """
        fi = fkey if isinstance(fkey, FuncInfo) else self.p.func(fkey)
        st = state.fork() if state is not None else State()
        for t, ty in (types or {}).items():
            st.types[t] = ty
        for cond, val in facts:
            self.assume_raw(st, cond, val)
        st.overlay.update(overlay or {})
        bound = {}
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, n in enumerate(names):
            if i == 0 and fi.kind in ("method", "property"):
                bound[n] = self_val or self.default_self(fi.cls, st)
            elif i == 0 and fi.kind == "class":
                bound[n] = self_val or ("cls", fi.cls.key)
            else:
                bound[n] = ("sym", n)
        if a.vararg:
            bound[a.vararg.arg] = ("tuple", (("splat", ("sym", a.vararg.arg)),))
        if a.kwarg:
            bound[a.kwarg.arg] = st.alloc(("dict", (("dsplat", ("sym", a.kwarg.arg)),)))
        for n, v in (args or {}).items():
            bound[n] = v
        if init:
            init(self, st, bound)
        self.sinks.append([])
        res = self.exec_function(st, fi, bound)
        self.sinks.pop()
        return [self.finish(s, o) for s, o in res]

    def run_source(self, src, types=None, facts=(), args=None, init=None, overlay=None):
        """Analyse a driver program given as source text (its function ``main``)."""
        from .program import Module
        tree = ast.parse(src)
        m = Module("unidist.__driver__", "<driver>", tree, False)
        m.rel = "<driver>"
        saved = dict(self.p.funcs), dict(self.p.classes)
        self.p._index(m)
        for n in ast.walk(tree):
            n._mod = m
        fi = self.p.funcs["unidist.__driver__:main"]
        try:
            return self.run(fi, types=types, facts=facts, args=args, init=init, overlay=overlay)
        finally:
            self.p.funcs, self.p.classes = saved

    def default_self(self, ci, st):
        if ci.methods.get("get_instance") and ci.key not in self.no_single:
            return ("single", ci.key)
        v = ("sym", "self")
        st.types[v] = ("cls", ci.key)
        return v

    def finish(self, st, o):
        kind = o[0]
        val = self.snap(st, o[1]) if len(o) > 1 and o[1] is not None else None
        return Path(st.events(), kind, val, st)

    # ------------------------------------------------------------------ snapshots
    def snap(self, st, v, depth=0):
        """Immutable structural form of a value in a state."""
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == "ref":
            if depth > 12 or v[1] not in st.heap:
                return ("deep",)
            c = st.heap[v[1]]
            if c[0] in ("list", "set"):
                ss = self.snap_segs(st, c[1], depth + 1)
                return (c[0], (norm_put_segs(ss) or ss) if len(ss) == 2 else ss)
            if c[0] == "dict":
                return ("dict", self.snap_segs(st, c[1], depth + 1))
            if c[0] == "inst":
                return (
                    "obj", c[1],
                    tuple((n, self.snap(st, x, depth + 1)) for n, x in sorted(c[2].items())),
                )
            return c
        if k == "c" or k == "sym" or k == "ext" or k == "fn" or k == "cls":
            return v
        if k in ("tuple",):
            return ("tuple", self.snap_segs(st, v[1], depth + 1))
        if k == "clo":
            return v
        return tuple(self.snap(st, x, depth + 1) if isinstance(x, tuple) else x for x in v)

    def snap_segs(self, st, segs, depth):
        out = []
        for s in segs:
            if s[0] == "for":
                out.append(("for", self.snap(st, s[1], depth), tuple(
                    (tuple((self.snap(st, f, depth), b) for f, b in fs), self.snap_segs(st, ss, depth))
                    for fs, ss in s[2])))
            else:
                out.append((s[0],) + tuple(self.snap(st, x, depth) for x in s[1:]))
        return tuple(out)

    # ------------------------------------------------------------------ facts
    def type_of(self, st, v):
        k = v[0]
        if k == "c":
            return ("b", v[1])
        if k == "nc":
            return ("b", v[2][1])
        if k == "tuple":
            return ("b", "tuple")
        if k in ("list", "dict", "set"):
            return ("b", k)
        if k == "obj":
            return ("cls", v[1])
        if k == "ref":
            c = st.heap[v[1]]
            if c[0] == "inst":
                return ("cls", c[1])
            if self.objects and (v, "__cls__") in st.overlay:
                return st.overlay[(v, "__cls__")]
            return ("b", c[0])
        if k == "single":
            return ("cls", v[1])
        if k in ("fn", "bm", "clo"):
            return ("b", "function")
        if k in ("cls", "lcls"):
            return ("b", "type")
        if k == "mod":
            return ("b", "module")
        if v in st.types:
            return st.types[v]
        if k == "res":
            return self.ret_type(v[2])
        if k == "attr":
            bt = self.type_of(st, v[1]) if v[1][0] not in ("mod", "ext", "cls") else None
            if v[1][0] == "mod":
                return self.global_type(v[1][1], v[2])
            if v[1][0] == "cls":
                ci = self.p.classes.get(v[1][1])
                fc = self.p.find_const(ci, v[2]) if ci else None
                if fc:
                    return self.expr_type(fc[0].module, fc[1])
                return None
            if bt and bt[0] == "cls":
                return self.attr_type(bt[1], v[2])
        if k == "app":
            if v[1] in ("fstr", "str", "repr"):
                return ("b", "str")
            if v[1] in ("not", "eq", "lt", "in", "isinst", "isnone", "truth"):
                return ("b", "bool")
            if v[1] == "len":
                return ("b", "int")
        return None

    def ret_type(self, name):
        """Type of the result of a function that is not inlined, from its return statements."""
        if name in self._ret_types:
            return self._ret_types[name]
        self._ret_types[name] = None
        fi = self.p.funcs.get(name)
        if name.startswith("ext:builtins.") and isinstance(getattr(builtins, name[13:], None), type) and issubclass(getattr(builtins, name[13:]), BaseException):
            self._ret_types[name] = ("b", name[13:])
        elif name in self.p.classes:
            self._ret_types[name] = ("cls", name)
        elif fi is not None and not fi.is_gen and not isinstance(fi.node, ast.AsyncFunctionDef):
            ts = set()
            for n in walk_scope(fi.node):
                if isinstance(n, ast.Return):
                    ts.add(self.ret_expr_type(fi, n.value))
            if len(ts) == 1:
                self._ret_types[name] = ts.pop()
        return self._ret_types[name]

    def ret_expr_type(self, fi, e):
        if isinstance(e, ast.IfExp):
            ts = {self.ret_expr_type(fi, e.body), self.ret_expr_type(fi, e.orelse)} - {("param",)}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(e, ast.Name):
            asg = []
            for n in walk_scope(fi.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    asg.append(n.value)
                elif isinstance(n, (ast.AugAssign, ast.For, ast.AnnAssign, ast.NamedExpr, ast.With)):
                    if any(isinstance(t, ast.Name) and t.id == e.id and isinstance(t.ctx, ast.Store) for t in ast.walk(n)):
                        return None
            a = fi.node.args
            if not asg:
                return ("param",) if e.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] else None
            if any(isinstance(t, ast.Name) and t.id == e.id and isinstance(t.ctx, ast.Load) for v in asg for t in ast.walk(v)):
                # x = C() if x is None else x
                ts = {self.expr_type(fi.module, v.body) if isinstance(v, ast.IfExp) else None for v in asg}
            else:
                ts = {self.ret_expr_type(fi, v) for v in asg}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(e, ast.Call):
            t = self.expr_type(fi.module, e)
            return t if t and t[0] == "cls" else None
        return None

    def attr_type(self, clskey, name):
        key = (clskey, name)
        if key not in self._attr_type_cache:
            self._attr_type_cache[key] = None
            ci = self.p.classes.get(clskey) or self.local_cls.get(clskey)
            found = []
            if ci is not None:
                for c in self.p.mro(ci):
                    for e, fi in self.p.attr_assigns(c).get(name, []):
                        if e is None:
                            found.append("?")
                            continue
                        if isinstance(e, ast.Constant) and e.value is None:
                            continue
                        t = self.expr_type(c.module, e)
                        found.append(t if t else "?")
            if found and all(f == found[0] for f in found) and found[0] != "?":
                self._attr_type_cache[key] = found[0]
        return self._attr_type_cache[key]

    def global_type(self, mod, name):
        m = self.p.modules.get(mod)
        if m is None:
            return None
        ts = set()
        for b in m.names.get(name, []):
            if b[0] == "var" and b[1] is not None:
                if isinstance(b[1], ast.Constant) and b[1].value is None:
                    continue
                ts.add(self.expr_type(m, b[1]))
        if len(ts) == 1:
            return ts.pop()
        return None

    def expr_type(self, m, e):
        if isinstance(e, (ast.List, ast.ListComp)):
            return ("b", "list")
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("b", "dict")
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ("b", "set")
        if isinstance(e, ast.Tuple):
            return ("b", "tuple")
        if isinstance(e, ast.Constant):
            return ("b", type(e.value).__name__)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr == "get_instance":
                r = self.p.resolve_expr(m, f.value)
                if r and r[0] == "class":
                    return ("cls", r[1].key)
            r = self.p.resolve_expr(m, f)
            if r and r[0] == "class":
                return ("cls", r[1].key)
            if r and r[0] == "ext":
                n = r[1].split(".")[-1]
                if r[1].startswith("builtins.") and n in BUILTIN_TYPES:
                    return ("b", n)
                if n == "defaultdict" or n == "WeakValueDictionary" or n == "OrderedDict":
                    return ("b", "dict")
                if n == "deque":
                    return ("b", "list")
                if n in ("getLogger",):
                    return ("b", "logger")
            if r and r[0] == "func" and r[1].name == "get_logger":
                return ("b", "logger")
        return None

    def class_names(self, T):
        """Flatten a class/tuple-of-classes value into a frozenset of names, or None."""
        if T[0] == "tuple":
            out = set()
            for s in T[1]:
                if s[0] != "el":
                    return None
                n = self.class_names(s[1])
                if n is None:
                    return None
                out |= n
            return frozenset(out)
        if T[0] == "cls":
            return frozenset([T[1]])
        if T[0] == "ext":
            n = T[1]
            return frozenset([n[len("builtins."):] if n.startswith("builtins.") else n])
        return None

    def static_isinst(self, ty, names):
        """True/False/None."""
        if ty is None:
            return None
        if ty[0] == "b":
            t = ty[1]
            bt = getattr(builtins, t, None)
            for n in names:
                if n == t:
                    return True
                bn = getattr(builtins, n, None)
                if isinstance(bt, type) and isinstance(bn, type) and issubclass(bt, bn):
                    return True
            if any(n not in BUILTIN_TYPES and ":" not in n and not isinstance(getattr(builtins, n, None), type) for n in names):
                return None
            return False
        ci = self.p.classes.get(ty[1]) or self.local_cls.get(ty[1])
        if ci is None:
            return None
        mro = {c.key for c in self.p.mro(ci)}
        ext = self.p.ext_bases(ci)
        for n in names:
            if n in mro or n == "object":
                return True
            if n in ext or "builtins." + n in ext:
                return True
        for n in names:
            if ":" in n:
                continue
            if n in BUILTIN_TYPES and not any(not x.startswith("builtins.") for x in ext):
                continue
            bn = getattr(builtins, n, None)
            if isinstance(bn, type):
                ok = False
                for x in ext:
                    bx = getattr(builtins, x.replace("builtins.", ""), None)
                    if isinstance(bx, type) and issubclass(bx, bn):
                        ok = True
                if ok:
                    return True
                continue
            return None
        return False

    def decide(self, st, atom):
        """True / False / None for a boolean term."""
        d = self.decide_terms(st, atom)
        if d is None and self.oracle is not None:
            return self.oracle(st, atom)
        return d

    def decide_terms(self, st, atom):
        if atom in st.facts:
            return st.facts[atom]
        if is_const(atom):
            return bool(cval(atom))
        if atom[0] != "app":
            return None
        op, a = atom[1], atom[2]
        if op == "not":
            d = self.decide(st, a[0])
            return None if d is None else not d
        if op == "isnone":
            x = a[0]
            if is_const(x):
                return cval(x) is None
            if x[0] in ("tuple", "list", "dict", "set", "obj", "ref", "cls", "fn", "bm", "clo", "single", "partial", "lcls", "mod"):
                return False
            if uniq(x):
                return False
            if x in st.binds:
                return cval(st.binds[x]) is None
            if x in st.ints:
                return False
            if x[0] == "app" and x[1] in ("len", "fstr", "add", "sub", "mult", "sum", "sumof"):
                return False
            if st.facts.get(app("truth", x)) is True:
                return False
            for f, b in st.facts.items():
                if b and f[0] == "app" and f[1] == "isinst" and f[2][0] == x and "NoneType" not in f[2][1]:
                    return False
                if b and f[0] == "app" and f[1] == "eq" and x in f[2]:
                    o = f[2][1] if f[2][0] == x else f[2][0]
                    if is_const(o) and cval(o) is not None:
                        return False
            if x in st.types:
                return False
            return None
        if op == "isinst":
            x, names = a
            r = self.static_isinst(self.type_of(st, x), names)
            if r is not None:
                return r
            if st.facts.get(app("isnone", x)) is True:
                return "NoneType" in names
            for f, b in st.facts.items():
                if f[0] != "app":
                    continue
                if f[1] == "isinst" and f[2][0] == x:
                    kn = f[2][1]
                    if b and kn <= names:
                        return True
                    if not b and names <= kn:
                        return False
                    if b:
                        # every alternative is incompatible with the known one?
                        if all(self.disjoint(n, m) for n in names for m in kn):
                            return False
                elif f[1] == "eq" and b and app("type", x) in f[2]:
                    o = f[2][1] if f[2][0] == app("type", x) else f[2][0]
                    n = self.class_names(o)
                    if n is not None and len(n) == 1:
                        t = next(iter(n))
                        r = self.static_isinst(("cls", t) if ":" in t else ("b", t), names)
                        if r is not None:
                            return r
            return None
        if op == "eq":
            x, y = a
            if x == y:
                return True
            if uniq(x) and (uniq(y) or is_const(y)) or uniq(y) and is_const(x):
                return False
            if is_const(x) and is_const(y):
                return cval(x) == cval(y) and (type(cval(x)) is type(cval(y)) or not isinstance(cval(x), (str, type(None))))
            if x[0] == y[0] and x[0] in ("tuple", "list") and all(s[0] == "el" for s in x[1] + y[1]):
                if len(x[1]) != len(y[1]):
                    return False
                ds = [self.decide(st, self.mk_eq(i[1], j[1])) for i, j in zip(x[1], y[1])]
                if any(d is False for d in ds):
                    return False
                if all(d is True for d in ds):
                    return True
            for u, c in ((x, y), (y, x)):
                if u[0] in ("tuple", "list", "dict", "set") and (uniq(c) or is_const(c)):
                    return False
            if x[0] in ("cls", "ext", "fn") and y[0] in ("cls", "ext", "fn"):
                if x[0] == "ext" and y[0] == "ext":
                    bx, by = x[1].startswith("builtins."), y[1].startswith("builtins.")
                    return x[1] == y[1] if bx and by else None
                return False
            if x[0] == "app" and x[1] == "type":
                t = self.type_of(st, x[2][0])
                n = self.class_names(y)
                if t is not None and n is not None and len(n) == 1:
                    return t[1] == next(iter(n))
                if n is not None and len(n) == 1:
                    for f, b in st.facts.items():
                        if f[0] == "app" and b and f[1] == "eq" and x in f[2]:
                            o = f[2][1] if f[2][0] == x else f[2][0]
                            m = self.class_names(o)
                            if m is not None and m != n:
                                return False
                        if f[0] == "app" and f[1] == "isinst" and f[2][0] == x[2][0]:
                            if not b and n <= f[2][1]:
                                return False
            for u, c in ((x, y), (y, x)):
                if is_const(c):
                    if u in st.binds:
                        return cval(st.binds[u]) == cval(c)
                    if is_int(c) and u in st.ints:
                        lo, hi, ex = st.ints[u]
                        v = cval(c)
                        if (lo is not None and v < lo) or (hi is not None and v > hi) or v in ex:
                            return False
                        if lo is not None and lo == hi == v:
                            return True
                    if is_int(c) and u[0] == "app" and u[1] == "len" and cval(c) < 0:
                        return False
                    if cval(c) is None:
                        return self.decide(st, app("isnone", u))
            return None
        if op == "lt":
            x, y = a
            if is_const(x) and is_const(y):
                try:
                    return cval(x) < cval(y)
                except TypeError:
                    return None
            if x == y:
                return False
            lx, hx = self.bounds(st, x)
            ly, hy = self.bounds(st, y)
            if hx is not None and ly is not None and hx < ly:
                return True
            if lx is not None and hy is not None and lx >= hy:
                return False
            if st.facts.get(app("lt", y, x)) is True:
                return False
            return None
        if op == "truth":
            return self.truth_static(st, a[0])
        if op == "in":
            x, y = a
            if self.objects and is_const(x) and is_const(y) and isinstance(cval(x), str) and isinstance(cval(y), str):
                return cval(x) in cval(y)
            if y[0] in ("tuple", "list", "set"):
                segs = y[1]
                if not segs:
                    return False
                if all(s[0] == "el" for s in segs):
                    ds = [self.decide(st, self.mk_eq(x, s[1])) for s in segs]
                    if any(d is True for d in ds):
                        return True
                    if all(d is False for d in ds):
                        return False
            if y[0] == "dict" and all(s[0] == "kv" for s in y[1]):
                ds = [self.decide(st, self.mk_eq(x, s[1])) for s in y[1]]
                if any(d is True for d in ds):
                    return True
                if all(d is False for d in ds):
                    return False
            return None
        return None

    def same(self, st, x, y):
        """Are two values equal?  True / False / None."""
        if x == y:
            return True
        a, b = self.snap(st, x), self.snap(st, y)
        if self.objects and a and b and a[0] == b[0] == "obj" and a != b:
            # equality of objects of the program: by identity, or by (some of) their attributes
            if a[1] != b[1]:
                return None
            ci = self.p.classes.get(a[1])
            if ci is not None and x[0] == y[0] == "ref" and self.p.find_method(ci, "__eq__") is None:
                return False
            u, v = dict(a[2]), dict(b[2])
            if u and set(u) == set(v) and all(self.same(st, u[k], v[k]) is False for k in u):
                return False
            if x[0] == y[0] == "ref" and ci is not None:
                key = (a, b)
                if key not in self.eqs:
                    self.eqs[key] = None
                    fi = self.p.find_method(ci, "__eq__")
                    rs = self.call_func(st.fork(), fi, x, [("el", y)], [], fi.node, ("bm", x, fi.key))
                    if len(rs) == 1 and is_const(rs[0][1]):
                        self.eqs[key] = bool(cval(rs[0][1]))
                if self.eqs[key] is not None:
                    return self.eqs[key]
        return self.decide(st, self.mk_eq(a, b))

    def find(self, st, segs, v, key=1):
        """Index of the segment equal to v in a literal container: n, -1 (absent), None."""
        vague = False
        for i, s in enumerate(segs):
            if s[0] not in ("el", "kv"):
                return None
            d = self.same(st, s[key], v)
            if d:
                return None if vague else i
            if d is None:
                vague = True
        return None if vague else -1

    def dedupe(self, st, segs):
        """Elements of a set built from the segments."""
        out = []
        for s in segs:
            if s[0] == "el" and any(z[0] == "el" and self.same(st, z[1], s[1]) for z in out):
                continue
            out.append(s)
        return tuple(out)

    def literal(self, st, segs):
        """All elements are known and pairwise different (so a set has that many)."""
        if not all(s[0] in ("el", "kv") for s in segs):
            return False
        return all(self.same(st, a[1], b[1]) is False for i, a in enumerate(segs) for b in segs[:i])

    def disjoint(self, n, m):
        if n == m:
            return False
        bn = n in BUILTIN_TYPES
        bm = m in BUILTIN_TYPES
        if bn and bm:
            return not ({n, m} <= {"int", "bool"})
        if bn or bm:
            o = m if bn else n
            ci = self.p.classes.get(o)
            if ci is not None:
                return not any(x.endswith("." + (n if bn else m)) for x in self.p.ext_bases(ci))
            bo = getattr(builtins, o, None)
            if isinstance(bo, type):
                bb = getattr(builtins, n if bn else m, None)
                return isinstance(bb, type) and not issubclass(bb, bo)
            return False
        cn, cm = self.p.classes.get(n), self.p.classes.get(m)
        if cn and cm:
            return not (self.p.is_subclass(cn, m) or self.p.is_subclass(cm, n))
        return False

    def bounds(self, st, x):
        if is_int(x):
            return cval(x), cval(x)
        if x in st.binds and is_int(st.binds[x]):
            v = cval(st.binds[x])
            return v, v
        lo = hi = None
        if x in st.ints:
            lo, hi, ex = st.ints[x]
            if lo is not None:
                while lo in ex:
                    lo += 1
        if x[0] == "app" and x[1] == "len":
            lo = 0 if lo is None else max(lo, 0)
        if x[0] == "ix":
            lo = 0 if lo is None else max(lo, 0)
        return lo, hi

    def truth_static(self, st, v):
        if is_const(v):
            return bool(cval(v))
        k = v[0]
        if uniq(v):
            return True
        if k in ("tuple", "list", "dict", "set"):
            segs = v[1]
            if not segs:
                return False
            if any(s[0] in ("el", "kv") for s in segs):
                return True
            return None
        if k in ("cls", "fn", "bm", "clo", "single", "mod", "partial", "lcls"):
            return True
        if k == "obj":
            return True
        if k == "app":
            if v[1] in ("eq", "lt", "in", "isinst", "isnone", "not", "truth"):
                return self.decide(st, v)
            if v[1] == "len":
                return self.decide(st, app("lt", const(0), v))
        if v in st.binds:
            return bool(cval(st.binds[v]))
        if st.facts.get(app("isnone", v)) is True:
            return False
        if v in st.ints:
            lo, hi = self.bounds(st, v)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return True
        if st.types.get(v, ("",))[0] == "cls":
            return True
        if k == "res" and v[2].startswith("ext:builtins.") and self.ret_type(v[2]) is not None:
            return True
        return None

    def mk_eq(self, x, y):
        if is_const(x) and not is_const(y):
            x, y = y, x
        if is_const(y) and cval(y) is None:
            return app("isnone", x)
        if not is_const(y) and repr(y) < repr(x):
            x, y = y, x
        if y[0] == "app" and y[1] == "type" and not (x[0] == "app" and x[1] == "type"):
            x, y = y, x
        return app("eq", x, y)

    def norm_atom(self, st, v):
        """Boolean term of a value used as a condition -> (atom, polarity)."""
        if v[0] == "ref":
            v = self.snap(st, v)
        if v[0] == "app":
            if v[1] == "not":
                a, p = self.norm_atom(st, v[2][0])
                return a, not p
            if v[1] in ("eq", "lt", "in", "isinst", "isnone", "truth"):
                return v, True
            if v[1] == "len":
                return app("lt", const(0), v), True
            if v[1] == "bool":
                return self.norm_atom(st, v[2][0])
        if is_const(v):
            return v, True
        return app("truth", v), True

    def assume_raw(self, st, atom, val):
        """Add a fact; False if it contradicts what is known."""
        d = self.decide(st, atom)
        if d is not None:
            return d == val
        st.facts[atom] = val
        if atom[0] == "app":
            op, a = atom[1], atom[2]
            if op == "eq":
                x, y = a
                if is_const(y) and val:
                    st.binds[x] = y
                if is_int(y):
                    lo, hi, ex = st.ints.get(x, (None, None, frozenset()))
                    v = cval(y)
                    st.ints[x] = (v, v, ex) if val else (lo, hi, ex | {v})
                    self.tighten(st, x)
            elif op == "lt":
                x, y = a
                if is_int(y):
                    lo, hi, ex = st.ints.get(x, (None, None, frozenset()))
                    v = cval(y)
                    if val:
                        hi = v - 1 if hi is None else min(hi, v - 1)
                    else:
                        lo = v if lo is None else max(lo, v)
                    st.ints[x] = (lo, hi, ex)
                    self.tighten(st, x)
                elif is_int(x):
                    lo, hi, ex = st.ints.get(y, (None, None, frozenset()))
                    v = cval(x)
                    if val:
                        lo = v + 1 if lo is None else max(lo, v + 1)
                    else:
                        hi = v if hi is None else min(hi, v)
                    st.ints[y] = (lo, hi, ex)
                    self.tighten(st, y)
            elif op == "isnone" and val:
                st.binds[a[0]] = NONE
            elif op == "truth" and a[0][0] == "app" and a[0][1] == "any" and False:
                pass
        return True

    def tighten(self, st, x):
        lo, hi, ex = st.ints[x]
        if lo is not None:
            while lo in ex:
                lo += 1
        if hi is not None:
            while hi in ex:
                hi -= 1
        st.ints[x] = (lo, hi, ex)
        if lo is not None and lo == hi:
            st.binds.setdefault(x, const(lo))

    def assume(self, st, v, val, node=None):
        """Fork-free assumption of a condition value; returns False if infeasible."""
        atom, pol = self.norm_atom(st, v)
        if is_const(atom):
            return bool(cval(atom)) == (val == pol)
        d = self.decide(st, atom)
        want = val == pol
        if d is not None:
            return d == want
        if not self.assume_raw(st, atom, want):
            return False
        st.push(Ev("assume", data=atom, res=want, node=node, fn=self.curfn(), stack=tuple(self.stack)))
        return True

    def curfn(self):
        return self.stack[-1] if self.stack else None

    # ------------------------------------------------------------------ functions
    def exec_function(self, st, fi, bound, parent=None, module=None, cls=None, recv=None):
        self.nfid += 1
        fid = self.nfid
        fr = Frame(fid, fi, module or fi.module, parent, fi.node, cls or fi.cls)
        self.frames[fid] = fr
        st.frames[fid] = dict(bound)
        args = fi.node.args.posonlyargs + fi.node.args.args
        fr.self_name = args[0].arg if args and fi.kind in ("method", "property") else None
        self.analysed.add(fi.key)
        self.stack.append(fi.key)
        self.fstack.append(fr)
        try:
            if isinstance(fi.node, ast.Lambda):
                self.sinks.append([])
                rs = self.eval(fi.node.body, st)
                sink = self.sinks.pop()
                res = [(s, ("ret", v)) for s, v in rs] + [(s, ("raise", e)) for s, e in sink]
            else:
                res = self.exec_block(fi.node.body, st)
        finally:
            self.fstack.pop()
            self.stack.pop()
        out = []
        for s, o in res:
            if o[0] == "next":
                o = ("ret", NONE)
            out.append((s, o))
        if len(out) > self.max_paths:
            raise AnalysisError(f"too many paths in {fi.key}: {len(out)}")
        return out

    def exec_block(self, body, st):
        cur = [st]
        done = []
        for s in body:
            nxt = []
            for c in cur:
                base = c.trace
                snapst = c
                rs = self.exec_stmt(s, c.fork() if len(body) > 1 else c)
                normal = [x for x, o in rs if o[0] == "next"]
                done.extend((x, o) for x, o in rs if o[0] != "next")
                if len(normal) > 1:
                    normal = self.merge(snapst, base, normal)
                nxt.extend(normal)
            cur = nxt
            if len(cur) + len(done) > self.max_paths:
                raise AnalysisError(f"too many paths ({len(cur)}) in {self.curfn()} at line {s.lineno}")
            if not cur:
                break
        return done + [(c, ("next",)) for c in cur]

    def merge(self, before, base, states):
        """Join states that differ only in the assumptions made since ``base``."""
        groups = {}
        order = []
        for s in states:
            evs = tuple(e for e in s.events(base) if e.kind != "assume")
            key = (
                tuple(id(e) for e in evs) if evs else (),
                repr(sorted((k, repr(v)) for f, d in s.frames.items() for k, v in d.items() if f in before.frames)),
                repr(sorted((k, repr(v)) for k, v in s.heap.items())),
                repr(sorted((repr(k), repr(v)) for k, v in s.overlay.items())),
            )
            if evs:
                key = (id(s),)
            if key not in groups:
                order.append(key)
            groups.setdefault(key, []).append(s)
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            m = g[0].fork()
            m.trace = base
            m.facts = {a: b for a, b in g[0].facts.items() if all(x.facts.get(a, None) is b for x in g[1:])}
            m.binds = {a: b for a, b in g[0].binds.items() if all(x.binds.get(a) == b for x in g[1:])}
            ints = {}
            for a in g[0].ints:
                if all(a in x.ints for x in g[1:]):
                    vs = [x.ints[a] for x in g]
                    lo = None if any(v[0] is None for v in vs) else min(v[0] for v in vs)
                    hi = None if any(v[1] is None for v in vs) else max(v[1] for v in vs)
                    ex = frozenset.intersection(*[v[2] for v in vs])
                    ints[a] = (lo, hi, ex)
            m.ints = ints
            m.n = max(x.n for x in g)
            out.append(m)
        return out

    # ------------------------------------------------------------------ statements
    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > 3_000_000:
            raise AnalysisError("analysis budget exceeded")
        self.sinks.append([])
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(s).__name__} at {s._mod.rel}:{s.lineno}")
        res = m(s, st)
        sink = self.sinks.pop()
        return res + [(x, ("raise", e)) for x, e in sink]

    def nexts(self, sts):
        return [(s, ("next",)) for s in sts]

    def x_Pass(self, s, st):
        return [(st, ("next",))]

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, ("next",))]
        return self.nexts(x for x, _ in self.eval(s.value, st))

    def x_Assert(self, s, st):
        out = []
        for x, b in self.cond(s.test, st):
            if b:
                out.append((x, ("next",)))
            else:
                v = self.new_exc(x, "builtins.AssertionError")
                out.append((x, ("raise", v)))
        return out

    def x_Global(self, s, st):
        return [(st, ("next",))]

    x_Nonlocal = x_Global

    def x_Import(self, s, st):
        fid = self.fstack[-1].fid
        for a in s.names:
            if a.asname:
                st.setvar(fid, a.asname, self.res_value(self.p.resolve_dotted(a.name), st))
            else:
                top = a.name.split(".")[0]
                st.setvar(fid, top, self.res_value(self.p.resolve_dotted(top)))
        return [(st, ("next",))]

    def x_ImportFrom(self, s, st):
        fr = self.fstack[-1]
        base = self.p._from_base(fr.module, s)
        for a in s.names:
            st.setvar(fr.fid, a.asname or a.name, self.res_value(self.p.resolve_from(base, a.name), st))
        return [(st, ("next",))]

    def x_FunctionDef(self, s, st):
        v = self.mk_closure(s, st, s.name)
        # decorators other than the transparent ones are applied
        vals = [(st, v)]
        for d in reversed(s.decorator_list):
            dn = d.func if isinstance(d, ast.Call) else d
            from .program import dotted
            n = dotted(dn) or ""
            if n.split(".")[-1] in ("wraps", "staticmethod", "classmethod", "property", "lru_cache", "cache"):
                continue
            nv = []
            for x, val in vals:
                for y, dv in self.eval(d, x):
                    nv.extend(self.call_value(y, dv, [("el", val)], [], d))
            vals = nv
        for x, val in vals:
            x.setvar(self.fstack[-1].fid, s.name, val)
        return self.nexts(x for x, _ in vals)

    x_AsyncFunctionDef = x_FunctionDef

    def mk_closure(self, node, st, name):
        fr = self.fstack[-1]
        key = f"{fr.fi.key}.<locals>.{name}"
        fi = FuncInfo(key, node, fr.module)
        self.nodes[id(node)] = (fi, node)
        return ("clo", id(node), fr.fid, name)

    def x_ClassDef(self, s, st):
        fr = self.fstack[-1]
        key = f"{fr.module.name}:{fr.fi.key.split(':')[-1]}.<locals>.{s.name}#{fr.fid}"
        self.lcls_parent[key] = fr.fid
        ci = self.local_cls.get(key)
        if ci is None:
            ci = ClassInfo(key, s, fr.module)
            self.p.fill_class(ci)
            ci.bases = []
            for b in s.bases:
                r = self.p.resolve_expr(fr.module, b)
                if r and r[0] == "class":
                    ci.bases.append(r[1])
            self.local_cls[key] = ci
        st.setvar(fr.fid, s.name, ("lcls", key, fr.fid))
        return [(st, ("next",))]

    def x_Return(self, s, st):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return [(x, ("ret", v)) for x, v in self.eval(s.value, st)]

    def x_Break(self, s, st):
        return [(st, ("break",))]

    def x_Continue(self, s, st):
        return [(st, ("cont",))]

    def x_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Subscript):
                    for y, b in self.eval(t.value, x):
                        for z, i in self.eval_index(t.slice, y):
                            self.del_item(z, b, i, s)
                            nxt.append(z)
                elif isinstance(t, ast.Attribute):
                    for y, b in self.eval(t.value, x):
                        y.push(self.ev("delattr", y, t.attr, b, (), (), s))
                        y.overlay.pop((b, t.attr), None)
                        nxt.append(y)
                else:
                    nxt.append(x)
            cur = nxt
        return self.nexts(cur)

    def del_item(self, st, b, i, node):
        if b[0] == "ref" and st.heap[b[1]][0] in ("dict", "list"):
            kind, segs = st.heap[b[1]]
            if kind == "dict":
                n = self.find(st, segs, i)
                if n is not None and n >= 0:
                    st.heap[b[1]] = ("dict", segs[:n] + segs[n + 1:])
                    return
            elif all(s[0] == "el" for s in segs):
                l = list(segs)
                if is_int(i) and -len(l) <= cval(i) < len(l):
                    del l[cval(i)]
                    st.heap[b[1]] = ("list", tuple(l))
                    return
                if i[0] == "slice" and all(is_const(z) for z in i[1:]):
                    del l[slice(*[cval(z) for z in i[1:]])]
                    st.heap[b[1]] = ("list", tuple(l))
                    return
        if b[0] == "ref" and st.heap[b[1]][0] == "dict" and is_const(i):
            segs = st.heap[b[1]][1]
            if all(s[0] == "kv" and is_const(s[1]) for s in segs):
                st.heap[b[1]] = ("dict", tuple(s for s in segs if cval(s[1]) != cval(i)))
                return
        self.mutate(st, b, "__delitem__", (("el", i),), (), node)

    def x_Raise(self, s, st):
        if s.exc is None:
            fr = self.fstack[-1]
            v = fr.curexc[-1] if fr.curexc else ("exc", st.n, "?")
            return [(st, ("raise", v))]
        out = []
        for x, v in self.eval(s.exc, st):
            if v[0] in ("cls", "ext"):
                for y, w in self.call_value(x, v, [], [], s):
                    out.append((y, ("raise", w)))
            else:
                out.append((x, ("raise", v)))
        for x, o in out:
            x.push(self.ev("raise", x, self.exc_name(x, o[1]), o[1], (), (), s))
        return out

    def exc_name(self, st, v):
        if v[0] == "res":
            return v[2].replace("ext:", "").replace("builtins.", "")
        t = self.type_of(st, v)
        if t and t[0] == "cls":
            return t[1]
        if v[0] == "exc":
            return v[2]
        return "?"

    def new_exc(self, st, name):
        v = ("res", st.n, "ext:" + name)
        st.n += 1
        return v

    def x_If(self, s, st):
        out = []
        for x, b in self.cond(s.test, st):
            out.extend(self.exec_block(s.body if b else s.orelse, x) if (s.body if b else s.orelse) else [(x, ("next",))])
        return out

    def x_Assign(self, s, st):
        out = []
        for x, v in self.eval(s.value, st):
            cur = [x]
            for t in s.targets:
                nxt = []
                for y in cur:
                    nxt.extend(self.assign(y, t, v, s))
                cur = nxt
            out.extend(cur)
        return self.nexts(out)

    def x_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, ("next",))]
        out = []
        for x, v in self.eval(s.value, st):
            out.extend(self.assign(x, s.target, v, s))
        return self.nexts(out)

    def x_AugAssign(self, s, st):
        out = []
        op = type(s.op).__name__.lower()
        load = self.as_load(s.target)
        for x, a in self.eval(load, st):
            for y, b in self.eval(s.value, x):
                if a[0] == "ref" and y.heap[a[1]][0] in ("list", "set", "dict") and op in ("add", "bitor"):
                    # in-place extension
                    self.method_on_cell(y, a, "extend" if y.heap[a[1]][0] == "list" else "update", [("el", b)], [], s)
                    out.append(y)
                    continue
                if op == "add" and self.type_of(y, a) == ("b", "list") and a[0] != "ref":
                    self.mutate(y, a, "extend", (("el", b),), (), s)
                    out.append(y)
                    continue
                v = self.binop(y, op, a, b)
                out.extend(self.assign(y, s.target, v, s))
        return self.nexts(out)

    def as_load(self, t):
        if isinstance(t, ast.Name):
            n = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute):
            n = ast.Attribute(t.value, t.attr, ast.Load())
        elif isinstance(t, ast.Subscript):
            n = ast.Subscript(t.value, t.slice, ast.Load())
        else:
            return t
        ast.copy_location(n, t)
        n._mod = t._mod
        return n

    def assign(self, st, t, v, node):
        """Assign to a target; returns states."""
        if isinstance(t, ast.Name):
            fr = self.fstack[-1]
            if t.id in fr.globals_:
                base = ("mod", fr.module.name)
                st.push(self.ev("setattr", st, t.id, base, (("el", v),), (), node))
                st.overlay[(base, t.id)] = v
            elif t.id in fr.nonlocals:
                f = self.lookup_frame(st, t.id, fr.parent)
                if f is None:
                    raise AnalysisError(f"nonlocal {t.id}")
                st.setvar(f, t.id, v)
            else:
                st.setvar(fr.fid, t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.eval(t.value, st):
                self.set_attr(x, b, self.mangled(t.attr), v, node)
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.eval(t.value, st):
                for y, i in self.eval_index(t.slice, x):
                    self.set_item(y, b, i, v, node)
                    out.append(y)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                nxt = []
                for x in cur:
                    if isinstance(e, ast.Starred):
                        segs = self.segs_of(x, v)
                        tail = len(t.elts) - i - 1
                        if all(s[0] == "el" for s in segs):
                            mid = segs[i: len(segs) - tail]
                            val = x.alloc(("list", tuple(mid)))
                        else:
                            val = ("item", self.snap(x, v), ("slice", const(i), const(-tail) if tail else NONE, NONE))
                        nxt.extend(self.assign(x, e.value, val, node))
                    else:
                        idx = const(i) if not star or i < star[0] else const(i - len(t.elts))
                        for y, val in self.get_item(x, v, idx, node):
                            nxt.extend(self.assign(y, e, val, node))
                cur = nxt
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(st, t.value, v, node)
        raise AnalysisError(f"unsupported target {type(t).__name__}")

    def mangled(self, name):
        fr = self.fstack[-1] if self.fstack else None
        while fr is not None and fr.cls is None and fr.parent is not None:
            fr = self.frames[fr.parent]
        if fr is not None and fr.cls is not None:
            return mangle(fr.cls.name, name)
        return name

    def set_attr(self, st, b, name, v, node):
        if b[0] == "ref" and st.heap[b[1]][0] == "inst":
            c = st.heap[b[1]]
            d = dict(c[2])
            d[name] = v
            st.heap[b[1]] = ("inst", c[1], d)
            if self.stack and not self.stack[-1].endswith(".__init__"):
                st.push(self.ev("setattr", st, name, b, (("el", v),), (), node))
            return
        st.push(self.ev("setattr", st, name, b, (("el", v),), (), node))
        self.invalidate(st, ("attr", b, name))
        st.overlay[(b, name)] = v

    def invalidate(self, st, term):
        """Drop facts about a term whose value has changed."""
        for f in [f for f in st.facts if contains(f, term)]:
            del st.facts[f]
        for d in (st.binds, st.ints):
            for k in [k for k in d if contains(k, term)]:
                del d[k]
        for k in [k for k in st.overlay if contains(k[0], term)]:
            del st.overlay[k]

    def set_item(self, st, b, i, v, node):
        if b[0] == "ref":
            c = st.heap[b[1]]
            if self.objects and (b, "__cls__") in st.overlay:
                fi = self.p.find_method(self.p.classes[st.overlay[(b, "__cls__")][1]], "__setitem__")
                if fi is not None:
                    rs = self.call_value(st, ("bm", b, fi.key), [("el", i), ("el", v)], [], node)
                    if len(rs) == 1:
                        for a in State.__slots__:
                            setattr(st, a, getattr(rs[0][0], a))
                    return
            if c[0] == "dict":
                segs = c[1]
                if is_const(i):
                    new = tuple(s for s in segs if not (s[0] == "kv" and is_const(s[1]) and cval(s[1]) == cval(i)))
                else:
                    new = tuple(s for s in segs if not (s[0] == "kv" and (s[1] == i or self.same(st, s[1], i))))
                n = self.find(st, segs, i)
                if n is not None and n >= 0:
                    new = tuple(("kv", s[1], v) if j == n else s for j, s in enumerate(segs))
                    st.heap[b[1]] = ("dict", new)
                    return
                st.heap[b[1]] = ("dict", new + (("kv", i, v),))
                return
            if c[0] == "list":
                segs = list(c[1])
                if is_int(i) and all(s[0] == "el" for s in segs) and -len(segs) <= cval(i) < len(segs):
                    segs[cval(i)] = ("el", v)
                    st.heap[b[1]] = ("list", tuple(segs))
                    return
                vs = st.heap[v[1]] if v[0] == "ref" and v[1] in st.heap else v
                if i[0] == "slice" and vs[0] in ("list", "tuple") and (i[3] == NONE or is_int(i[3]) and cval(i[3]) == 1):
                    if i[1] in (NONE, const(0)) and i[2] == NONE:
                        st.heap[b[1]] = ("list", tuple(vs[1]))
                        return
                    if all(s[0] == "el" for s in segs) and all(x == NONE or is_int(x) for x in i[1:3]):
                        segs[slice(cval(i[1]), cval(i[2]))] = vs[1]
                        st.heap[b[1]] = ("list", tuple(segs))
                        return
                st.heap[b[1]] = ("list", c[1] + (("put", i, v),))
                return
            if c[0] == "inst" and self.objects:
                t = self.type_of(st, b)
                ci = self.p.classes.get(t[1]) if t and t[0] == "cls" else None
                fi = self.p.find_method(ci, "__setitem__") if ci else None
                if fi:
                    rs = self.call_value(st, ("bm", b, fi.key), [("el", i), ("el", v)], [], node)
                    if len(rs) == 1:
                        for a in State.__slots__:
                            setattr(st, a, getattr(rs[0][0], a))
                        return
        st.push(self.ev("setitem", st, None, b, (("el", i), ("el", v)), (), node))
        keep = {k: w for k, w in st.overlay.items() if k[0] == b and b[0] == "buf" and isinstance(k[1], tuple) and k[1][0] == "item" and self.apart(k[1][1], i)}
        self.invalidate_container(st, b)
        st.overlay.update(keep)
        st.overlay[(b, ("item", i))] = v

    def apart(self, i, j):
        """Are these two constant slices of a buffer disjoint?"""
        def ends(s):
            if s[0] == "slice" and is_int(s[1]) and is_int(s[2]):
                return cval(s[1]), cval(s[2])
        a, b = ends(i), ends(j)
        return bool(a and b and min(a + b) >= 0 and (a[1] <= b[0] or b[1] <= a[0]))

    def invalidate_container(self, st, b):
        for f in [f for f in st.facts if f[0] == "app" and f[1] in ("in", "truth", "lt", "eq", "isnone") and contains(f, b)]:
            del st.facts[f]
        for k in [k for k in st.overlay if k[0] == b and isinstance(k[1], tuple)]:
            del st.overlay[k]
        for d in (st.binds, st.ints):
            for k in [k for k in d if contains(k, b)]:
                del d[k]

    def mutate(self, st, b, meth, args, kw, node):
        ev = self.ev("mut", st, meth, b, tuple(args), tuple(kw), node)
        ev.res = ("res", st.n, "meth:" + meth)
        st.n += 1
        st.push(ev)
        self.invalidate_container(st, b)
        return ev.res

    def ev(self, kind, st, name, recv, args, kw, node, bound=None):
        return Ev(
            kind, name=name,
            recv=self.snap(st, recv) if recv is not None else None,
            args=self.snap_segs(st, args, 0), kw=self.snap_segs(st, kw, 0),
            node=node, fn=self.curfn(), stack=tuple(self.stack), prot=tuple(self.prot),
            bound={k: self.snap(st, v) for k, v in bound.items()} if bound is not None else None,
            data=recv,
        )

    # ---- try / with
    def x_Try(self, s, st):
        catches = any(self.catches_all(h) for h in s.handlers)
        self.prot.append((id(s), catches, bool(s.handlers), s.lineno))
        try:
            res = self.exec_block(s.body, st)
        finally:
            self.prot.pop()
        out = []
        for x, o in res:
            if o[0] == "raise" and s.handlers:
                out.extend(self.handle(s, x, o[1]))
            elif o[0] == "next" and s.orelse:
                out.extend(self.exec_block(s.orelse, x))
            else:
                out.append((x, o))
        if not s.finalbody:
            return out
        fin = []
        for x, o in out:
            for y, p in self.exec_block(s.finalbody, x):
                fin.append((y, o if p[0] == "next" else p))
        return fin

    def catches_all(self, h):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return any(isinstance(t, ast.Name) and t.id in ("Exception", "BaseException") for t in ts)

    def handle(self, s, st, exc):
        out = []
        cur = [st]
        for h in s.handlers:
            nxt = []
            for x in cur:
                m = self.match_handler(h, x, exc)
                if m is not False:
                    y = x.fork()
                    y.push(Ev("catch", name=ast.unparse(h.type) if h.type else "", data=exc, node=h, fn=self.curfn(), stack=tuple(self.stack)))
                    fr = self.fstack[-1]
                    if h.name:
                        y.setvar(fr.fid, h.name, exc)
                    fr.curexc.append(exc)
                    out.extend(self.exec_block(h.body, y))
                    fr.curexc.pop()
                if m is not True:
                    nxt.append(x)
            cur = nxt
            if not cur:
                break
        out.extend((x, ("raise", exc)) for x in cur)
        return out

    def match_handler(self, h, st, exc):
        """True: certainly caught, False: certainly not, None: maybe."""
        if h.type is None:
            return True
        names = []
        for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
            r = self.p.resolve_expr(self.fstack[-1].module, t)
            if r is None:
                return None
            names.append(r[1].key if r[0] == "class" else r[1])
        n = self.exc_name(st, exc)
        bx = getattr(builtins, n, None)
        res = False
        for t in names:
            bt = getattr(builtins, t.replace("builtins.", ""), None)
            if n == t or t in ("builtins.Exception", "builtins.BaseException"):
                if isinstance(bx, type) and isinstance(bt, type) and not issubclass(bx, bt):
                    continue
                return True
            if isinstance(bx, type) and isinstance(bt, type):
                if issubclass(bx, bt):
                    return True
                continue
            res = None
        return res

    def x_With(self, s, st):
        return self.with_items(s, s.items, st)

    x_AsyncWith = x_With

    def with_items(self, s, items, st):
        if not items:
            return self.exec_block(s.body, st)
        it = items[0]
        out = []
        for x, cm in self.eval(it.context_expr, st):
            t = self.type_of(x, cm)
            ci = self.p.classes.get(t[1]) if t and t[0] == "cls" else None
            en = self.p.find_method(ci, "__enter__") if ci else None
            ex = self.p.find_method(ci, "__exit__") if ci else None
            if en and ex:
                entered = self.call_value(x, ("bm", cm, en.key), [], [], s)
            else:
                y = x
                y.push(self.ev("enter", y, self.callee_name(y, cm), cm, (), (), s))
                entered = [(y, app("entered", self.snap(y, cm)))]
            for y, v in entered:
                ys = self.assign(y, it.optional_vars, v, s) if it.optional_vars is not None else [y]
                for z in ys:
                    self.prot.append((id(s), False, False, s.lineno))
                    res = self.with_items(s, items[1:], z)
                    self.prot.pop()
                    for w, o in res:
                        if en and ex:
                            given = [("el", NONE)] * 3
                            if o[0] == "raise" and self.objects:
                                given = [("el", ("sym", "!exc_type")), ("el", o[1]), ("el", ("sym", "!traceback"))]
                            for q, _ in self.call_value(w, ("bm", cm, ex.key), given, [], s):
                                out.append((q, o))
                        else:
                            w.push(self.ev("exit", w, self.callee_name(w, cm), cm, (), (), s))
                            out.append((w, o))
        return out

    # ---- loops
    def x_For(self, s, st):
        out = []
        for x, it in self.eval(s.iter, st):
            out.extend(self.iterate(x, it, lambda y, v: self.assign(y, s.target, v, s), s.body, s, s.orelse))
        return out

    x_AsyncFor = x_For

    def seg_domains(self, st, it):
        """Split an iterable into segments to loop over: ('el',v) or ('gen',dom,elemfn)."""
        segs = self.segs_of(st, it)
        out = []
        for s in segs:
            if s[0] == "el":
                out.append(s)
            elif s[0] == "splat":
                out.append(("gen", s[1], None))
            elif s[0] == "for":
                out.append(("gen", s[1], s[2]))
            else:
                out.append(("gen", ("sym", "?" + str(s[0])), None))
        return out

    def segs_of(self, st, v):
        """Segments of the elements an iterable yields."""
        k = v[0]
        if k in ("tuple", "list", "set"):
            return v[1]
        if k == "dict":
            return self.dict_keys(v[1])
        if k == "ref":
            c = st.heap[v[1]]
            if c[0] in ("list", "set"):
                if any(s[0] in ("put", "havoc") for s in c[1]):
                    return self.norm_puts(st, c[1], v)
                return c[1]
            if c[0] == "dict":
                return self.dict_keys(c[1])
            return (("splat", v),)
        if k == "c" and v[1] == "str" and len(v[2]) == 0:
            return ()
        if k == "app":
            op, a = v[1], v[2]
            if op in ("keys", "items", "values") and a[0][0] in ("ref", "dict"):
                segs = st.heap[a[0][1]][1] if a[0][0] == "ref" else a[0][1]
                return self.dict_view(segs, op)
            if op == "enumerate":
                segs = self.segs_of(st, a[0])
                start = a[1] if len(a) > 1 else const(0)
                if all(s[0] == "el" for s in segs) and is_int(start):
                    return tuple(
                        ("el", ("tuple", (("el", const(i + cval(start))), ("el", s[1]))))
                        for i, s in enumerate(segs)
                    )
                return (("splat", v),)
            if op == "zip":
                ss = [self.segs_of(st, x) for x in a]
                conc = [all(s[0] == "el" for s in x) for x in ss]
                if ss and any(conc):
                    n = min(len(x) for x, c in zip(ss, conc) if c)
                    rows = []
                    for i in range(n):
                        row = []
                        for x, sg, c in zip(a, ss, conc):
                            row.append(("el", sg[i][1] if c else ("item", self.snap(st, x), const(i))))
                        rows.append(("el", ("tuple", tuple(row))))
                    return tuple(rows)
                return (("splat", v),)
            if op == "range" and all(is_int(x) for x in a):
                r = range(*[cval(x) for x in a])
                if len(r) <= (8 if self.unroll else 4):
                    return tuple(("el", const(i)) for i in r)
            if op == "sorted" or op == "reversed":
                segs = self.segs_of(st, a[0])
                if not segs:
                    return ()
            if op == "iter":
                return self.segs_of(st, a[0])
        return (("splat", v),)

    def norm_puts(self, st, segs, v):
        """[None]*n followed by indexed stores of every index in a loop."""
        r = norm_put_segs(segs)
        if r is not None:
            return r
        return (("splat", self.snap(st, v)),)

    def dict_keys(self, segs):
        return self.dict_view(segs, "keys")

    def dict_view(self, segs, op):
        out = []
        for s in segs:
            if s[0] == "kv":
                out.append(("el", {"keys": s[1], "values": s[2], "items": ("tuple", (("el", s[1]), ("el", s[2])))}[op]))
            elif s[0] == "dsplat":
                out.append(("splat", app(op, s[1])))
            elif s[0] == "for":
                cases = []
                for fs, ss in s[2]:
                    cases.append((fs, self.dict_view(ss, op)))
                out.append(("for", s[1], tuple(cases)))
            else:
                out.append(s)
        return tuple(out)

    def dom_elem(self, st, dom, ix):
        """Generic element of a domain and its canonical domain."""
        if dom[0] == "app":
            op, a = dom[1], dom[2]
            if op == "enumerate":
                d, e = self.dom_elem_seg(st, a[0], ix)
                start = a[1] if len(a) > 1 else const(0)
                i = ix if start == const(0) else app("add", ix, start)
                return d, ("tuple", (("el", i), ("el", e)))
            if op == "zip":
                es, ds = [], []
                for x in a:
                    d, e = self.dom_elem_seg(st, x, ix)
                    es.append(("el", e))
                    ds.append(d)
                d = ds[0] if all(y == ds[0] for y in ds) else app("zip", *ds)
                return d, ("tuple", tuple(es))
            if op == "range":
                if len(a) == 1:
                    n = a[0]
                    if n[0] == "app" and n[1] == "len":
                        return self.canon_dom(st, n[2][0]), ix
                    return dom, ix
                if len(a) == 2 and a[0] == const(0):
                    return self.dom_elem(st, app("range", a[1]), ix)
                return dom, app("add", a[0], ix)
            if op == "items":
                k = app("keyat", a[0], ix)
                return app("keys", a[0]), ("tuple", (("el", k), ("el", ("item", a[0], k))))
            if op == "keys":
                return dom, app("keyat", a[0], ix)
            if op == "values":
                return app("keys", a[0]), ("item", a[0], app("keyat", a[0], ix))
            if op in ("iter", "copylist"):
                return self.dom_elem_seg(st, a[0], ix)
        ty = self.type_of(st, dom)
        if ty == ("b", "dict"):
            return app("keys", dom), app("keyat", dom, ix)
        return dom, ("item", dom, ix)

    def canon_dom(self, st, v):
        segs = self.segs_of(st, v)
        if len(segs) == 1 and segs[0][0] in ("splat", "for"):
            d = segs[0][1]
            if d != v and segs[0][0] == "splat":
                return self.dom_elem(st, d, ("ix", -1))[0]
            if segs[0][0] == "for" and all(len(ss) == 1 for _, ss in segs[0][2]):
                return d
        return self.snap(st, v)

    def dom_elem_seg(self, st, v, ix):
        segs = self.segs_of(st, v)
        if len(segs) == 1:
            s = segs[0]
            if s[0] == "splat":
                return self.dom_elem(st, s[1], ix)
            if s[0] == "for" and len(s[2]) == 1 and len(s[2][0][1]) == 1 and s[2][0][1][0][0] == "el":
                n = self.for_bix(s)
                return s[1], subst(s[2][0][1][0][1], n, ix)
            if s[0] == "for" and all(len(ss) == 1 and ss[0][0] == "el" for _, ss in s[2]):
                # several alternatives: one element each, so the domain is preserved
                return s[1], ("item", self.snap(st, v), ix)
        return self.snap(st, v), ("item", self.snap(st, v), ix)

    def for_bix(self, s):
        return ("bix", self.for_depth(s))

    def for_depth(self, s):
        return bix_depth(s[2]) if bix_depth(s[2]) else 1

    def iterate(self, st, it, bind, body, node, orelse, is_comp=None):
        """Execute ``body`` for every element of ``it``; bind(state, value) -> states."""
        doms = self.seg_domains(st, it)
        cur = [st]
        out = []
        runbody = is_comp or (lambda y: self.exec_block(body, y))
        broke = []
        for d in doms:
            nxt = []
            for x in cur:
                if d[0] == "el":
                    for y in bind(x.fork(), d[1]):
                        for z, o in runbody(y):
                            if o[0] in ("next", "cont"):
                                nxt.append(z)
                            elif o[0] == "break":
                                broke.append(z)
                            else:
                                out.append((z, o))
                else:
                    a, b, c = self.generic_loop(x, d, bind, runbody, node)
                    nxt.extend(a)
                    broke.extend(b)
                    out.extend(c)
            cur = nxt
            if len(cur) + len(out) > self.max_paths:
                raise AnalysisError(f"too many paths in loop at {node._mod.rel}:{node.lineno}")
        fin = []
        for x in cur:
            fin.extend(self.exec_block(orelse, x) if orelse else [(x, ("next",))])
        fin.extend((x, ("next",)) for x in broke)
        return fin + out

    def changed(self, a, b, L):
        """What differs between the state before an iteration and after it."""
        ch_vars, ch_heap, ch_ov = set(), {}, set()
        for fid, d in a.frames.items():
            e = b.frames.get(fid)
            if e is d or e is None:
                continue
            for n, v in d.items():
                if e.get(n) != v:
                    ch_vars.add((fid, n))
            for n in e:
                if n not in d:
                    ch_vars.add((fid, n, "new"))
        for addr, c in a.heap.items():
            e = b.heap.get(addr)
            if e != c:
                app_only = (
                    c[0] in ("list", "set", "dict") and e is not None and e[0] == c[0]
                    and e[1][: len(c[1])] == c[1]
                )
                ch_heap[addr] = "append" if app_only else "havoc"
        for k, v in b.overlay.items():
            if a.overlay.get(k) != v and not self.fresh(k, a.n, L):
                ch_ov.add(k)
        for k in a.overlay:
            if k not in b.overlay:
                ch_ov.add(k)
        return ch_vars, ch_heap, ch_ov

    def fresh(self, k, n, L):
        """Does an overlay key mention a value that exists only within the iteration?"""
        for t in subterms(k):
            if t and t[0] == "res" and isinstance(t[1], int) and t[1] >= n:
                return True
            if t and t[0] == "ix" and t[1] >= L:
                return True
        return False

    def generic_loop(self, st, d, bind, runbody, node, cond=None):
        """Returns (exhausted states, break states, other outcomes)."""
        self.nloop += 1
        L = self.nloop
        ix = ("ix", L)
        self.loop_depth += 1
        saved_sinks = self.sinks
        hv, hh, ho = set(), {}, set()
        induct = {}
        self.acc = getattr(self, "acc", {})
        self.acc[L] = {}
        try:
            for attempt in range(8):
                self.sinks = saved_sinks + [[]]
                entry = st.fork()
                entry.trace = None
                self.havoc(entry, L, hv, hh, ho, induct)
                work = entry.fork()
                res = []
                if cond is not None:
                    starts = []
                    exits = []
                    for y, b in cond(work):
                        (starts if b else exits).append(y)
                    dom = ("while", L)
                else:
                    exits = []
                    dom = d[1]
                    starts = self.bind_elem(work, d, ix, bind)
                    dom = self.loop_dom(work, d, ix)
                for y in starts:
                    res.extend(runbody(y))
                res.extend((x, ("raise", e)) for x, e in self.sinks[-1])
                nv, nh, no = set(), {}, set()
                conts = [x for x, o in res if o[0] in ("next", "cont")]
                for x in conts:
                    a, b, c = self.changed(entry, x, L)
                    nv |= a
                    for k, m in b.items():
                        nh[k] = "havoc" if nh.get(k) == "havoc" or m == "havoc" else m
                    no |= c
                stable = True
                for v in nv:
                    if v not in hv:
                        hv.add(v)
                        stable = False
                for k, m in nh.items():
                    if hh.get(k) != m and hh.get(k) != "havoc":
                        hh[k] = m
                        stable = False
                for k in no:
                    if k not in ho:
                        ho.add(k)
                        stable = False
                # variables that accumulate by rebinding
                for v in list(hv):
                    if len(v) != 2 or not conts:
                        continue
                    if attempt == 0 or v in self.acc[L]:
                        k = self.acc_kind(entry, conts, v)
                        if k != self.acc[L].get(v):
                            if k and attempt == 0:
                                self.acc[L][v] = k
                            else:
                                self.acc[L].pop(v, None)
                            stable = False
                # induction variables
                if attempt == 0:
                    for v in list(hv):
                        if len(v) == 2 and self.is_induction(st, conts, entry, v):
                            induct[v] = ix
                            stable = False
                else:
                    for v in list(induct):
                        if not all(x.frames[v[0]].get(v[1]) == app("add", ix, const(1)) for x in conts):
                            del induct[v]
                            stable = False
                if stable:
                    break
            else:
                raise AnalysisError(f"loop at {node._mod.rel}:{node.lineno} did not stabilise")
        finally:
            self.sinks = saved_sinks
            self.loop_depth -= 1
        # while i < len(X): a counted loop
        if cond is not None and induct:
            for y in starts:
                for e in y.events():
                    if e.kind == "assume" and e.res and e.data[0] == "app" and e.data[1] == "lt" and e.data[2][0] == ix:
                        b = e.data[2][1]
                        dom = self.canon_dom(st, b[2][0]) if b[0] == "app" and b[1] == "len" else app("range", b)
        # collect
        paths = []
        brk, others = [], []
        for x, o in res:
            evs = x.events()
            if o[0] in ("next", "cont"):
                paths.append(Path(evs, "next", None, x))
            elif o[0] == "break":
                paths.append(Path(evs, "break", None, x))
                brk.append((x, evs))
            else:
                paths.append(Path(evs, o[0], self.snap(x, o[1]) if len(o) > 1 and o[1] else None, x))
                others.append((x, evs, o))
        lev = Ev("loop", dom=self.snap(st, dom), paths=paths, node=node, fn=self.curfn(), stack=tuple(self.stack), prot=tuple(self.prot), data=ix)
        self._lev = lev
        conts = [(x, e) for (x, o), e in zip(res, [p.events for p in paths]) if o[0] in ("next", "cont")]
        interesting = any(e.kind != "assume" for p in paths for e in p.events) or brk or others

        def after(base):
            z = base
            z.trace = st.trace
            return z

        # exhausted
        done = []
        if cond is None:
            z = st.fork()
            self.havoc(z, L, hv, hh, ho, {}, final=True, conts=[x for x, _ in conts], dom=dom, ix=ix, entry=entry)
            if interesting or hv:
                z.push(lev)
            z.n = max([z.n] + [x.n for x, _ in res])
            done.append(z)
        else:
            for y in exits:
                z = st.fork()
                self.havoc(z, L, hv, hh, ho, induct, final=True, conts=[x for x, _ in conts], dom=dom, ix=ix, entry=entry)
                z.push(lev)
                ok = True
                for e in y.events():
                    if e.kind == "assume":
                        if not self.assume(z, e.data, e.res, e.node):
                            ok = False
                    else:
                        z.push(e)
                if ok:
                    z.n = max([z.n] + [x.n for x, _ in res])
                    done.append(z)
        for z in done:
            for x, _ in conts:
                for k in x.overlay:
                    if self.fresh(k, st.n, L) and not isinstance(k[1], str):
                        # some element of a container known outside the loop was written
                        self.invalidate_container(z, k[0])
        broke = []
        for x, evs in brk:
            z = x.fork()
            z.trace = st.trace
            z.push(lev)
            for e in evs:
                z.push(e)
            broke.append(z)
        outs = []
        for x, evs, o in others:
            z = x.fork()
            z.trace = st.trace
            z.push(lev)
            for e in evs:
                z.push(e)
            if o[0] == "raise":
                outs.append((z, o))
            else:
                outs.append((z, o))
        return done, broke, outs

    def acc_kind(self, entry, conts, v):
        """'tuple'/'list' if every iteration rebinds the variable to itself plus something."""
        def seq(x, val):
            if val is None:
                return None
            if val[0] == "tuple":
                return "tuple", val[1]
            if val[0] == "ref" and x.heap.get(val[1], (None,))[0] == "list":
                return "list", x.heap[val[1]][1]
            return None
        e0 = entry.frames[v[0]].get(v[1])
        a = seq(entry, e0)
        if a is None:
            return None
        for x in conts:
            b = seq(x, x.frames[v[0]].get(v[1]))
            if b is None or b[0] != a[0] or b[1][: len(a[1])] != a[1]:
                return None
            if a[0] == "list" and x.frames[v[0]].get(v[1]) == e0:
                continue
        return a[0]

    def acc_cases(self, st, conts, added_of, dom, ix, kind):
        cases = []
        for x in conts:
            added = added_of(x)
            fs = tuple((e.data, e.res) for e in x.events() if e.kind == "assume")
            cases.append((fs, self.snap_segs(x, added, 0)))
        merged = {}
        for fs, ss in cases:
            merged.setdefault(ss, []).append(fs)
        cs = []
        for ss, fl in merged.items():
            common = tuple(f for f in fl[0] if all(f in g for g in fl[1:]))
            cs.append((common, ss))
        if len(cs) == 1 and len(merged) == 1 and all(len(fl) for fl in merged.values()):
            cs = [((), cs[0][1])]
        n = ("bix", bix_depth(tuple(cs)) + 1)
        cs = tuple(sorted((subst(x, ix, n) for x in cs), key=repr))
        seg = ("for", self.snap(st, dom), cs)
        # identity: [x for x in X] is X
        if kind in ("list", "set", "tuple") and cs == (((), (("el", ("item", seg[1], n)),)),):
            seg = ("splat", seg[1])
        elif kind == "dict" and len(cs) == 1 and not cs[0][0] and len(cs[0][1]) == 1:
            kv = cs[0][1][0]
            if kv[0] == "kv" and seg[1][0] == "app" and seg[1][1] == "keys":
                D = seg[1][2][0]
                k = app("keyat", D, n)
                if kv[1] == k and kv[2] == ("item", D, k):
                    seg = ("dsplat", D)
        if all(not ss for _, ss in cs):
            return None
        return seg

    def is_induction(self, st, conts, entry, v):
        if st.frames.get(v[0], {}).get(v[1]) != const(0):
            return False
        return bool(conts) and all(x.frames[v[0]].get(v[1]) == const(1) for x in conts)

    def loop_dom(self, st, d, ix):
        if d[2] is not None:
            return d[1]
        return self.dom_elem(st, d[1], ix)[0]

    def bind_elem(self, st, d, ix, bind):
        if d[2] is None:
            _, e = self.dom_elem(st, d[1], ix)
            out = []
            for y, v in self.split_alternatives(st, e):
                out.extend(bind(y, v))
            return out
        out = []
        n = ("bix", max([bix_depth(d[2])] + [1]))
        for fs, ss in d[2]:
            y = st.fork()
            ok = True
            for f, b in fs:
                if not self.assume(y, subst(f, n, ix), b):
                    ok = False
                    break
            if not ok:
                continue
            for s in ss:
                if s[0] == "el":
                    out.extend(bind(y.fork(), subst(s[1], n, ix)))
                elif s[0] == "for":
                    out.extend(bind(y.fork(), ("item", ("list", (subst(s, n, ix),)), ("ix", -2))))
                else:
                    out.extend(bind(y.fork(), ("item", subst(s[1], n, ix), ("ix", -2))))
        return out

    def split_alternatives(self, st, e):
        """Elements of zipped lists with alternatives are split into one state per alternative."""
        if e[0] == "tuple":
            sts = [(st, [])]
            for s in e[1]:
                nxt = []
                for x, acc in sts:
                    if s[0] == "el" and s[1][0] == "item" and s[1][1][0] in ("list", "tuple"):
                        for y, v in self.get_item(x, s[1][1], s[1][2], None):
                            nxt.append((y, acc + [("el", v)]))
                    else:
                        nxt.append((x, acc + [s]))
                sts = nxt
            return [(x, ("tuple", tuple(a))) for x, a in sts]
        if e[0] == "item" and e[1][0] in ("list", "tuple"):
            return self.get_item(st, e[1], e[2], None)
        return [(st, e)]

    def havoc(self, st, L, hv, hh, ho, induct, final=False, conts=(), dom=None, ix=None, entry=None):
        tag = "lvx" if final else "lv"
        for v in hv:
            if len(v) == 3:
                if final and v[0] in st.frames:
                    vals = {repr(x.frames[v[0]].get(v[1])) for x in conts if v[0] in x.frames}
                    st.setvar(v[0], v[1], (tag, L, v[1]))
                continue
            fid, n = v
            if v in induct and not final:
                st.setvar(fid, n, induct[v])
            elif self.acc[L].get(v):
                init = st.frames[fid].get(n)
                kind = self.acc[L][v]
                segs = init[1] if kind == "tuple" else st.heap[init[1]][1]
                if not final:
                    new = segs + (("prior", L),)
                else:
                    pre = len(segs) + 1

                    def added(x):
                        val = x.frames[fid].get(n)
                        return (val[1] if kind == "tuple" else x.heap[val[1]][1])[pre:]

                    seg = self.acc_cases(st, conts, added, dom, ix, kind)
                    new = segs + ((seg,) if seg is not None else ())
                st.setvar(fid, n, ("tuple", new) if kind == "tuple" else st.alloc(("list", new)))
            else:
                init = st.frames[fid].get(n)
                if final:
                    alts = []
                    for x in conts:
                        val = x.frames[fid].get(n)
                        if val is not None and val not in alts:
                            alts.append(val)
                    # the type survives when every alternative agrees
                    t = ("lvx", L, n, self.snap(st, init) if init is not None else None,
                         tuple(self.snap(x, a) for x, a in zip(conts, [x.frames[fid].get(n) for x in conts]) if a is not None))
                    tys = {self.type_of(x, x.frames[fid].get(n)) for x in conts if x.frames[fid].get(n) is not None} | (
                        {self.type_of(st, init)} if init is not None else set())
                    if len(tys) == 1 and None not in tys:
                        st.types[t] = next(iter(tys))
                    st.setvar(fid, n, t)
                else:
                    t = ("lv", L, n)
                    ty = self.type_of(st, init) if init is not None else None
                    if ty is not None and ty[1] in ("list", "dict", "set", "tuple", "str"):
                        st.types[t] = ty
                    st.setvar(fid, n, t)
        for addr, mode in hh.items():
            c = st.heap.get(addr)
            if c is None:
                continue
            if c[0] == "inst":
                d = dict(c[2])
                ch = set()
                for x in conts:
                    e = x.heap.get(addr)
                    if e and entry is not None:
                        for k, v in e[2].items():
                            if entry.heap[addr][2].get(k) != v:
                                ch.add(k)
                for k in (ch if final else d):
                    d[k] = (tag, L, k) if final or not isinstance(d.get(k), tuple) or d[k][0] != "ref" else d[k]
                st.heap[addr] = ("inst", c[1], d)
            elif mode == "append":
                if not final:
                    st.heap[addr] = (c[0], c[1] + (("prior", L),))
                else:
                    pre = len(c[1]) + 1
                    seg = self.acc_cases(st, conts, lambda x: x.heap[addr][1][pre:], dom, ix, c[0])
                    if seg is None:
                        continue
                    st.heap[addr] = (c[0], c[1] + (seg,))
            else:
                if c[0] == "dict":
                    st.heap[addr] = ("dict", (("dsplat", (tag, L, f"heap{addr}")),))
                else:
                    st.heap[addr] = (c[0], (("splat", (tag, L, f"heap{addr}")),))
        for k in ho:
            st.overlay.pop(k, None)
            self.invalidate(st, ("attr", k[0], k[1]) if not isinstance(k[1], tuple) else ("item", k[0], k[1][1]))
            if final:
                st.overlay[k] = ("lvx", L, str(k[1]))
            else:
                st.overlay[k] = ("lv", L, str(k[1]))

    def x_While(self, s, st):
        inf = isinstance(s.test, ast.Constant) and bool(s.test.value)
        fin0, outs0 = [], []
        cur = [st]
        if self.unroll and (not inf or self.unroll_inf):
            for _ in range(self.unroll):
                nxt = []
                for x in cur:
                    for y, b in ([(x, True)] if inf else self.cond(s.test, x)):
                        if not b:
                            fin0.extend(self.exec_block(s.orelse, y) if s.orelse else [(y, ("next",))])
                            continue
                        for z, o in self.exec_block(s.body, y):
                            if o[0] in ("next", "cont"):
                                nxt.append(z)
                            elif o[0] == "break":
                                fin0.append((z, ("next",)))
                            else:
                                outs0.append((z, o))
                cur = nxt
                if len(cur) + len(fin0) > self.max_paths:
                    raise AnalysisError(f"too many paths in loop at {s._mod.rel}:{s.lineno}")
            for x in cur:
                x.push(Ev("bound", name="unroll", node=s, fn=self.curfn(), stack=tuple(self.stack)))
                outs0.append((x, ("cut", NONE)))
            return fin0 + outs0
        done, broke, outs = self.generic_loop(
            st, None, None, lambda y: self.exec_block(s.body, y), s,
            cond=(lambda y: [(y, True)]) if inf else (lambda y: self.cond(s.test, y)),
        )
        fin = []
        for x in done:
            fin.extend(self.exec_block(s.orelse, x) if s.orelse else [(x, ("next",))])
        fin.extend((x, ("next",)) for x in broke)
        if inf and not broke:
            # provide the summary on a diverging path
            z = st.fork()
            lev = self._lev
            z.push(lev)
            outs = outs + [(z, ("div", NONE))]
        return fin + outs

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st):
        """Evaluate a condition: list of (state, bool)."""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for i, v in enumerate(e.values):
                nxt = []
                for x in cur:
                    for y, b in self.cond(v, x):
                        if b == is_and and i < len(e.values) - 1:
                            nxt.append(y)
                        else:
                            out.append((y, b))
                cur = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.cond(e.operand, st)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            cur = [(st, None)]
            out = []
            left = None
            for x, l in self.eval(e.left, st):
                cur2 = [(x, l)]
                for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
                    nxt = []
                    for y, lv in cur2:
                        for z, r in self.eval(c, y):
                            for w, b in self.branch(z, self.compare(z, op, lv, r, e), e):
                                if b and i < len(e.ops) - 1:
                                    nxt.append((w, r))
                                else:
                                    out.append((w, b))
                    cur2 = nxt
            return out
        out = []
        for x, v in self.eval(e, st):
            out.extend(self.branch(x, v, e))
        return out

    def branch(self, st, v, node):
        """Fork on the truth of a value."""
        # membership in a small literal collection: one alternative per element
        if v[0] == "app" and v[1] == "in" and v[2][1][0] in ("tuple", "list", "set"):
            segs = v[2][1][1]
            if segs and len(segs) <= 6 and all(s[0] == "el" for s in segs) and self.decide(st, v) is None:
                out = []
                cur = st
                for s in segs:
                    t = cur.fork()
                    a = self.mk_eq(v[2][0], s[1])
                    if self.assume(t, a, True, node):
                        out.append((t, True))
                    f = cur.fork()
                    if not self.assume(f, a, False, node):
                        return out
                    cur = f
                out.append((cur, False))
                return out
        atom, pol = self.norm_atom(st, v)
        d = self.decide(st, atom)
        if d is not None:
            return [(st, d == pol)]
        out = []
        a, b = st.fork(), st
        if self.assume(a, atom, True, node):
            out.append((a, pol))
        if self.assume(b, atom, False, node):
            out.append((b, not pol))
        return out

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported expression {type(e).__name__} at {e._mod.rel}:{e.lineno}")
        return m(e, st)

    def eval_many(self, es, st):
        """Evaluate a list of expressions; list of (state, [values])."""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for x, acc in cur:
                for y, v in self.eval(e, x):
                    nxt.append((y, acc + [v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        return [(st, const(e.value))]

    def lookup_frame(self, st, name, fid):
        while fid is not None:
            if name in st.frames.get(fid, {}):
                return fid
            fid = self.frames[fid].parent
        return None

    def e_Name(self, e, st):
        fr = self.fstack[-1] if self.fstack else None
        if fr is not None and e.id not in fr.globals_:
            f = self.lookup_frame(st, e.id, fr.fid)
            if f is not None:
                return [(st, st.frames[f][e.id])]
        return [(st, self.global_value(st, fr.module if fr else e._mod, e.id))]

    def global_value(self, st, m, name):
        if (("mod", m.name), name) in st.overlay:
            return st.overlay[(("mod", m.name), name)]
        r = self.p.resolve_name(m, name)
        if r is None:
            if hasattr(builtins, name):
                return ("ext", "builtins." + name)
            return ("sym", f"{m.name}.{name}")
        return self.res_value(r, st)

    def res_value(self, r, st=None):
        if r is None:
            return ("sym", "?")
        if r[0] == "func":
            return ("fn", r[1].key)
        if r[0] == "class":
            return ("cls", r[1].key)
        if r[0] == "module":
            return ("mod", r[1].name)
        if r[0] == "ext":
            return ("ext", r[1])
        if r[0] == "var":
            m, name = r[1], r[2]
            if st is not None and (("mod", m.name), name) in st.overlay:
                return st.overlay[(("mod", m.name), name)]
            bs = [b for b in m.names[name] if b[0] == "var"]
            if (m.name, name) not in self.p.globals_written() and len(bs) == 1 and bs[0][1] is not None:
                e = bs[0][1]
                if isinstance(e, ast.Constant):
                    return ("nc", f"{m.name}:{name}", const(e.value)) if e.value is not None else NONE
                if isinstance(e, (ast.Name, ast.Attribute)):
                    rr = self.p.resolve_expr(m, e)
                    if rr is not None and rr[0] in ("func", "class", "ext", "module"):
                        return self.res_value(rr, st)
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get_instance" and self.singletons:
                    rr = self.p.resolve_expr(m, e.func.value)
                    if rr and rr[0] == "class" and rr[1].key not in self.no_single:
                        return ("single", rr[1].key)
            return ("attr", ("mod", m.name), name)
        raise AnalysisError(str(r))

    def e_Attribute(self, e, st):
        out = []
        for x, b in self.eval(e.value, st):
            out.extend(self.get_attr(x, b, self.mangled(e.attr), e))
        return out

    def class_attr_mutable(self, name):
        if self._mut_class_attrs is None:
            self._mut_class_attrs = self.p.__dict__.get("_sa_mut_attrs")
        if self._mut_class_attrs is None:
            s = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    tg = []
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            tg += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                        tg = [n.target]
                    for t in tg:
                        if isinstance(t, ast.Attribute) and not (isinstance(t.value, ast.Name) and t.value.id == "self"):
                            s.add(t.attr)
            self._mut_class_attrs = self.p.__dict__["_sa_mut_attrs"] = s
        n = name
        if n.startswith("_") and "__" in n[1:]:
            n = "__" + n.split("__", 1)[1]
        return name in self._mut_class_attrs or n in self._mut_class_attrs

    def get_attr(self, st, b, name, node):
        k = b[0]
        if name == "__dict__" and k == "ref" and st.heap[b[1]][0] == "inst":
            return [(st, st.alloc(("dict", tuple(("kv", const(n), v) for n, v in st.heap[b[1]][2].items()))))]
        if (b, name) in st.overlay:
            return [(st, st.overlay[(b, name)])]
        if k == "mod":
            m = self.p.modules[b[1]]
            r = self.p.resolve_name(m, name)
            if r is None:
                sub = f"{m.name}.{name}"
                return [(st, ("mod", sub) if sub in self.p.modules else ("attr", b, name))]
            return [(st, self.res_value(r, st))]
        if self.objects and name == "__module__" and k in ("cls", "fn"):
            return [(st, const(b[1].partition(":")[0]))]
        if self.objects and name == "__module__" and k == "ext" and b[1].startswith("builtins."):
            return [(st, const("builtins"))]
        if self.objects and k == "cls" and name == "__class__":
            return [(st, ("ext", "builtins.type"))]
        if k == "ext":
            return [(st, ("ext", b[1] + "." + name))]
        if k == "cls":
            return [(st, self.class_attr(st, b, self.p.classes[b[1]], name))]
        if k == "lcls":
            return [(st, self.class_attr(st, b, self.local_cls[b[1]], name))]
        if k == "super":
            ci = self.p.classes.get(b[1]) or self.local_cls.get(b[1])
            for c in self.p.mro(ci)[1:]:
                if name in c.methods:
                    return [(st, ("bm", b[2], c.methods[name].key))]
            return [(st, ("attr", b, name))]
        if k == "obj":
            for n, v in b[2]:
                if n == name:
                    return [(st, v)]
        if k == "ref" and st.heap[b[1]][0] == "inst":
            attrs = st.heap[b[1]][2]
            if name in attrs:
                return [(st, attrs[name])]
        if self.objects and name == "__class__" and k in ("c", "tuple", "list", "dict", "set", "fn", "bm", "cls"):
            return [(st, ("ext", "builtins." + {"c": b[1], "fn": "function", "bm": "method", "cls": "type"}.get(k, k)))]
        if self.objects and name == "__class__" and k == "ref" and st.heap[b[1]][0] in ("list", "dict", "set"):
            return [(st, ("ext", "builtins." + st.heap[b[1]][0]))]
        t = self.type_of(st, b)
        if t and t[0] == "cls":
            ci = self.p.classes.get(t[1]) or self.local_cls.get(t[1])
            if ci is not None:
                if name == "__class__":
                    return [(st, ("cls", ci.key) if ci.key in self.p.classes else ("lcls", ci.key, 0))]
                fi = self.p.find_method(ci, name)
                if fi is not None:
                    if fi.kind == "property":
                        return self.call_value(st, ("bm", b, fi.key), [], [], node)
                    if fi.kind == "static":
                        return [(st, ("fn", fi.key))]
                    if fi.kind == "class":
                        return [(st, ("bm", ("cls", ci.key), fi.key))]
                    return [(st, ("bm", b, fi.key))]
                fc = self.p.find_const(ci, name)
                if fc is not None and not self.assigned_in_instances(ci, name):
                    return [(st, self.class_attr(st, ("cls", ci.key), ci, name))]
                ga = self.p.find_method(ci, "__getattr__")
                if ga is not None and k == "ref" and not name.startswith("__") and ga.key not in self.stack:
                    return self.call_value(st, ("bm", b, ga.key), [("el", const(name))], [], node)
        return [(st, ("attr", b, name))]

    def assigned_in_instances(self, ci, name):
        return any(
            fi.kind != "class" for c in self.p.mro(ci) for _, fi in self.p.attr_assigns(c).get(name, [])
        )

    def class_attr(self, st, b, ci, name):
        if (b, name) in st.overlay:
            return st.overlay[(b, name)]
        if name == "__name__":
            return const(ci.name)
        if self.objects:
            for c in self.p.mro(ci)[1:]:
                if name in ci.methods or self.p.find_const(ci, name) and self.p.find_const(ci, name)[0] is ci:
                    break
                if (("cls", c.key), name) in st.overlay:
                    return st.overlay[(("cls", c.key), name)]
                if name in c.methods:
                    break
        fi = self.p.find_method(ci, name)
        if fi is not None:
            if fi.kind == "class":
                return ("bm", b, fi.key)
            return ("fn", fi.key)
        fc = self.p.find_const(ci, name)
        if fc is not None and not self.class_attr_mutable(name):
            c, ex = fc
            if isinstance(ex, ast.Constant):
                return ("nc", f"{c.key}.{name}", const(ex.value)) if ex.value is not None else NONE
            if isinstance(ex, ast.UnaryOp) and isinstance(ex.op, ast.USub) and isinstance(ex.operand, ast.Constant):
                return ("nc", f"{c.key}.{name}", const(-ex.operand.value))
            if isinstance(ex, (ast.Name, ast.Attribute)):
                rr = self.p.resolve_expr(c.module, ex)
                if rr is not None and rr[0] in ("func", "class", "ext", "module"):
                    return self.res_value(rr, st)
        return ("attr", b, name)

    def e_Subscript(self, e, st):
        out = []
        for x, b in self.eval(e.value, st):
            for y, i in self.eval_index(e.slice, x):
                out.extend(self.get_item(y, b, i, e))
        return out

    def eval_index(self, s, st):
        if isinstance(s, ast.Slice):
            out = []
            for x, vs in self.eval_many([z if z is not None else ast.copy_location(_none(s), s) for z in (s.lower, s.upper, s.step)], st):
                out.append((x, ("slice", vs[0], vs[1], vs[2])))
            return out
        return self.eval(s, st)

    def get_item(self, st, b, i, node):
        segs = None
        if b[0] in ("tuple", "list"):
            segs = b[1]
        elif b[0] == "ref" and st.heap[b[1]][0] == "list":
            segs = st.heap[b[1]][1]
            if any(s[0] in ("put", "havoc") for s in segs):
                segs = self.norm_puts(st, segs, b)
        if segs is not None:
            if is_int(i):
                n = cval(i)
                if all(s[0] == "el" for s in segs) and -len(segs) <= n < len(segs):
                    return [(st, segs[n][1])]
                if n >= 0 and all(s[0] == "el" for s in segs[: n + 1]) and len(segs) > n:
                    return [(st, segs[n][1])]
                if n < 0 and len(segs) >= -n and all(s[0] == "el" for s in segs[n:]):
                    return [(st, segs[n][1])]
            if i[0] == "slice":
                if i[1:] == (NONE, NONE, NONE):
                    return [(st, ("tuple", segs) if b[0] == "tuple" else st.alloc(("list", segs)))]
                if all(s[0] == "el" for s in segs) and all(is_const(z) for z in i[1:]):
                    sl = segs[slice(*[cval(z) for z in i[1:]])]
                    return [(st, ("tuple", tuple(sl)) if b[0] == "tuple" else st.alloc(("list", tuple(sl))))]
            elif len(segs) == 1:
                s = segs[0]
                if s[0] == "splat":
                    return [(st, self.dom_elem(st, s[1], i)[1])]
                if s[0] == "for" and all(len(ss) == 1 and ss[0][0] == "el" for _, ss in s[2]):
                    n = ("bix", max(bix_depth(s[2]), 1))
                    out = []
                    for fs, ss in s[2]:
                        y = st.fork() if len(s[2]) > 1 else st
                        ok = True
                        for f, v in fs:
                            if not self.assume(y, subst(f, n, i), v, node):
                                ok = False
                                break
                        if ok:
                            out.append((y, subst(ss[0][1], n, i)))
                    return out
            bb = self.snap(st, b)
            return [(st, ("item", bb, i))]
        dsegs = None
        if b[0] == "dict":
            dsegs = b[1]
        elif b[0] == "ref" and st.heap[b[1]][0] == "dict":
            dsegs = st.heap[b[1]][1]
        if dsegs is not None:
            v = self.dict_lookup(st, dsegs, i)
            if v is not None:
                return [(st, v)]
            if self.find(st, dsegs, i) == -1:
                fac = st.overlay.get((b, "__factory__")) if b[0] == "ref" else None
                if fac is not None:
                    out = []
                    for y, w in self.call_value(st, fac, [], [], node):
                        y.heap[b[1]] = ("dict", y.heap[b[1]][1] + (("kv", i, w),))
                        out.append((y, w))
                    return out
                if self.unroll:
                    self.sinks[-1].append((st, self.new_exc(st, "builtins.KeyError")))
                    return []
            return [(st, ("item", self.snap(st, b), i))]
        if self.volatile is not None and b[0] != "ref" and self.volatile(b):
            ev = self.ev("read", st, "item", b, (("el", i),), (), node)
            ev.res = ("res", st.n, "read:item")
            st.n += 1
            st.push(ev)
            return [(st, ev.res)]
        if (b, ("item", i)) in st.overlay:
            return [(st, st.overlay[(b, ("item", i))])]
        t = self.type_of(st, b)
        if t and t[0] == "cls":
            ci = self.p.classes.get(t[1])
            fi = self.p.find_method(ci, "__getitem__") if ci else None
            if fi:
                return self.call_value(st, ("bm", b, fi.key), [("el", i)], [], node)
        v = ("item", self.snap(st, b), self.snap(st, i))
        if node is not None and self.track_touch:
            ev = self.ev("touch", st, "item", b, (("el", i),), (), node)
            st.push(ev)
            if self.prot and self.raise_forks and self.user_like(v):
                f = st.fork()
                self.sinks[-1].append((f, ("exc", f.n, "?")))
                f.n += 1
        return [(st, v)]

    def user_like(self, v):
        """Does the value come from outside the program (task results, arguments)?"""
        return any(s and s[0] in ("res", "sym") for s in subterms(v))

    def dict_lookup(self, st, segs, key):
        for s in reversed(segs):
            if s[0] == "kv":
                if s[1] == key:
                    return s[2]
                if is_const(s[1]) and is_const(key):
                    if cval(s[1]) == cval(key):
                        return s[2]
                    continue
                d = self.same(st, s[1], key)
                if d is True:
                    return s[2]
                if d is False:
                    continue
                return None
            if s[0] == "dsplat":
                if len(segs) == 1 or all(z[0] == "kv" and is_const(z[1]) for z in segs if z is not s) and is_const(key):
                    return ("item", s[1], key)
                return None
            if s[0] == "for":
                if len(segs) == 1 and key[0] == "app" and key[1] == "keyat" and len(s[2]) == 1 and not s[2][0][0]:
                    n = ("bix", max(bix_depth(s[2]), 1))
                    ss = s[2][0][1]
                    if len(ss) == 1 and ss[0][0] == "kv" and subst(ss[0][1], n, key[2][1]) == key:
                        return subst(ss[0][2], n, key[2][1])
                return None
            return None
        return None

    def e_List(self, e, st):
        return [(x, x.alloc(("list", tuple(segs)))) for x, segs in self.eval_elts(e.elts, st)]

    def e_Tuple(self, e, st):
        return [(x, ("tuple", tuple(segs))) for x, segs in self.eval_elts(e.elts, st)]

    def e_Set(self, e, st):
        return [(x, x.alloc(("set", tuple(segs)))) for x, segs in self.eval_elts(e.elts, st)]

    def eval_elts(self, elts, st):
        cur = [(st, [])]
        for e in elts:
            nxt = []
            for x, acc in cur:
                if isinstance(e, ast.Starred):
                    for y, v in self.eval(e.value, x):
                        nxt.append((y, acc + list(self.segs_of(y, v))))
                else:
                    for y, v in self.eval(e, x):
                        nxt.append((y, acc + [("el", v)]))
            cur = nxt
        return cur

    def e_Dict(self, e, st):
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for x, acc in cur:
                if k is None:
                    for y, d in self.eval(v, x):
                        nxt.append((y, acc + list(self.dict_segs(y, d))))
                else:
                    for y, kk in self.eval(k, x):
                        for z, vv in self.eval(v, y):
                            nxt.append((z, acc + [("kv", kk, vv)]))
            cur = nxt
        return [(x, x.alloc(("dict", tuple(a)))) for x, a in cur]

    def dict_segs(self, st, d):
        if d[0] == "ref" and st.heap[d[1]][0] == "dict":
            return st.heap[d[1]][1]
        if d[0] == "dict":
            return d[1]
        return (("dsplat", d),)

    def e_JoinedStr(self, e, st):
        cur = [(st, [])]
        for v in e.values:
            nxt = []
            for x, acc in cur:
                if isinstance(v, ast.Constant):
                    nxt.append((x, acc + [const(v.value)]))
                else:
                    for y, w in self.eval(v.value, x):
                        w = self.snap(y, w)
                        lit = literal(w) if self.objects else None
                        if v.conversion == 114:
                            w = const(repr(lit[0])) if lit is not None else app("repr", w)
                            lit = (cval(w),) if lit is not None else None
                        elif lit is not None and not is_const(w):
                            w = const(str(lit[0]))
                        if v.format_spec is not None:
                            spec = v.format_spec.values[0].value if len(v.format_spec.values) == 1 and isinstance(v.format_spec.values[0], ast.Constant) else None
                            try:
                                w = const(format(lit[0], spec)) if lit is not None and spec is not None else app("format", w, const(ast.unparse(v.format_spec)))
                            except (ValueError, TypeError):
                                w = app("format", w, const(ast.unparse(v.format_spec)))
                        nxt.append((y, acc + [w]))
            cur = nxt
        if self.objects:
            cur = [(x, [const("".join(str(cval(i)) for i in a))] if all(is_const(i) for i in a) else a) for x, a in cur]
            return [(x, a[0] if len(a) == 1 and is_const(a[0]) else app("fstr", *a)) for x, a in cur]
        return [(x, app("fstr", *a)) for x, a in cur]

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, v in enumerate(e.values):
            nxt = []
            for x in cur:
                for y, val in self.eval(v, x):
                    if i == len(e.values) - 1:
                        out.append((y, val))
                        continue
                    for z, b in self.branch(y, val, v):
                        if b == is_and:
                            nxt.append(z)
                        else:
                            # a decided boolean atom is a boolean
                            if val[0] == "app" and val[1] in ("eq", "lt", "in", "isinst", "isnone", "not"):
                                out.append((z, const(b)))
                            else:
                                out.append((z, val))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st):
        out = []
        for x, v in self.eval(e.operand, st):
            if isinstance(e.op, ast.Not):
                atom, pol = self.norm_atom(x, v)
                d = self.decide(x, atom)
                if d is not None:
                    out.append((x, const(not (d == pol))))
                else:
                    out.append((x, atom if not pol else app("not", atom)))
            elif isinstance(e.op, ast.USub) and is_const(v) and isinstance(cval(v), (int, float)):
                out.append((x, const(-cval(v))))
            else:
                out.append((x, app(type(e.op).__name__.lower(), self.snap(x, v))))
        return out

    def e_BinOp(self, e, st):
        out = []
        op = type(e.op).__name__.lower()
        for x, a in self.eval(e.left, st):
            for y, b in self.eval(e.right, x):
                out.append((y, self.binop(y, op, a, b)))
        return out

    def binop(self, st, op, a, b):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if op == "add":
                    return const(x + y)
                if op == "sub":
                    return const(x - y)
                if op == "mult" and not isinstance(x, str) and not isinstance(y, str):
                    return const(x * y)
                if op == "floordiv":
                    return const(x // y)
                if op == "div" and self.objects:
                    return const(x / y)
                if op == "mod" and isinstance(x, int):
                    return const(x % y)
                if op == "pow" and abs(x) <= 1024 and abs(y) < 100:
                    return const(x**y)
            except (TypeError, ZeroDivisionError):
                pass
        if op in ("sub", "bitand", "bitor", "and", "or") and a[0] == "ref" and st.heap[a[1]][0] == "set":
            r = self.set_op(st, op.replace("bit", ""), st.heap[a[1]][1], self.segs_of(st, b))
            if r is not None:
                return st.alloc(("set", r))
        if op == "add":
            la, lb = self.as_segs(st, a), self.as_segs(st, b)
            if la is not None and lb is not None and la[0] == lb[0]:
                if la[0] == "tuple":
                    return ("tuple", la[1] + lb[1])
                return st.alloc(("list", la[1] + lb[1]))
            if la is not None and lb is None and la[0] in ("list", "tuple"):
                s = la[1] + (("splat", self.snap(st, b)),)
                return ("tuple", s) if la[0] == "tuple" else st.alloc(("list", s))
            if lb is not None and la is None and lb[0] in ("list", "tuple"):
                s = (("splat", self.snap(st, a)),) + lb[1]
                return ("tuple", s) if lb[0] == "tuple" else st.alloc(("list", s))
            # linear normalisation of integer offsets: (x + c1) + c2
            return self.linear(st, self.snap(st, a), self.snap(st, b), 1)
        if op == "sub":
            return self.linear(st, self.snap(st, a), self.snap(st, b), -1)
        if op == "mult":
            la = self.as_segs(st, a)
            n = b
            if la is None:
                la, n = self.as_segs(st, b), a
            if la is not None and la[0] in ("list", "tuple") and len(la[1]) == 1 and la[1][0][0] == "el":
                if is_int(n) and 0 <= cval(n) <= 8:
                    segs = la[1] * cval(n)
                else:
                    segs = (("splat", app("repeat", self.snap(st, la[1][0][1]), self.snap(st, n))),)
                return ("tuple", segs) if la[0] == "tuple" else st.alloc(("list", segs))
        return app(op, self.snap(st, a), self.snap(st, b))

    def linear(self, st, a, b, sign):
        """Sums in a canonical form: app('add', t, const) or app('sum', ...)."""
        terms = {}
        c = 0

        def addt(t, k):
            nonlocal c
            if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
                c += k * cval(t)
                return True
            if is_const(t):
                return False
            if t[0] == "app" and t[1] == "sum":
                for tt, kk in t[2][0]:
                    terms[tt] = terms.get(tt, 0) + k * kk
                c += k * t[2][1][2]
                return True
            if t[0] == "app" and t[1] == "add" and is_const(t[2][1]) and isinstance(cval(t[2][1]), (int, float)):
                terms[t[2][0]] = terms.get(t[2][0], 0) + k
                c += k * cval(t[2][1])
                return True
            terms[t] = terms.get(t, 0) + k
            return True

        if not addt(a, 1) or not addt(b, sign):
            return app("add" if sign == 1 else "sub", a, b)
        terms = {t: k for t, k in terms.items() if k}
        if not terms:
            return const(c)
        if len(terms) == 1:
            (t, k), = terms.items()
            if k == 1:
                return t if c == 0 else app("add", t, const(c))
        # string concatenation etc.: keep the order when a string is involved
        for t in (a, b):
            if t[0] == "app" and t[1] in ("fstr", "str") or (is_const(t) and isinstance(cval(t), str)):
                return app("add", a, b)
        return ("app", "sum", (tuple(sorted(terms.items(), key=repr)), const(c)))

    def as_segs(self, st, v):
        if v[0] == "tuple":
            return ("tuple", v[1])
        if v[0] == "list":
            return ("list", v[1])
        if v[0] == "ref" and st.heap[v[1]][0] == "list":
            return ("list", st.heap[v[1]][1])
        return None

    def e_Compare(self, e, st):
        if len(e.ops) > 1:
            return [(x, const(b)) for x, b in self.cond(e, st)]
        out = []
        for x, a in self.eval(e.left, st):
            for y, b in self.eval(e.comparators[0], x):
                fi = self.dunder(y, a, "__eq__") if self.objects and isinstance(e.ops[0], (ast.Eq, ast.NotEq)) else None
                if fi is not None:
                    for z, v in self.call_func(y, fi, a, [("el", b)], [], e, ("bm", a, fi.key)):
                        if isinstance(e.ops[0], ast.NotEq):
                            v = const(not cval(v)) if is_const(v) else app("not", v)
                        out.append((z, v))
                    continue
                out.append((y, self.compare(y, e.ops[0], a, b, e)))
        return out

    def dunder(self, st, v, name):
        if v[0] != "ref" or st.heap[v[1]][0] != "inst":
            return None
        ci = self.p.classes.get(st.heap[v[1]][1]) or self.local_cls.get(st.heap[v[1]][1])
        return self.p.find_method(ci, name) if ci is not None else None

    def compare(self, st, op, a, b, node):
        sa, sb = self.snap(st, a), self.snap(st, b)
        o = type(op).__name__
        neg = False
        if o in ("Eq", "Is", "NotEq", "IsNot"):
            neg = o in ("NotEq", "IsNot")
            if o in ("Is", "IsNot") and a[0] == "ref" and b[0] == "ref":
                r = const((a == b) != neg)
                return r
            if a[0] == "ref" and sb == NONE or b[0] == "ref" and sa == NONE:
                return const(neg)
            if self.objects and o in ("Is", "IsNot") and (a[0] == "ref" and b[0] in ("c", "nc", "fn", "cls") or b[0] == "ref" and a[0] in ("c", "nc", "fn", "cls")):
                return const(neg)
            # comparison of lengths with a constant zero etc. stays an 'eq'
            if o in ("Is", "IsNot") and sb in (TRUE, FALSE) and sa[0] == "app" and sa[1] in ("eq", "lt", "in", "isinst", "isnone", "not", "truth"):
                v = sa if sb == TRUE else app("not", sa)
            else:
                v = self.mk_eq(sa, sb)
        elif o in ("Lt", "Gt", "LtE", "GtE"):
            if sa[0] == "set" and sb[0] == "set":
                q = self.set_op(st, "issubset" if o in ("Lt", "LtE") else "issuperset", sa[1], sb[1])
                if q is not None and o in ("LtE", "GtE"):
                    return q
                if q is not None and (q == FALSE or len(sa[1]) != len(sb[1])):
                    return q
            if o == "Lt":
                v = app("lt", sa, sb)
            elif o == "Gt":
                v = app("lt", sb, sa)
            elif o == "LtE":
                v, neg = app("lt", sb, sa), True
            else:
                v, neg = app("lt", sa, sb), True
        elif o in ("In", "NotIn"):
            neg = o == "NotIn"
            if sb[0] == "app" and sb[1] == "keys":
                sb = sb[2][0]
            v = app("in", sa, sb)
            if self.objects and a[0] == "ref" and st.heap[a[1]][0] == "inst" and b[0] == "ref" and st.heap[b[1]][0] in ("list", "set", "dict"):
                i = self.find(st, st.heap[b[1]][1], a)
                if i is not None:
                    return const((i >= 0) != neg)
        else:
            raise AnalysisError(o)
        d = self.decide(st, v)
        if d is not None:
            return const(d != neg)
        if neg:
            return v[2][0] if v[1] == "not" else app("not", v)
        return v

    def e_IfExp(self, e, st):
        out = []
        for x, b in self.cond(e.test, st):
            out.extend(self.eval(e.body if b else e.orelse, x))
        return out

    def e_Lambda(self, e, st):
        return [(st, self.mk_closure(e, st, "<lambda>"))]

    def e_Await(self, e, st):
        out = []
        for x, v in self.eval(e.value, st):
            if v[0] == "coro":
                out.extend(self.run_coro(x, v, e))
            elif v[0] == "exfut":
                out.extend(self.call_value(x, v[1], list(v[2]), list(v[3]), e))
            else:
                ev = self.ev("await", x, self.callee_name(x, v), v, (), (), e)
                x.push(ev)
                out.append((x, app("awaited", self.snap(x, v))))
        return out

    def run_coro(self, st, v, node):
        _, callee, segs, kw = v
        return self.call_value(st, callee, list(segs), list(kw), node, awaited=True)

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.eval(e.value, st):
            for y in self.assign(x, e.target, v, e):
                out.append((y, v))
        return out

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        if e.value is None:
            return [(st, NONE)]
        out = []
        for x, v in self.eval(e.value, st):
            x.push(self.ev("yield", x, "yield", v, (), (), e))
            out.append((x, app("sent", self.snap(x, v))))
        return out

    def e_YieldFrom(self, e, st):
        return self.e_Yield(e, st)

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return [(x, ("tuple", x.heap[r[1]][1])) for x, r in self.comp(e, st, "list")]

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        """Comprehensions are loops that append to a fresh container."""
        fr = self.fstack[-1]
        acc = st.alloc((kind, ()))
        # comprehension variables live in a nested frame
        self.nfid += 1
        fid = self.nfid
        nf = Frame(fid, fr.fi, fr.module, fr.fid, None, fr.cls)
        nf.curexc = fr.curexc
        self.frames[fid] = nf
        st.frames[fid] = {}

        def level(x, gens):
            if not gens:
                out = []
                if kind == "dict":
                    for y, k in self.eval(e.key, x):
                        for z, v in self.eval(e.value, y):
                            c = z.heap[acc[1]]
                            z.heap[acc[1]] = (kind, c[1] + (("kv", k, v),))
                            out.append((z, ("next",)))
                else:
                    for y, v in self.eval(e.elt, x):
                        c = y.heap[acc[1]]
                        y.heap[acc[1]] = (kind, c[1] + (("el", v),))
                        out.append((y, ("next",)))
                return out
            g = gens[0]
            out = []
            for y, it in self.eval(g.iter, x):
                def body(z, g=g):
                    cur = [z]
                    res = []
                    for t in g.ifs:
                        nxt = []
                        for w in cur:
                            for q, b in self.cond(t, w):
                                if b:
                                    nxt.append(q)
                                else:
                                    res.append((q, ("next",)))
                        cur = nxt
                    for w in cur:
                        res.extend(level(w, gens[1:]))
                    return res
                out.extend(self.iterate(y, it, lambda z, v, g=g: self.assign(z, g.target, v, e), None, e, None, is_comp=body))
            return out

        self.fstack.append(nf)
        try:
            # the first iterable is evaluated in the enclosing scope; same names resolve through the parent
            res = level(st, e.generators)
        finally:
            self.fstack.pop()
        out = []
        for x, o in res:
            if o[0] == "next":
                out.append((x, acc))
            elif o[0] == "raise":
                self.sinks[-1].append((x, o[1]))
        return out

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # logging is not behaviour
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("debug", "info", "warning", "error", "exception", "critical", "log"):
            b = e.func.value
            if isinstance(b, (ast.Name, ast.Attribute)):
                sts = self.eval(b, st)
                if len(sts) == 1:
                    t = self.type_of(sts[0][0], sts[0][1])
                    if t == ("b", "logger"):
                        return [(sts[0][0], NONE)]
        out = []
        for x, f in self.eval(e.func, st):
            for y, segs, kw in self.eval_args(e, x):
                out.extend(self.call_value(y, f, segs, kw, e))
        return out

    def eval_args(self, e, st):
        cur = [(st, [], [])]
        for a in e.args:
            nxt = []
            for x, segs, kw in cur:
                if isinstance(a, ast.Starred):
                    for y, v in self.eval(a.value, x):
                        nxt.append((y, segs + list(self.segs_of(y, v)), kw))
                else:
                    for y, v in self.eval(a, x):
                        nxt.append((y, segs + [("el", v)], kw))
            cur = nxt
        for k in e.keywords:
            nxt = []
            for x, segs, kw in cur:
                for y, v in self.eval(k.value, x):
                    if k.arg is None:
                        nxt.append((y, segs, kw + list(self.dict_segs(y, v))))
                    else:
                        nxt.append((y, segs, kw + [("kv", const(k.arg), v)]))
            cur = nxt
        return cur

    def callee_name(self, st, f):
        k = f[0]
        if k in ("fn",):
            return f[1]
        if k == "cls":
            return f[1]
        if k == "bm":
            return f[2]
        if k == "ext":
            return "ext:" + f[1]
        if k == "attr":
            return "meth:" + f[2]
        if k == "clo":
            return self.nodes[f[1]][0].key
        if k == "sym":
            return "sym:" + f[1]
        return "val:" + k

    def call_value(self, st, f, segs, kw, node, awaited=False):
        k = f[0]
        if k == "partial":
            return self.call_value(st, f[1], list(f[2]) + segs, list(f[3]) + kw, node, awaited)
        if k == "fn":
            return self.call_func(st, self.p.func(f[1]), None, segs, kw, node, f, awaited)
        if k == "bm":
            fi = self.p.funcs.get(f[2])
            if fi is None:
                for ci in self.local_cls.values():
                    for m in ci.methods.values():
                        if m.key == f[2]:
                            fi = m
            if fi is None:
                raise AnalysisError(f"method {f[2]} not found")
            return self.call_func(st, fi, f[1], segs, kw, node, f, awaited)
        if k == "clo":
            fi, n = self.nodes[f[1]]
            return self.call_func(st, fi, None, segs, kw, node, f, awaited, parent=f[2])
        if k == "cls":
            return self.instantiate(st, self.p.classes[f[1]], segs, kw, node, f)
        if k == "lcls":
            return self.instantiate(st, self.local_cls[f[1]], segs, kw, node, f)
        if k == "ext":
            return self.call_ext(st, f, segs, kw, node)
        if k == "attr":
            return self.call_method(st, f[1], f[2], segs, kw, node)
        t = self.type_of(st, f)
        if t and t[0] == "cls":
            ci = self.p.classes.get(t[1]) or self.local_cls.get(t[1])
            fi = self.p.find_method(ci, "__call__") if ci else None
            if fi:
                return self.call_func(st, fi, f, segs, kw, node, ("bm", f, fi.key), awaited)
        return self.opaque(st, self.callee_name(st, f), f, segs, kw, node)

    def opaque(self, st, name, recv, segs, kw, node, bound=None, pure=False, raises=True):
        """A call that is not followed: an event with an unknown result."""
        ev = self.ev("call", st, name, recv, tuple(segs), tuple(kw), node, bound)
        ev.res = ("res", st.n, name)
        alts = None
        if name in self.results:
            r = self.results[name]
            if callable(r):
                alts = r(self, st, ev)
            else:
                ev.res = r
        st.n += 1
        if self.prot and self.raise_forks and raises:
            f = st.fork()
            ev2 = Ev("call", name=ev.name, recv=ev.recv, args=ev.args, kw=ev.kw, res=None, node=ev.node, fn=ev.fn,
                     stack=ev.stack, prot=ev.prot, bound=ev.bound, data=ev.data, cond="raises")
            f.push(ev2)
            self.sinks[-1].append((f, ("exc", f.n, "?")))
        if alts is not None:
            out = []
            for facts, mk in alts:
                y = st.fork()
                v = mk(y) if callable(mk) else mk
                e2 = Ev("call", name=ev.name, recv=ev.recv, args=ev.args, kw=ev.kw, res=self.snap(y, v), node=ev.node, fn=ev.fn,
                        stack=ev.stack, prot=ev.prot, bound=ev.bound, data=ev.data)
                y.push(e2)
                if all(self.assume(y, f, b, node) for f, b in facts):
                    out.append((y, v))
            return out
        st.push(ev)
        return [(st, ev.res)]

    def should_inline(self, fi):
        if fi.key in self.stack and (self.loop_depth or self.stack.count(fi.key) > self.recursion):
            return False
        if len(self.stack) > self.inline_depth:
            return False
        if self.stops(fi.key):
            return False
        if fi.is_gen:
            return False
        if self.only is not None and not self.only(fi.key):
            return False
        return True

    def call_func(self, st, fi, recv, segs, kw, node, f, awaited=False, parent=None):
        if fi.name == "get_instance" and self.singletons and fi.kind == "class" and recv is not None and recv[0] == "cls":
            ci = self.p.classes.get(recv[1])
            if ci is not None and recv[1] not in self.no_single:
                if not segs and not kw:
                    return [(st, ("single", recv[1]))]
                ev = self.ev("call", st, fi.key, f, tuple(segs), tuple(kw), node)
                ev.res = ("single", recv[1])
                st.push(ev)
                return [(st, ev.res)]
        if fi.name == "get_logger":
            v = ("res", st.n, fi.key)
            st.types[v] = ("b", "logger")
            return [(st, v)]
        if (
            fi.name == "get" and fi.kind == "class" and fi.module.name.startswith("unidist.config")
            and recv is not None and recv[0] == "cls" and not self.inline_config and not segs and not kw
        ):
            h = self.results.get("cfg:" + recv[1])
            return [(st, ("cfg", recv[1]) if h is None else h(self, st) if callable(h) else h)]
        if fi.is_async and not awaited:
            return [(st, ("coro", f, tuple(segs), tuple(kw)))]
        if self.pure(fi.key):
            rv = () if recv is None or fi.kind == "static" else (self.snap(st, recv),)
            a = tuple(self.snap(st, x[1]) if x[0] == "el" else app("splat", self.snap(st, x[1])) for x in segs)
            k = tuple(app("kw", *[self.snap(st, y) for y in x[1:]]) for x in kw)
            return [(st, app(fi.key, *(rv + a + k)))]
        all_segs = list(segs)
        if fi.kind in ("method", "property", "class") and recv is not None:
            all_segs = [("el", recv)] + all_segs
        try:
            bound, extra = self.bind(st, fi, all_segs, kw)
        except AmbiguousBinding:
            bound = None
        except BindError:
            self.sinks[-1].append((st, self.new_exc(st, "builtins.TypeError")))
            return []
        if bound is None or not self.should_inline(fi):
            if bound is None:
                self.unknown_calls += 1
            return self.opaque(st, fi.key, f, segs, kw, node, bound)
        if parent is None and fi.cls is not None:
            parent = self.lcls_parent.get(fi.cls.key)
        res = self.exec_function(st, fi, bound, parent=parent, cls=fi.cls)
        out = []
        for x, o in res:
            if o[0] == "ret":
                out.append((x, o[1]))
            elif o[0] == "raise":
                self.sinks[-1].append((x, o[1]))
            elif o[0] in ("div", "cut"):
                self.cuts = getattr(self, "cuts", 0) + (o[0] == "cut")
        return out

    def bind(self, st, fi, segs, kw):
        """Bind call arguments to parameters."""
        a = fi.node.args
        pos = a.posonlyargs + a.args
        bound = {}
        segs = list(segs)
        kw = list(kw)
        i = 0
        npos = len(pos)
        while i < npos and segs:
            s = segs[0]
            if s[0] == "el":
                bound[pos[i].arg] = s[1]
                segs.pop(0)
                i += 1
                continue
            # a splat of unknown length over named parameters
            rest_named = [p for p in pos[i:]]
            if s[0] == "splat" and len(segs) == 1 and not a.vararg:
                for j, p in enumerate(rest_named):
                    bound[p.arg] = ("item", s[1], const(j))
                segs = []
                i = npos
                break
            if a.vararg and all(self.kw_has(kw, p.arg) for p in rest_named):
                break
            raise AmbiguousBinding()
        if a.vararg:
            bound[a.vararg.arg] = ("tuple", tuple(segs))
        elif segs:
            # too many arguments: a TypeError at run time
            bound["*extra"] = ("tuple", tuple(segs))
        ndef = len(a.defaults)
        rest = []
        posonly = {p.arg for p in a.posonlyargs}
        names = {p.arg for p in a.args + a.kwonlyargs}
        splats = []
        for s in kw:
            if s[0] == "kv" and is_const(s[1]) and cval(s[1]) in names:
                if cval(s[1]) in bound:
                    raise BindError(cval(s[1]))
                bound[cval(s[1])] = s[2]
            else:
                rest.append(s)
                if s[0] != "kv":
                    splats.append(s)
        missing = []
        for j, p in enumerate(pos):
            if p.arg not in bound:
                d = a.defaults[j - (npos - ndef)] if j >= npos - ndef else None
                missing.append((p.arg, d))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in bound:
                missing.append((p.arg, d))
        for n, d in missing:
            if d is not None:
                bound[n] = self.default_value(st, fi, d)
            elif splats:
                s = splats[0]
                bound[n] = ("item", s[1] if s[0] == "dsplat" else ("dict", (s,)), const(n))
            else:
                bound[n] = ("sym", f"missing:{n}")
        if a.kwarg:
            bound[a.kwarg.arg] = st.alloc(("dict", tuple(rest)))
        return bound, rest

    def kw_has(self, kw, name):
        return any(s[0] == "kv" and s[1] == const(name) for s in kw)

    def default_value(self, st, fi, d):
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, (ast.Name, ast.Attribute)):
            m = fi.module
            r = self.p.resolve_expr(m, d)
            if r is not None:
                return self.res_value(r, st)
            # class constant, e.g. MPITag.X
            if isinstance(d, ast.Attribute):
                b = self.p.resolve_expr(m, d.value)
                if b and b[0] == "class":
                    return self.class_attr(st, ("cls", b[1].key), b[1], d.attr)
        return ("sym", f"default:{ast.unparse(d)}")

    def instantiate(self, st, ci, segs, kw, node, f):
        init = self.p.find_method(ci, "__init__")
        new = self.p.find_method(ci, "__new__")
        if self.objects and new is not None and not self.stops(ci.key):
            out = []
            for x, v in self.call_func(st, new, None, [("el", ("cls", ci.key))] + list(segs), kw, node, ("fn", new.key)):
                if init is None or v[0] != "ref" or x.heap[v[1]][0] != "inst":
                    out.append((x, v))
                    continue
                for y, _ in self.call_func(x, init, v, segs, kw, node, ("bm", v, init.key)):
                    out.append((y, v))
            return out
        if self.stops(ci.key) or (self.only is not None and not self.only(ci.key)) or new is not None:
            bound = None
            if init is not None:
                try:
                    bound, _ = self.bind(st, init, [("el", ("sym", "self"))] + list(segs), kw)
                except (AmbiguousBinding, BindError):
                    bound = None
            out = self.opaque(st, ci.key, f, segs, kw, node, bound)
            for x, v in out:
                x.types[v] = ("cls", ci.key)
            return out
        r = st.alloc(("inst", ci.key, {}))
        if init is None:
            ext = self.p.ext_bases(ci)
            if self.objects and any(x.split(".")[-1] == "NamedTuple" for x in ext) or any(ast.unparse(d).split("(")[0].split(".")[-1] == "dataclass" for d in ci.node.decorator_list):
                v = self.record(st, ci, segs, kw)
                if v is not None:
                    st.heap[r[1]] = ("inst", ci.key, v)
                    return [(st, r)]
            if self.objects and "builtins.dict" in [x if "." in x else "builtins." + x for x in ext]:
                rs = self.call_ext(st, ("ext", "builtins.dict"), segs, kw, node)
                out = []
                for x, v in rs:
                    if v[0] == "ref":
                        v = x.alloc(x.heap[v[1]])
                        x.overlay[(v, "__cls__")] = ("cls", ci.key)
                    out.append((x, v))
                return out
            if "builtins.dict" in [x if "." in x else "builtins." + x for x in ext] and not any(m.kind == "method" for m in ci.methods.values()):
                return self.call_ext(st, ("ext", "builtins.dict"), segs, kw, node)
            if any(x in ("builtins.dict", "builtins.list") for x in ext) or any(
                isinstance(getattr(builtins, x.replace("builtins.", ""), None), type) for x in ext
            ):
                st.heap[r[1]] = ("inst", ci.key, {"*args": ("tuple", tuple(segs)), "*kw": ("dict", tuple(kw))})
            return [(st, r)]
        out = []
        for x, _ in self.call_func(st, init, r, segs, kw, node, ("bm", r, init.key)):
            out.append((x, r))
        return out

    def record(self, st, ci, segs, kw):
        """Attributes of an instance of a NamedTuple or dataclass."""
        fields = [(n.target.id, n.value) for n in ci.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
        if any(s[0] != "el" for s in segs) or any(k[0] != "kv" or not is_const(k[1]) for k in kw) or len(segs) > len(fields):
            return None
        d = {n: s[1] for (n, _), s in zip(fields, segs)}
        d.update({cval(k[1]): k[2] for k in kw})
        for n, e in fields:
            if n not in d:
                if not isinstance(e, ast.Constant):
                    return None
                d[n] = const(e.value)
        return d if set(d) == {n for n, _ in fields} else None

    # ---- methods on values
    def call_method(self, st, b, name, segs, kw, node):
        if self.objects and b[0] == "ref" and (b, "__cls__") in st.overlay:
            fi = self.p.find_method(self.p.classes[st.overlay[(b, "__cls__")][1]], name)
            if fi is not None:
                return self.call_value(st, ("bm", b, fi.key), segs, kw, node)
        if b[0] == "ref" and st.heap[b[1]][0] in ("list", "dict", "set"):
            return self.method_on_cell(st, b, name, segs, kw, node)
        if b[0] in ("list", "dict", "set") and name not in MUTATORS:
            r = st.alloc((b[0], b[1]))
            return self.method_on_cell(st, r, name, segs, kw, node)
        if b[0] == "super" and name == "__init__":
            return [(st, NONE)]
        if name == "__new__" and segs and segs[0][0] == "el" and segs[0][1][0] == "cls" and (b[0] == "super" and self.objects or b == ("ext", "builtins.object")):
            return [(st, st.alloc(("inst", segs[0][1][1], {})))]
        t = self.type_of(st, b)
        if t and t[0] == "cls":
            ci = self.p.classes.get(t[1]) or self.local_cls.get(t[1])
            fi = self.p.find_method(ci, name) if ci else None
            if fi is not None:
                return self.call_func(st, fi, ("cls", ci.key) if fi.kind == "class" else (None if fi.kind == "static" else b), segs, kw, node, ("bm", b, fi.key))
        if t == ("b", "logger"):
            return [(st, NONE)]
        if t and t[0] == "b" and t[1] in ("list", "dict", "set", "tuple", "str", "bytes") or b[0] in ("c", "nc"):
            if name in MUTATORS and not (t and t[1] in ("str", "bytes", "tuple")):
                ev_res = self.mutate(st, b, name, segs, kw, node)
                if name == "pop" and t and t[1] == "dict":
                    pass
                return [(st, ev_res)]
            return [(st, self.pure_method(st, b, name, segs, kw))]
        if name in MUTATORS:
            res = self.mutate(st, b, name, segs, kw, node)
            if self.prot and self.raise_forks:
                f = st.fork()
                self.sinks[-1].append((f, ("exc", f.n, "?")))
            return [(st, res)]
        if name in ("items", "keys", "values", "copy", "startswith", "endswith", "lower", "upper", "strip", "format", "title"):
            return [(st, self.pure_method(st, b, name, segs, kw))]
        return self.opaque(st, "meth:" + name, b, segs, kw, node)

    def pure_method(self, st, b, name, segs, kw):
        if name == "copy":
            return app("copylist", self.snap(st, b)) if False else self.snap(st, b)
        a = [self.snap(st, s[1]) if s[0] == "el" else app("splat", self.snap(st, s[1])) for s in segs]
        if self.objects and name in STR_FOLD and is_const(b) and isinstance(cval(b), str) and not kw and all(is_const(x) for x in a):
            try:
                return const(getattr(cval(b), name)(*[cval(x) for x in a]))
            except (ValueError, TypeError):
                pass
        if self.objects and name in ("split", "rsplit", "splitlines", "partition", "rpartition") and is_const(b) and isinstance(cval(b), str) and not kw and all(is_const(x) for x in a):
            try:
                v = getattr(cval(b), name)(*[cval(x) for x in a])
                vs = tuple(("el", const(x)) for x in v)
                return ("tuple", vs) if isinstance(v, tuple) else st.alloc(("list", vs))
            except (ValueError, TypeError):
                pass
        if self.objects and name == "join" and is_const(b) and isinstance(cval(b), str) and len(a) == 1 and a[0][0] in ("list", "tuple") and all(x[0] == "el" and is_const(x[1]) and isinstance(cval(x[1]), str) for x in a[0][1]):
            return const(cval(b).join(cval(x[1]) for x in a[0][1]))
        if name == "get" and len(a) == 1:
            a.append(NONE)
        if name == "format" and is_const(b):
            if self.objects and all(is_const(x) for x in a) and not kw:
                try:
                    return const(cval(b).format(*[cval(x) for x in a]))
                except (IndexError, KeyError, ValueError):
                    pass
            return app("fstr", b, *a)
        return app(name, self.snap(st, b), *a)

    def set_op(self, st, op, xs, ys):
        """Set operations on literal sets; None if membership is not decided."""
        if not all(s[0] == "el" for s in tuple(xs) + tuple(ys)):
            return None
        inb = [self.find(st, ys, s[1]) for s in xs]
        if any(i is None for i in inb):
            return None
        if op == "sub":
            return tuple(s for s, i in zip(xs, inb) if i < 0)
        if op == "and":
            return tuple(s for s, i in zip(xs, inb) if i >= 0)
        if op == "or":
            return self.dedupe(st, tuple(xs) + tuple(ys))
        if op == "issubset":
            return const(all(i >= 0 for i in inb))
        if op == "isdisjoint":
            return const(all(i < 0 for i in inb))
        if op == "issuperset":
            r = [self.find(st, xs, s[1]) for s in ys]
            return None if any(i is None for i in r) else const(all(i >= 0 for i in r))
        return None

    def method_on_cell(self, st, b, name, segs, kw, node):
        c = st.heap[b[1]]
        kind, cs = c
        a = [s[1] for s in segs] if all(s[0] == "el" for s in segs) else None
        if kind == "list":
            if name == "append" and a:
                st.heap[b[1]] = ("list", cs + (("el", a[0]),))
                return [(st, NONE)]
            if name == "extend" and a:
                st.heap[b[1]] = ("list", cs + tuple(self.segs_of(st, a[0])))
                return [(st, NONE)]
            if name == "insert" and a and a[0] == const(0):
                st.heap[b[1]] = ("list", (("el", a[1]),) + cs)
                return [(st, NONE)]
            if name == "copy":
                return [(st, st.alloc(("list", cs)))]
            if name == "clear":
                st.heap[b[1]] = ("list", ())
                return [(st, NONE)]
            if name == "pop" and not a and cs and cs[-1][0] == "el":
                v = cs[-1][1]
                st.heap[b[1]] = ("list", cs[:-1])
                return [(st, v)]
            if name == "pop" and a == [const(0)] and cs and cs[0][0] == "el":
                v = cs[0][1]
                st.heap[b[1]] = ("list", cs[1:])
                return [(st, v)]
            if name == "popleft" and not a and cs and cs[0][0] == "el":
                st.heap[b[1]] = ("list", cs[1:])
                return [(st, cs[0][1])]
            if name == "appendleft" and a:
                st.heap[b[1]] = ("list", (("el", a[0]),) + cs)
                return [(st, NONE)]
            if name == "remove" and a and all(s[0] == "el" for s in cs):
                i = self.find(st, cs, a[0])
                if i is not None and i >= 0:
                    st.heap[b[1]] = ("list", cs[:i] + cs[i + 1:])
                    return [(st, NONE)]
                if i == -1 and self.unroll:
                    self.sinks[-1].append((st, self.new_exc(st, "builtins.ValueError")))
                    return []
            if name in ("pop", "insert") and a and is_int(a[0]) and all(s[0] == "el" for s in cs):
                l = list(cs)
                i = cval(a[0])
                if name == "insert":
                    l.insert(i, ("el", a[1]))
                    st.heap[b[1]] = ("list", tuple(l))
                    return [(st, NONE)]
                if -len(l) <= i < len(l):
                    v = l.pop(i)
                    st.heap[b[1]] = ("list", tuple(l))
                    return [(st, v[1])]
            if name == "reverse" and all(s[0] == "el" for s in cs):
                st.heap[b[1]] = ("list", tuple(reversed(cs)))
                return [(st, NONE)]
            if name == "sort" and not a and not kw and all(s[0] == "el" and is_int(s[1]) for s in cs):
                st.heap[b[1]] = ("list", tuple(sorted(cs, key=lambda s: cval(s[1]))))
                return [(st, NONE)]
            if name == "index" and a and len(a) == 1:
                i = self.find(st, cs, a[0])
                if i is not None and i >= 0:
                    return [(st, const(i))]
            if name in ("remove", "pop", "sort", "reverse", "insert", "append", "extend"):
                before = self.snap(st, b)
                ev = self.ev("cellmut", st, name, b, tuple(segs), tuple(kw), node)
                ev.res = ("res", st.n, "cell:" + name)
                st.n += 1
                st.push(ev)
                st.heap[b[1]] = ("list", (("splat", app("after_" + name, before, *[self.snap(st, x) for x in (a or [])])),))
                return [(st, ev.res if name == "pop" else NONE)]
            if name in ("index", "count"):
                return [(st, app(name, self.snap(st, b), *[self.snap(st, x) for x in a or []]))]
        if kind == "set":
            if name == "add" and a:
                st.heap[b[1]] = ("set", self.dedupe(st, cs + (("el", a[0]),)))
                return [(st, NONE)]
            if name == "update" and a:
                new = cs
                for x in a:
                    new = new + tuple(self.segs_of(st, x))
                st.heap[b[1]] = ("set", self.dedupe(st, new))
                return [(st, NONE)]
            if name in ("remove", "discard") and a:
                i = self.find(st, cs, a[0])
                if i is not None:
                    if i >= 0:
                        st.heap[b[1]] = ("set", cs[:i] + cs[i + 1:])
                    elif name == "remove" and self.unroll:
                        self.sinks[-1].append((st, self.new_exc(st, "builtins.KeyError")))
                        return []
                    if i >= 0 or name == "discard":
                        return [(st, NONE)]
            if name in ("difference", "difference_update", "intersection", "intersection_update", "union", "issubset", "issuperset", "isdisjoint") and a and len(a) == 1:
                r = self.set_op(st, {"difference_update": "sub", "difference": "sub", "intersection": "and", "intersection_update": "and", "union": "or"}.get(name, name), cs, self.segs_of(st, a[0]))
                if r is not None:
                    if name in ("issubset", "issuperset", "isdisjoint"):
                        return [(st, r)]
                    if name.endswith("_update"):
                        st.heap[b[1]] = ("set", r)
                        return [(st, NONE)]
                    return [(st, st.alloc(("set", r)))]
            if name == "pop" and not a and cs and cs[0][0] == "el":
                st.heap[b[1]] = ("set", cs[1:])
                return [(st, cs[0][1])]
            if name == "copy":
                return [(st, st.alloc(("set", cs)))]
            if name == "clear":
                st.heap[b[1]] = ("set", ())
                return [(st, NONE)]
            if name in MUTATORS:
                before = self.snap(st, b)
                ev = self.ev("cellmut", st, name, b, tuple(segs), tuple(kw), node)
                ev.res = ("res", st.n, "cell:" + name)
                st.n += 1
                st.push(ev)
                st.heap[b[1]] = ("set", (("splat", app("after_" + name, before, *[self.snap(st, x) for x in (a or [])])),))
                return [(st, ev.res if name == "pop" else NONE)]
        if kind == "dict":
            if name in ("items", "keys", "values"):
                return [(st, app(name, b))]
            if name == "copy":
                return [(st, st.alloc(("dict", cs)))]
            if name == "clear":
                st.heap[b[1]] = ("dict", ())
                return [(st, NONE)]
            if name == "update":
                extra = tuple(kw)
                if a:
                    extra = tuple(self.dict_segs(st, a[0])) + extra
                new = list(cs)
                for s in extra:
                    if s[0] == "kv" and is_const(s[1]):
                        new = [z for z in new if not (z[0] == "kv" and is_const(z[1]) and cval(z[1]) == cval(s[1]))]
                    new.append(s)
                st.heap[b[1]] = ("dict", tuple(new))
                return [(st, NONE)]
            if name == "get" and a:
                d = a[1] if len(a) > 1 else NONE
                v = self.dict_lookup(st, cs, a[0])
                if v is not None and any(s[0] == "kv" and s[2] == v for s in cs):
                    return [(st, v)]
                if all(s[0] == "kv" and is_const(s[1]) for s in cs) and is_const(a[0]):
                    return [(st, d)]
                if all(s[0] == "kv" for s in cs):
                    i = self.find(st, cs, a[0])
                    if i is not None:
                        return [(st, cs[i][2] if i >= 0 else d)]
                return [(st, app("get", self.snap(st, b), self.snap(st, a[0]), self.snap(st, d)))]
            if name in ("pop", "get", "setdefault") and a and all(s[0] == "kv" for s in cs):
                i = self.find(st, cs, a[0])
                if i is not None and i >= 0:
                    if name == "pop":
                        st.heap[b[1]] = ("dict", cs[:i] + cs[i + 1:])
                    return [(st, cs[i][2])]
                if i == -1:
                    if name == "setdefault":
                        v = a[1] if len(a) > 1 else NONE
                        st.heap[b[1]] = ("dict", cs + (("kv", a[0], v),))
                        return [(st, v)]
                    if name == "get" or len(a) > 1:
                        return [(st, a[1] if len(a) > 1 else NONE)]
                    if self.unroll:
                        self.sinks[-1].append((st, self.new_exc(st, "builtins.KeyError")))
                        return []
            if name == "pop" and a and is_const(a[0]) and all(s[0] == "kv" and is_const(s[1]) for s in cs):
                v = self.dict_lookup(st, cs, a[0])
                if v is not None:
                    st.heap[b[1]] = ("dict", tuple(s for s in cs if cval(s[1]) != cval(a[0])))
                    return [(st, v)]
                if len(a) > 1:
                    return [(st, a[1])]
            if name == "setdefault" and a:
                v = self.dict_lookup(st, cs, a[0])
                if v is None:
                    v = a[1] if len(a) > 1 else NONE
                    st.heap[b[1]] = ("dict", cs + (("kv", a[0], v),))
                return [(st, v)]
            if name in MUTATORS:
                before = self.snap(st, b)
                ev = self.ev("cellmut", st, name, b, tuple(segs), tuple(kw), node)
                ev.res = ("res", st.n, "cell:" + name)
                st.n += 1
                st.push(ev)
                st.heap[b[1]] = ("dict", (("dsplat", app("after_" + name, before, *[self.snap(st, x) for x in (a or [])])),))
                return [(st, ev.res)]
        return [(st, self.pure_method(st, b, name, segs, kw))]

    # ---- external functions
    def call_ext(self, st, f, segs, kw, node):
        n = f[1]
        a = [s[1] for s in segs] if all(s[0] == "el" for s in segs) else None
        short = n.split(".")[-1]
        if n.startswith("builtins.") and hasattr(self, "b_" + short):
            r = getattr(self, "b_" + short)(st, a, segs, kw, node)
            if r is not NotImplemented:
                return r
        if short == "partial" and n.startswith("functools") and segs and segs[0][0] == "el":
            return [(st, ("partial", segs[0][1], tuple(segs[1:]), tuple(kw)))]
        if n == "functools.wraps":
            return [(st, ("ext", "identity"))]
        if n == "identity" and a:
            return [(st, a[0])]
        if n in ("copy.copy",) and a:
            b = a[0]
            if b[0] == "ref" and st.heap[b[1]][0] in ("list", "dict", "set"):
                return [(st, st.alloc(st.heap[b[1]]))]
            return [(st, self.snap(st, b))]
        if n == "builtins.object.__new__" and len(a or ()) == 1 and a[0][0] == "cls" and a[0][1] in self.p.classes:
            return [(st, st.alloc(("inst", a[0][1], {})))]
        if n == "collections.defaultdict":
            r = st.alloc(("dict", ()))
            if a and a[0] != NONE:
                st.overlay[(r, "__factory__")] = a[0]
            return [(st, r)]
        if n in ("collections.deque", "collections.OrderedDict", "weakref.WeakValueDictionary", "weakref.WeakKeyDictionary", "weakref.WeakSet"):
            kind = {"deque": "list", "WeakSet": "set"}.get(short, "dict")
            if not segs and not kw:
                r = st.alloc((kind, ()))
                if short.startswith("Weak"):
                    st.overlay[(r, "__weak__")] = const(short)
                return [(st, r)]
            if kind == "list" and a:
                return [(st, st.alloc(("list", tuple(self.expand(st, a[0])))))]
        if n == "builtins.dict.fromkeys" and a:
            ks = self.segs_of(st, a[0])
            if all(s[0] == "el" for s in ks):
                d = a[1] if len(a) > 1 else NONE
                return [(st, st.alloc(("dict", tuple(("kv", s[1], d) for s in self.dedupe(st, ks)))))]
        if n == "itertools.cycle" and a:
            ks = self.segs_of(st, a[0])
            if all(s[0] == "el" for s in ks):
                return [(st, st.alloc(("cyc", tuple(ks), 0)))]
        if n in ("itertools.chain",):
            out = []
            for s in segs:
                out.extend(self.segs_of(st, s[1]) if s[0] == "el" else [s])
            return [(st, ("tuple", tuple(out)))]
        if n == "itertools.islice" and a and len(a) == 2:
            return [(st, app("islice", self.snap(st, a[0]), self.snap(st, a[1])))]
        if short == "create_task" and n.startswith("asyncio") and a and a[0][0] == "coro":
            return self.spawn(st, a[0], node)
        if n == "asyncio.run" and a and a[0][0] == "coro":
            return self.run_coro(st, a[0], node)
        if "ext:" + n not in self.results and n in ("time.sleep", "warnings.warn", "time.perf_counter", "time.time"):
            v = ("res", st.n, "ext:" + n)
            st.n += 1
            return [(st, v)]
        if n == "asyncio.get_event_loop" or n == "asyncio.get_running_loop":
            return [(st, ("ext", n + "()"))]
        if short == "run_in_executor" and a and len(a) >= 2:
            return [(st, ("exfut", a[1], tuple(("el", x) for x in a[2:]), ()))]
        if n == "inspect.iscoroutinefunction" and a and len(a) == 1:
            v = a[0]
            while v[0] == "partial":
                v = v[1]
            fi = self.p.funcs.get(v[1]) if v[0] == "fn" else self.p.funcs.get(v[2]) if v[0] == "bm" else None
            if fi is not None:
                return [(st, TRUE if fi.is_async else FALSE)]
            t = self.type_of(st, v)
            if t is not None and t[0] == "cls" and t[1] in self.p.classes:
                return [(st, FALSE)]
            if v != a[0]:
                return [(st, app(short, self.snap(st, v)))]
        if n == "importlib.import_module" and a and len(a) == 1 and is_const(a[0]) and isinstance(cval(a[0]), str):
            if cval(a[0]) in self.p.modules:
                return [(st, ("mod", cval(a[0])))]
        if n in ("inspect.isfunction", "inspect.isclass") and a and len(a) == 1 and a[0][0] in ("fn", "cls"):
            return [(st, TRUE if (a[0][0] == "fn") == (short == "isfunction") else FALSE)]
        if self.objects and n in ("inspect.isfunction", "inspect.isclass", "inspect.ismethod") and a and len(a) == 1:
            if a[0][0] in ("fn", "cls", "bm"):
                return [(st, const({"fn": "isfunction", "cls": "isclass", "bm": "ismethod"}[a[0][0]] == short))]
            if a[0][0] in ("c", "tuple", "list", "dict", "set") or a[0][0] == "ref" and st.heap[a[0][1]][0] in ("inst", "list", "dict", "set"):
                return [(st, FALSE)]
        if n in ("inspect.iscoroutinefunction", "inspect.isfunction", "inspect.isclass", "os.path.exists"):
            return [(st, app(short, *[self.snap(st, x) for x in a or []]))]
        return self.opaque(st, "ext:" + n, f, segs, kw, node)

    def spawn(self, st, coro, node):
        """A coroutine started as a task: its paths become a spawn event."""
        sub = st.fork()
        sub.trace = None
        saved, self.sinks = self.sinks, [[]]
        sp, self.prot = self.prot, []
        try:
            rs = self.run_coro_paths(sub, coro, node)
        finally:
            self.sinks = saved
            self.prot = sp
        ev = Ev("spawn", name="create_task", paths=rs, node=node, fn=self.curfn(), stack=tuple(self.stack), prot=tuple(self.prot))
        ev.res = ("res", st.n, "ext:asyncio.create_task")
        st.n += 1
        st.push(ev)
        return [(st, ev.res)]

    def run_coro_paths(self, st, coro, node):
        out = []
        for x, v in self.run_coro(st, coro, node):
            out.append(Path(x.events(), "ret", self.snap(x, v), x))
        for x, e in self.sinks[-1]:
            out.append(Path(x.events(), "raise", self.snap(x, e), x))
        return out

    # builtins -------------------------------------------------------------
    def b_len(self, st, a, segs, kw, node):
        if not a:
            return NotImplemented
        v = a[0]
        if v[0] == "buf":
            return [(st, v[2])]
        if self.buffers and v[0] == "app" and v[1] == "pickled":
            return [(st, const(5))]  # a message of two full blocks and a rest
        if v[0] == "ref" and st.heap[v[1]][0] == "inst":
            t = self.type_of(st, v)
            fi = self.p.find_method(self.p.classes.get(t[1]), "__len__") if t and t[1] in self.p.classes else None
            if fi:
                return self.call_value(st, ("bm", v, fi.key), [], [], node)
        if v[0] == "ref" and st.heap[v[1]][0] == "set" and self.literal(st, st.heap[v[1]][1]):
            return [(st, const(len(st.heap[v[1]][1])))]
        if v[0] == "ref" and st.heap[v[1]][0] == "list":
            s = self.segs_of(st, v)
        elif v[0] in ("tuple", "list"):
            s = v[1]
        elif v[0] == "ref" and st.heap[v[1]][0] == "dict":
            s = st.heap[v[1]][1]
            if all(x[0] == "kv" and is_const(x[1]) for x in s) or self.literal(st, s):
                return [(st, const(len(s)))]
            if len(s) == 1 and s[0][0] == "dsplat":
                return [(st, app("len", s[0][1]))]
            return [(st, app("len", self.snap(st, v)))]
        elif is_const(v) and isinstance(cval(v), (str, bytes)):
            return [(st, const(len(cval(v))))]
        else:
            if v[0] == "app" and v[1] == "keys":
                v = v[2][0]
            return [(st, app("len", self.snap(st, v)))]
        if all(x[0] == "el" for x in s):
            return [(st, const(len(s)))]
        if len(s) == 1 and s[0][0] == "splat":
            d = s[0][1]
            if d[0] == "app" and d[1] == "repeat":
                return [(st, d[2][1])]
            if d[0] == "app" and d[1] == "range" and len(d[2]) == 1:
                return [(st, d[2][0])]
            if d[0] == "app" and d[1] in ("items", "values", "keys", "enumerate"):
                d = d[2][0]
            return [(st, app("len", d))]
        if len(s) == 1 and s[0][0] == "for" and all(len(ss) == 1 and ss[0][0] in ("el", "kv") for _, ss in s[0][2]):
            # one element per iteration whatever the branch taken
            d = s[0][1]
            if d[0] == "app" and d[1] == "range" and len(d[2]) == 1:
                return [(st, d[2][0])]
            if d[0] == "app" and d[1] == "keys":
                d = d[2][0]
            return [(st, app("len", d))]
        return [(st, app("len", self.snap(st, v)))]

    def b_isinstance(self, st, a, segs, kw, node):
        if not a or len(a) != 2:
            return NotImplemented
        names = self.class_names(a[1])
        v = self.snap(st, a[0])
        if names is None:
            return [(st, app("isinst", v, frozenset([show(self.snap(st, a[1]))])))]
        atom = app("isinst", v, names)
        d = self.static_isinst(self.type_of(st, a[0]), names)
        if d is None:
            d = self.decide(st, atom)
        if d is None and self.objects:
            d = self.foreign_isinst(st, a[0], names)
        return [(st, const(d) if d is not None else atom)]

    def foreign_isinst(self, st, v, names):
        """Known values are no instances of data types of other libraries, nor views of keys."""
        if not all(n.startswith(("pandas.", "numpy.")) or n.endswith("KeysView") for n in names):
            return None
        if v[0] == "app" and v[1] == "keys":
            return any(n.endswith("KeysView") for n in names)
        if v[0] in ("fn", "cls", "bm", "c", "nc", "tuple", "list", "dict", "set"):
            return False
        if v[0] == "ref":
            h = st.heap.get(v[1])
            if h is None:
                return None
            if h[0] in ("list", "dict", "set"):
                return False
            t = self.type_of(st, v)
            ci = t and t[0] == "cls" and (self.p.classes.get(t[1]) or self.local_cls.get(t[1]))
            if h[0] == "inst" and ci and not (self.p.ext_bases(ci) - {"builtins.object"}) & names:
                return False
        return None

    def b_issubclass(self, st, a, segs, kw, node):
        return [(st, app("issubclass", *[self.snap(st, x) for x in a or []]))]

    def b_type(self, st, a, segs, kw, node):
        if not a or len(a) != 1:
            return NotImplemented
        t = self.type_of(st, a[0])
        if t is not None:
            if t[0] == "b":
                return [(st, ("ext", "builtins." + t[1]))]
            return [(st, ("cls", t[1]))]
        v = self.snap(st, a[0])
        at = app("type", v)
        for f, b in st.facts.items():
            if b and f[0] == "app" and f[1] == "eq" and at in f[2]:
                o = f[2][1] if f[2][0] == at else f[2][0]
                if o[0] in ("ext", "cls"):
                    return [(st, o)]
        return [(st, at)]

    def b_callable(self, st, a, segs, kw, node):
        if a and a[0][0] in ("fn", "bm", "clo", "cls", "partial", "lcls"):
            return [(st, TRUE)]
        if a and len(a) == 1:
            t = self.type_of(st, a[0])
            if t is not None and t[0] == "b":
                if t[1] in BUILTIN_TYPES:
                    return [(st, FALSE)]
                if t[1] in ("function", "type"):
                    return [(st, TRUE)]
            if t is not None and t[0] == "cls" and self.objects and a[0][0] == "ref":
                ci = self.p.classes.get(t[1]) or self.local_cls.get(t[1])
                if ci is not None and self.p.find_method(ci, "__call__"):
                    return [(st, TRUE)]
                if ci is not None and not self.p.ext_bases(ci) - {"builtins.object"}:
                    return [(st, FALSE)]
        return [(st, app("callable", *[self.snap(st, x) for x in a or []]))]

    def b_bool(self, st, a, segs, kw, node):
        if not a:
            return [(st, FALSE)]
        atom, pol = self.norm_atom(st, a[0])
        d = self.decide(st, atom)
        if d is not None:
            return [(st, const(d == pol))]
        return [(st, atom if pol else app("not", atom))]

    def b_range(self, st, a, segs, kw, node):
        if a is None:
            return NotImplemented
        if len(a) == 2 and a[0] == const(0):
            a = a[1:]
        return [(st, app("range", *[self.snap(st, x) for x in a]))]

    def b_enumerate(self, st, a, segs, kw, node):
        if not a:
            return NotImplemented
        start = a[1] if len(a) > 1 else const(0)
        for s in kw:
            if s[0] == "kv":
                start = s[2]
        return [(st, app("enumerate", self.shallow(st, a[0]), start))]

    def shallow(self, st, x):
        """The current elements of a literal container, which keep their identity."""
        if self.unroll and x[0] == "ref" and st.heap[x[1]][0] in ("list", "set", "dict"):
            segs = self.segs_of(st, x)
            if all(s[0] == "el" for s in segs):
                return ("list", tuple(segs))
        return self.snap(st, x)

    def b_zip(self, st, a, segs, kw, node):
        if a is None:
            return NotImplemented
        return [(st, app("zip", *[self.shallow(st, x) for x in a]))]

    def b_map(self, st, a, segs, kw, node):
        if not a or len(a) != 2:
            return NotImplemented
        return self.run_map(st, a[0], a[1], node, False)

    def b_filter(self, st, a, segs, kw, node):
        if not a or len(a) != 2:
            return NotImplemented
        return self.run_map(st, a[0], a[1], node, True)

    def run_map(self, st, fn, it, node, filt):
        acc = st.alloc(("list", ()))
        hold = {}

        def bind(x, v):
            self.nfid += 0
            x.setvar(fid, "%v", v)
            return [x]

        fr = self.fstack[-1]
        self.nfid += 1
        fid = self.nfid
        nf = Frame(fid, fr.fi, fr.module, fr.fid, None, fr.cls)
        self.frames[fid] = nf
        st.frames[fid] = {}

        def body(x):
            out = []
            v = x.frames[fid]["%v"]
            for y, r in (self.call_value(x, fn, [("el", v)], [], node) if fn != NONE else [(x, v)]):
                if filt:
                    for z, b in self.branch(y, r, node):
                        if b:
                            z.heap[acc[1]] = ("list", z.heap[acc[1]][1] + (("el", v),))
                        out.append((z, ("next",)))
                else:
                    y.heap[acc[1]] = ("list", y.heap[acc[1]][1] + (("el", r),))
                    out.append((y, ("next",)))
            return out

        res = self.iterate(st, it, bind, None, node, None, is_comp=body)
        out = []
        for x, o in res:
            if o[0] == "next":
                out.append((x, ("tuple", x.heap[acc[1]][1])))
            elif o[0] == "raise":
                self.sinks[-1].append((x, o[1]))
        return out

    def b_list(self, st, a, segs, kw, node):
        if not segs:
            return [(st, st.alloc(("list", ())))]
        if not a:
            return NotImplemented
        return [(st, st.alloc(("list", tuple(self.expand(st, a[0])))))]

    def expand(self, st, v):
        """Elements of an iterable as segments, lazy views materialised."""
        segs = self.segs_of(st, v)
        out = []
        for s in segs:
            if s[0] == "splat":
                n = ("bix", 1)
                dom, e = self.dom_elem(st, s[1], n)
                if e == ("item", dom, n):
                    out.append(("splat", dom))
                elif s[1][0] == "app" and s[1][1] in ("zip", "enumerate", "items", "values", "range", "keys"):
                    n2 = ("bix", bix_depth(self.dom_elem(st, s[1], ("ix", -9))[1]) + 1)
                    dom, e = self.dom_elem(st, s[1], n2)
                    if s[1][1] == "keys" and e[0] == "app" and e[1] == "keyat":
                        out.append(s)
                    else:
                        out.append(("for", dom, (((), (("el", e),)),)))
                else:
                    out.append(s)
            else:
                out.append(s)
        return out

    def b_tuple(self, st, a, segs, kw, node):
        if not segs:
            return [(st, ("tuple", ()))]
        if not a:
            return NotImplemented
        return [(st, ("tuple", tuple(self.expand(st, a[0]))))]

    def b_set(self, st, a, segs, kw, node):
        if not segs:
            return [(st, st.alloc(("set", ())))]
        if not a:
            return NotImplemented
        return [(st, st.alloc(("set", self.dedupe(st, tuple(self.expand(st, a[0]))))))]

    def b_frozenset(self, st, a, segs, kw, node):
        return self.b_set(st, a, segs, kw, node)

    def b_dict(self, st, a, segs, kw, node):
        if not segs:
            return [(st, st.alloc(("dict", tuple(kw))))]
        if not a:
            return NotImplemented
        v = a[0]
        if v[0] == "ref" and st.heap[v[1]][0] == "dict" or v[0] == "dict":
            return [(st, st.alloc(("dict", tuple(self.dict_segs(st, v)) + tuple(kw))))]
        segs2 = self.segs_of(st, v)
        if v[0] in ("tuple", "list") or (v[0] == "ref" and st.heap[v[1]][0] == "list") or (v[0] == "app" and v[1] == "zip" and all(x[0] == "el" for x in segs2)):
            out = []
            ok = True
            for s in segs2:
                if s[0] == "el" and s[1][0] == "tuple" and len(s[1][1]) == 2:
                    out.append(("kv", s[1][1][0][1], s[1][1][1][1]))
                elif s[0] == "for":
                    cs = []
                    for fs, ss in s[2]:
                        if len(ss) == 1 and ss[0][0] == "el" and ss[0][1][0] == "tuple" and len(ss[0][1][1]) == 2:
                            cs.append((fs, (("kv", ss[0][1][1][0][1], ss[0][1][1][1][1]),)))
                        else:
                            ok = False
                    out.append(("for", s[1], tuple(cs)))
                else:
                    ok = False
            if ok:
                return [(st, st.alloc(("dict", tuple(out) + tuple(kw))))]
        if v[0] == "app" and v[1] == "zip":
            dom, e = self.dom_elem(st, v, ("bix", 1))
            return [(st, st.alloc(("dict", (("for", dom, (((), (("kv", e[1][0][1], e[1][1][1]),)),)),) + tuple(kw))))]
        return [(st, st.alloc(("dict", (("dsplat", self.snap(st, v)),) + tuple(kw))))]

    def b_sorted(self, st, a, segs, kw, node):
        if a and len(a) == 1 and not kw:
            ss = self.segs_of(st, a[0])
            if all(s[0] == "el" and is_int(s[1]) for s in ss):
                return [(st, st.alloc(("list", tuple(sorted(ss, key=lambda s: cval(s[1]))))))]
        return [(st, app("sorted", *[self.snap(st, x) for x in a or []]))]

    def b_reversed(self, st, a, segs, kw, node):
        if a:
            s = self.segs_of(st, a[0])
            if all(x[0] == "el" for x in s):
                return [(st, ("tuple", tuple(reversed(s))))]
        return [(st, app("reversed", *[self.snap(st, x) for x in a or []]))]

    def b_iter(self, st, a, segs, kw, node):
        return [(st, a[0])] if a else NotImplemented

    def b_next(self, st, a, segs, kw, node):
        if a and a[0][0] == "ref" and st.heap[a[0][1]][0] == "cyc":
            if not st.heap[a[0][1]][1]:
                if len(a) > 1:
                    return [(st, a[1])]
                self.sinks[-1].append((st, self.new_exc(st, "builtins.StopIteration")))
                return []
            _, ss, i = st.heap[a[0][1]]
            st.heap[a[0][1]] = ("cyc", ss, (i + 1) % len(ss))
            return [(st, ss[i][1])]
        if a and len(a) == 2 and (a[0][0] in ("tuple", "list") or a[0][0] == "ref" and st.heap[a[0][1]][0] in ("list", "set")):
            ss = self.segs_of(st, a[0])
            if not ss:
                return [(st, a[1])]
            if ss[0][0] == "el":
                return [(st, ss[0][1])]
        return [(st, app("next", *[self.snap(st, x) for x in a or []]))]

    def _pure(name):
        def f(self, st, a, segs, kw, node):
            if a is None:
                a2 = [self.snap_segs(st, segs, 0)]
            else:
                a2 = [self.snap(st, x) for x in a]
            return [(st, app(name, *a2))]
        return f

    def _quant(pure, stop):
        def f(self, st, a, segs, kw, node):
            ss = self.segs_of(st, a[0]) if a else None
            if ss is None or not all(x[0] == "el" for x in ss) or len(ss) > 6:
                return pure(self, st, a, segs, kw, node)
            out, live = [], [st]
            for x in ss:
                nxt = []
                for y in live:
                    for z, b in self.branch(y, x[1], node):
                        if b == stop:
                            out.append((z, const(stop)))
                        else:
                            nxt.append(z)
                live = nxt
            return out + [(y, const(not stop)) for y in live]

        return f

    b_any = _quant(_pure("any"), True)
    b_all = _quant(_pure("all"), False)
    def _fold(name, fn):
        pure = Interp_pure(name)

        def f(self, st, a, segs, kw, node):
            vs = None
            if a and not kw:
                ss = [("el", x) for x in a] if len(a) > 1 and name in ("max", "min") else self.segs_of(st, a[0]) if name != "abs" else [("el", a[0])]
                if ss and all(s[0] == "el" and is_int(s[1]) for s in ss):
                    vs = [cval(s[1]) for s in ss]
            if vs:
                return [(st, const(fn(vs)))]
            return pure(self, st, a, segs, kw, node)

        return f

    b_sum = _fold("sumof", sum)
    b_max = _fold("max", max)
    b_min = _fold("min", min)
    b_abs = _fold("abs", lambda v: abs(v[0]))
    def b_id(self, st, a, segs, kw, node):
        if self.objects and a and a[0][0] == "ref":
            return [(st, ("sym", f"!identity_{a[0][1]}"))]
        return [(st, app("id", *[self.snap(st, x) for x in a or []]))]

    def b_repr(self, st, a, segs, kw, node):
        if self.objects and a and len(a) == 1:
            v = literal(self.snap(st, a[0]))
            if v is not None:
                return [(st, const(repr(v[0])))]
        return [(st, app("repr", *[self.snap(st, x) for x in a or []]))]
    def b_memoryview(self, st, a, segs, kw, node):
        if self.objects and a and len(a) == 1 and a[0][0] == "ref" and st.heap[a[0][1]][0] == "inst":
            return [(st, a[0])]
        return [(st, app("memoryview", *[self.snap(st, x) for x in a or []]))]

    b_bytes = _pure("bytes")
    def b_bytearray(self, st, a, segs, kw, node):
        if self.buffers and not kw and len(segs) == 1 and segs[0][0] == "el":
            v = ("buf", st.n, self.snap(st, segs[0][1]))
            st.n += 1
            return [(st, v)]
        return [(st, app("bytearray", *[self.snap(st, x[1]) for x in segs]))]
    b_divmod = _pure("divmod")
    b_round = _pure("round")
    b_vars = _pure("vars")

    def b_print(self, st, a, segs, kw, node):
        return [(st, NONE)]

    def fold(self, st, f, a):
        """A call of a builtin on constants: its value, or the exception it raises."""
        try:
            return [(st, const(f(*[cval(x) for x in a])))]
        except (ValueError, TypeError, OverflowError) as e:
            self.sinks[-1].append((st, self.new_exc(st, "builtins." + type(e).__name__)))
            return []

    def b_str(self, st, a, segs, kw, node):
        if a and is_const(a[0]) and isinstance(cval(a[0]), str):
            return [(st, a[0])]
        if self.objects and a and len(a) == 1:
            v = literal(self.snap(st, a[0]))
            if v is not None:
                return [(st, const(str(v[0])))]
            t = self.type_of(st, a[0])
            ci = self.p.classes.get(t[1]) if t and t[0] == "cls" and a[0][0] == "ref" else None
            fi = ci and (self.p.find_method(ci, "__str__") or self.p.find_method(ci, "__repr__"))
            if fi:
                return self.call_value(st, ("bm", a[0], fi.key), [], [], node)
        return [(st, app("str", *[self.snap(st, x) for x in a or []]))]

    def b_int(self, st, a, segs, kw, node):
        if self.objects and a and not kw and all(is_const(x) for x in a):
            if len(a) == 1 and type(cval(a[0])) is int:
                return [(st, a[0])]
            return self.fold(st, int, a)
        if a and is_int(a[0]):
            return [(st, a[0])]
        return [(st, app("int", *[self.snap(st, x) for x in a or []]))]

    def b_float(self, st, a, segs, kw, node):
        if self.objects and a and not kw and all(is_const(x) for x in a):
            return self.fold(st, float, a)
        return [(st, app("float", *[self.snap(st, x) for x in a or []]))]

    def b_getattr(self, st, a, segs, kw, node):
        if not a or len(a) < 2:
            return NotImplemented
        if is_const(a[1]) and isinstance(cval(a[1]), str):
            if self.objects and len(a) == 3:
                h = self.b_hasattr(st, a[:2], segs, kw, node)
                if len(h) == 1 and h[0][1] == FALSE:
                    return [(st, a[2])]
            r = self.get_attr(st, a[0], cval(a[1]), node)
            if len(a) == 3:
                r = [(x, app("getattr", v[1], const(v[2]), self.snap(x, a[2])) if v[0] == "attr" else v) for x, v in r]
            return r
        v = app("getattr", *[self.snap(st, x) for x in a])
        if self.prot and self.raise_forks:
            f = st.fork()
            self.sinks[-1].append((f, ("exc", f.n, "?")))
            f.n += 1
        elif self.track_touch:
            st.push(self.ev("touch", st, "getattr", a[0], (("el", a[1]),), (), node))
        return [(st, v)]

    def b_hash(self, st, a, segs, kw, node):
        fi = self.dunder(st, a[0], "__hash__") if self.objects and a else None
        if fi is not None:
            return self.call_func(st, fi, a[0], [], [], node, ("bm", a[0], fi.key))
        return [(st, app("hash", *[self.snap(st, x) for x in a or []]))]

    def b_hasattr(self, st, a, segs, kw, node):
        if self.objects and a and len(a) == 2 and is_const(a[1]) and (is_const(a[0]) or self.type_of(st, a[0]) in (("b", "int"), ("b", "str"))):
            return [(st, const(hasattr(cval(a[0]) if is_const(a[0]) else {"int": 0, "str": ""}[self.type_of(st, a[0])[1]], cval(a[1]))))]
        if self.objects and a and len(a) == 2 and a[0][0] == "ref" and st.heap[a[0][1]][0] == "inst" and is_const(a[1]):
            h = st.heap[a[0][1]]
            ci = self.p.classes.get(h[1])
            if ci is not None and self.dunder(st, a[0], "__getattr__") is None:
                n = cval(a[1])
                if n in h[2] or (a[0], n) in st.overlay or self.p.find_method(ci, n) is not None:
                    return [(st, TRUE)]
                if not any(isinstance(x, (ast.Assign, ast.AnnAssign)) for c in self.p.mro(ci) for x in c.node.body):
                    return [(st, FALSE)]
                names = {t.id for c in self.p.mro(ci) for x in c.node.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
                return [(st, const(n in names))]
        return [(st, app("hasattr", *[self.snap(st, x) for x in a or []]))]

    def b_setattr(self, st, a, segs, kw, node):
        if a and len(a) == 3 and is_const(a[1]):
            self.set_attr(st, a[0], cval(a[1]), a[2], node)
            return [(st, NONE)]
        return NotImplemented

    def b_super(self, st, a, segs, kw, node):
        fr = self.fstack[-1]
        while fr.cls is None and fr.parent is not None:
            fr = self.frames[fr.parent]
        me = None
        args = fr.fi.node.args.posonlyargs + fr.fi.node.args.args
        if args:
            me = st.frames[fr.fid].get(args[0].arg)
        return [(st, ("super", fr.cls.key if fr.cls else "?", me))]

    def b_object(self, st, a, segs, kw, node):
        v = ("sym", f"!object{st.n}") if self.objects else ("res", st.n, "ext:builtins.object")
        st.n += 1
        return [(st, v)]


def norm_put_segs(segs):
    segs = list(segs)
    if len(segs) == 2 and segs[0][0] == "splat" and segs[0][1][0] == "app" and segs[0][1][1] == "repeat" and segs[1][0] == "for":
        n = segs[0][1][2][1]
        dom, cases = segs[1][1], segs[1][2]
        if dom == app("range", n) or n == app("len", dom) or dom == app("range", app("len", n)):
            new = []
            for fs, ss in cases:
                if len(ss) == 1 and ss[0][0] == "put" and ss[0][1][0] == "bix":
                    new.append((fs, (("el", ss[0][2]),)))
                else:
                    return None
            return (("for", dom, tuple(new)),)
    return None


class BindError(Exception):
    """A parameter is given twice: a TypeError at run time."""


class AmbiguousBinding(Exception):
    pass


def _none(s):
    n = ast.Constant(None)
    n._mod = s._mod
    return n


# builtin exceptions become opaque instances without raise-forks
def _exc_ctor(name):
    def f(self, st, a, segs, kw, node):
        v = ("res", st.n, "ext:builtins." + name)
        st.n += 1
        return [(st, v)]
    return f


for _n in dir(builtins):
    _o = getattr(builtins, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        setattr(Interp, "b_" + _n, _exc_ctor(_n))
