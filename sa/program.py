"""Whole-program loader: modules, symbol tables, classes, functions, name resolution.

Nothing of the analysed repository is imported or executed; only its syntax trees are read.
"""
import ast
import os


class AnalysisError(Exception):
    """The analysis itself could not be carried out (an anchor vanished, a file does not parse)."""


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.names = {}  # name -> list of ('func',FuncInfo)|('class',ClassInfo)|('import',dotted)|('from',mod,name)|('var',expr,node)

    def __repr__(self):
        return f"<module {self.name}>"


class FuncInfo:
    def __init__(self, key, node, module, cls=None):
        self.key, self.node, self.module, self.cls = key, node, module, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(dotted(d.func if isinstance(d, ast.Call) else d) or "?")
        self.kind = "method" if cls is not None else "func"
        if "staticmethod" in self.decorators:
            self.kind = "static"
        elif "classmethod" in self.decorators:
            self.kind = "class"
        elif "property" in self.decorators:
            self.kind = "property"
        self.is_gen = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(node)
        )

    def __repr__(self):
        return f"<func {self.key}>"

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"


class ClassInfo:
    def __init__(self, key, node, module):
        self.key, self.node, self.module = key, node, module
        self.name = node.name
        self.methods = {}
        self.consts = {}  # name -> expr
        self.base_exprs = node.bases
        self.attr_assigns = None

    def __repr__(self):
        return f"<class {self.key}>"


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return None if b is None else b + "." + e.attr
    return None


def walk_scope(node):
    """Nodes of a function body, not descending into nested scopes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(
            n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
        ):
            continue
        todo.extend(ast.iter_child_nodes(n))


def mangle(cls, name):
    """Private name mangling inside a class body."""
    if name.startswith("__") and not name.endswith("__"):
        return f"_{cls.lstrip('_')}{name}"
    return name


class Program:
    def __init__(self, root="/repo", package="unidist"):
        self.root, self.package = root, package
        self.modules, self.funcs, self.classes = {}, {}, {}
        self.nodes = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"{base} does not exist")
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(
                x for x in dirs if x not in ("test", "tests", "__pycache__", "build")
            )
            for f in sorted(files):
                if not f.endswith(".py") or f in ("_version.py",):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = name.endswith(".__init__")
                if is_pkg:
                    name = name[: -len(".__init__")]
                with open(path) as h:
                    src = h.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError(f"{rel} does not parse: {e}")
                m = Module(name, path, tree, is_pkg)
                m.rel = rel
                self.modules[name] = m
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                n._mod = m
        for c in self.classes.values():
            c.bases = []
            for b in c.base_exprs:
                r = self.resolve_expr(c.module, b)
                if r is not None and r[0] == "class":
                    c.bases.append(r[1])
        self._subclasses = None
        self._attr_types = {}
        self._globals_written = None

    # ---- indexing
    def _index(self, m):
        def stmts(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = FuncInfo(f"{m.name}:{s.name}", s, m)
                    self.funcs[fi.key] = fi
                    m.names.setdefault(s.name, []).append(("func", fi))
                elif isinstance(s, ast.ClassDef):
                    self._index_class(m, s)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.names.setdefault(a.asname, []).append(("import", a.name))
                        else:
                            top = a.name.split(".")[0]
                            m.names.setdefault(top, []).append(("import", top))
                elif isinstance(s, ast.ImportFrom):
                    base = self._from_base(m, s)
                    for a in s.names:
                        m.names.setdefault(a.asname or a.name, []).append(
                            ("from", base, a.name)
                        )
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.names.setdefault(n.id, []).append(
                                    ("var", s.value if t is n else None, s)
                                )
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.names.setdefault(s.target.id, []).append(("var", s.value, s))
                elif isinstance(s, ast.If):
                    stmts(s.body)
                    stmts(s.orelse)
                elif isinstance(s, ast.Try):
                    stmts(s.body)
                    for h in s.handlers:
                        stmts(h.body)
                    stmts(s.orelse)
                    stmts(s.finalbody)
                elif isinstance(s, (ast.With, ast.For, ast.While)):
                    stmts(s.body)

        stmts(m.tree.body)

    def _index_class(self, m, s):
        ci = ClassInfo(f"{m.name}:{s.name}", s, m)
        self.classes[ci.key] = ci
        m.names.setdefault(s.name, []).append(("class", ci))
        self.fill_class(ci)
        for fi in ci.methods.values():
            self.funcs[fi.key] = fi

    def fill_class(self, ci):
        for b in ci.node.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(
                    isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter")
                    for d in b.decorator_list
                ):
                    continue
                fi = FuncInfo(f"{ci.key}.{b.name}", b, ci.module, ci)
                ci.methods[b.name] = fi
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        ci.consts[mangle(ci.name, t.id)] = b.value
                    elif isinstance(t, ast.Tuple) and isinstance(b.value, ast.Tuple):
                        for a, v in zip(t.elts, b.value.elts):
                            if isinstance(a, ast.Name):
                                ci.consts[mangle(ci.name, a.id)] = v
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                if b.value is not None:
                    ci.consts[mangle(ci.name, b.target.id)] = b.value

    def _from_base(self, m, s):
        if not s.level:
            return s.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: -(s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    # ---- resolution
    def resolve_name(self, m, name, _seen=None):
        """('func',fi) | ('class',ci) | ('module',Module) | ('ext',dotted) | ('var',Module,name) | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        bs = m.names.get(name)
        if not bs:
            sub = f"{m.name}.{name}"
            if m.is_pkg and sub in self.modules:
                return ("module", self.modules[sub])
            return None
        # several bindings: prefer definitions/imports; several vars -> var
        kinds = {b[0] for b in bs}
        if kinds == {"var"}:
            return ("var", m, name)
        for b in bs:
            if b[0] in ("func", "class"):
                return b
            if b[0] == "import":
                return self.resolve_dotted(b[1])
            if b[0] == "from":
                return self.resolve_from(b[1], b[2], _seen)
        return ("var", m, name)

    def resolve_from(self, base, name, _seen=None):
        if base in self.modules:
            r = self.resolve_name(self.modules[base], name, _seen)
            if r is not None:
                return r
            if f"{base}.{name}" in self.modules:
                return ("module", self.modules[f"{base}.{name}"])
            return ("ext", f"{base}.{name}")
        if f"{base}.{name}" in self.modules:
            return ("module", self.modules[f"{base}.{name}"])
        return ("ext", f"{base}.{name}")

    def resolve_dotted(self, d):
        if d in self.modules:
            return ("module", self.modules[d])
        return ("ext", d)

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            r = self.resolve_name(m, e.id)
            return r if r is not None else ("ext", "builtins." + e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b is None:
                return None
            if b[0] == "module":
                r = self.resolve_name(b[1], e.attr)
                if r is None and f"{b[1].name}.{e.attr}" in self.modules:
                    return ("module", self.modules[f"{b[1].name}.{e.attr}"])
                return r
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    # ---- classes
    def mro(self, ci):
        out, todo = [], [ci]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo.extend(getattr(c, "bases", []))
        return out

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_const(self, ci, name):
        for c in self.mro(ci):
            if name in c.consts:
                return c, c.consts[name]
        return None

    def is_subclass(self, ci, other_key):
        return any(c.key == other_key for c in self.mro(ci))

    def ext_bases(self, ci):
        """Dotted names of the external bases over the whole hierarchy."""
        out = set()
        for c in self.mro(ci):
            for b in c.base_exprs:
                r = self.resolve_expr(c.module, b)
                if r and r[0] == "ext":
                    out.add(r[1])
        return out

    def cls(self, key):
        if key not in self.classes:
            raise AnalysisError(f"class {key} not found")
        return self.classes[key]

    def func(self, key):
        if key in self.funcs:
            return self.funcs[key]
        # inherited method
        mod, _, q = key.partition(":")
        if "." in q:
            c, _, n = q.partition(".")
            ci = self.classes.get(f"{mod}:{c}")
            if ci:
                fi = self.find_method(ci, n)
                if fi:
                    return fi
        m = self.modules.get(mod)
        if m and "." not in q:
            r = self.resolve_name(m, q)
            if r and r[0] == "func":
                return r[1]
        raise AnalysisError(f"function {key} not found")

    def attr_assigns(self, ci):
        """All ``self.X = e`` in the methods of the class and its bases: name -> [(expr, method)]."""
        if ci.attr_assigns is None:
            out = {}
            for fi in ci.methods.values():
                args = fi.node.args.posonlyargs + fi.node.args.args
                if not args or fi.kind == "static":
                    continue
                me = args[0].arg
                for n in walk_scope(fi.node):
                    tg = []
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, (ast.Tuple, ast.List)):
                                vs = (
                                    n.value.elts
                                    if isinstance(n.value, (ast.Tuple, ast.List))
                                    and len(n.value.elts) == len(t.elts)
                                    else [None] * len(t.elts)
                                )
                                tg += list(zip(t.elts, vs))
                            else:
                                tg.append((t, n.value))
                    elif isinstance(n, ast.AnnAssign) and n.value is not None:
                        tg.append((n.target, n.value))
                    elif isinstance(n, ast.AugAssign):
                        tg.append((n.target, None))
                    for t, v in tg:
                        if (
                            isinstance(t, ast.Attribute)
                            and isinstance(t.value, ast.Name)
                            and t.value.id == me
                        ):
                            out.setdefault(mangle(ci.name, t.attr), []).append((v, fi))
            ci.attr_assigns = out
        return ci.attr_assigns

    def globals_written(self):
        """(module, name) assigned under a ``global`` declaration in some function."""
        if self._globals_written is None:
            s = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Global):
                        for g in n.names:
                            s.add((m.name, g))
            self._globals_written = s
        return self._globals_written
