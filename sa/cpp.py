"""Abstract interpretation of the C++ helpers (from clang's syntax tree): which ranges are copied, under
which conditions, in closed form; polynomial identities over nonnegative integers."""
import itertools
import json
import os
import shutil
import subprocess

from .program import AnalysisError


class Unknown(Exception):
    """The analysis does not follow this construct."""


def dump(path, name):
    cc = shutil.which("clang++") or "/usr/bin/clang++"
    if not os.path.exists(cc):
        raise Unknown("clang++ not found")
    p = subprocess.run([cc, "-std=c++11", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + name, os.path.basename(path)],
                       cwd=os.path.dirname(path), capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise Unknown("does not compile: " + p.stderr.strip()[:200])
    t, i, d, out = p.stdout, 0, json.JSONDecoder(), []
    while True:
        i = t.find("{", i)
        if i < 0:
            return out
        o, i = d.raw_decode(t, i)
        out.append(o)


def functions(docs):
    out = {}

    def go(n):
        if n.get("kind") in ("FunctionDecl", "CXXMethodDecl") and any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
            out[n["name"]] = n
        if n.get("kind") in ("NamespaceDecl", "LinkageSpecDecl", "TranslationUnitDecl"):
            for c in n.get("inner", []):
                go(c)
    for d in docs:
        go(d)
    return out


# ---------------------------------------------------------------- types
def width(t):
    """(bits, signed) of an integral type, None for pointers and the rest."""
    t = (t or "").replace("const ", "").strip()
    return {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "size_t": (64, False), "uintptr_t": (64, False), "intptr_t": (64, True),
            "int64_t": (64, True), "uint64_t": (64, False), "int32_t": (32, True), "uint32_t": (32, False), "short": (16, True), "unsigned short": (16, False), "int16_t": (16, True), "uint16_t": (16, False),
            "char": (8, True), "unsigned char": (8, False), "uint8_t": (8, False), "int8_t": (8, True), "long long": (64, True), "unsigned long long": (64, False), "size_type": (64, False), "ptrdiff_t": (64, True), "std::ptrdiff_t": (64, True), "std::size_t": (64, False)}.get(t)


def qual(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


def wide(n):
    t = n.get("type") or {}
    return width(t.get("qualType")) or width(t.get("desugaredQualType"))


N = lambda k: ("n", k)
V = lambda s: ("v", s)


def fold(op, a, b):
    if a[0] == b[0] == "n":
        try:
            return N(ev((op, a, b), {}))
        except ZeroDivisionError:
            raise Unknown("division by zero")
    if op in "+-" and b == N(0):
        return a
    if op == "+" and a == N(0):
        return b
    if op == "*" and (a == N(0) or b == N(0)):
        return N(0)
    if op == "*" and a == N(1):
        return b
    if op in "*/" and b == N(1):
        return a
    return (op, a, b)


def cast(x, w):
    if w is None or x[0] == "n" and 0 <= x[1] < (1 << (w[0] - 1)):
        return x
    if x[0] == "cast" and x[1] == w:
        return x
    return ("cast", w, x)


def ev(t, env):
    """Value of a term for given parameters."""
    k = t[0]
    if k == "n":
        return t[1]
    if k == "v":
        return env[t[1]]
    if k == "cast":
        (w, s), x = t[1], ev(t[2], env)
        x &= (1 << w) - 1
        return x - (1 << w) if s and x >> (w - 1) else x
    if k == "~":
        return ~ev(t[1], env)
    if k == "neg":
        return -ev(t[1], env)
    if k == "!":
        return not ev(t[1], env)
    if k in ("&&", "||"):
        a = ev(t[1], env)
        return bool(ev(t[2], env)) if bool(a) == (k == "&&") else bool(a)
    if k == "?":
        return ev(t[2] if ev(t[1], env) else t[3], env)
    a, b = ev(t[1], env), ev(t[2], env)
    if k in "/%":
        q = abs(a) // abs(b)
        q = q if (a < 0) == (b < 0) else -q
        return q if k == "/" else a - q * b
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b,
            "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[k]()


def subst(t, m):
    if t in m:
        return m[t]
    if t[0] in ("n", "v"):
        return t
    return tuple(subst(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)


def mentions(t, names):
    return t[0] == "v" and t[1] in names or any(mentions(x, names) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


# ---------------------------------------------------------------- evaluation
class State:
    def __init__(self):
        self.env, self.cond, self.events, self.done = {}, [], [], None

    def fork(self):
        s = State()
        s.env, s.cond, s.events, s.done = dict(self.env), list(self.cond), list(self.events), self.done
        return s


class Eval:
    """Paths of a function; events: ("copy", dst, src, len, loop, how, line), ("join", var, loop, line), ("fill", ...)."""

    def __init__(self, path):
        self.path = path
        self.funcs = functions(dump(path, "unidist"))
        self.asked = set()
        self.loops = []
        self.fresh = 0
        self.line = 0
        self.text = open(path, encoding="utf-8").read()

    def func(self, name):
        if name not in self.funcs and name not in self.asked and name.isidentifier():
            self.asked.add(name)
            if name + "(" in self.text.replace(" (", "("):
                for k, v in functions(dump(self.path, name)).items():
                    if k == name:
                        self.funcs.setdefault(k, v)
        return self.funcs.get(name)

    def where(self, n):
        b = (n.get("range") or {}).get("begin") or {}
        b = b.get("expansionLoc") or b
        o = b.get("offset")
        return self.text[:o].count("\n") + 1 if o is not None else 0

    def run(self, name, args):
        f = self.func(name)
        if f is None:
            raise Unknown(f"{name} not found")
        st = State()
        outs = self.call(f, args, st)
        return [s for s, _ in outs]

    def call(self, f, args, st):
        ps = [c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        if len(ps) != len(args):
            raise Unknown(f"{len(args)} arguments of {f['name']}")
        saved = st.env
        if len(saved) > 200:
            raise Unknown("too deep")
        st.env = dict(saved)
        for p, a in zip(ps, args):
            st.env[p["id"]] = cast(a, wide(p)) if isinstance(a, tuple) and a[0] != "vec" else a
        out = []
        body = next(c for c in f["inner"] if c.get("kind") == "CompoundStmt")
        for s in self.stmt(body, st):
            v = s.done[1] if s.done else None
            s.done = None
            s.env = {**saved, **{k: s.env[k] for k in saved if k in s.env}}
            out.append((s, v))
        return out

    # ---- statements
    def stmt(self, n, st):
        if st.done or not n:
            return [st]
        k = n.get("kind")
        inner = n.get("inner", [])
        if k == "CompoundStmt":
            cur = [st]
            for c in inner:
                cur = [y for x in cur for y in self.stmt(c, x)]
                if len(cur) > 64:
                    raise Unknown("too many paths")
            return cur
        if k == "NullStmt":
            return [st]
        if k == "DeclStmt":
            for c in inner:
                if c.get("kind") != "VarDecl":
                    if c.get("kind") in ("UsingDirectiveDecl", "UsingDecl", "StaticAssertDecl", "TypedefDecl", "TypeAliasDecl"):
                        continue
                    raise Unknown(c.get("kind"))
                if not c.get("inner"):
                    st.env[c["id"]] = ("v", "uninit_" + c["id"])
                    continue
                st.env[c["id"]] = self.declare(c, st)
            return [st]
        if k == "ReturnStmt":
            st.done = ("ret", self.expr(inner[0], st) if inner else None)
            return [st]
        if k == "IfStmt":
            if n.get("hasInit") or n.get("hasVar"):
                raise Unknown("if with initialization")
            c = self.expr(inner[0], st)
            out = []
            for want in (True, False):
                if c[0] == "n" and bool(c[1]) != want:
                    continue
                s = st.fork()
                if c[0] != "n":
                    s.cond.append((c, want))
                b = inner[1] if want else inner[2] if len(inner) > 2 else None
                out += self.stmt(b, s) if b else [s]
            return out
        if k == "ForStmt":
            return self.loop(n, st)
        if k == "CXXForRangeStmt":
            return self.range_loop(n, st)
        if k == "CallExpr" and self.callee(inner[0]) not in ("memcpy", "memmove", "copy", "copy_n"):
            f = self.callee(inner[0])
            g = self.func(f) if f else None
            if g is not None:
                return [s for s, _ in self.call(g, [self.expr(x, st) for x in inner[1:]], st)]
        self.expr(n, st)
        return [st]

    def declare(self, c, st):
        t = qual(c)
        e = c["inner"][-1]
        if "vector<" in t and not t.rstrip().endswith("&"):
            return ("vec", c["id"])
        v = self.expr(e, st)
        return cast(v, wide(c)) if v[0] not in ("vec", "elem", "thread") else v

    def loop(self, n, st):
        init, _, cnd, inc, body = (n["inner"] + [None] * 5)[:5]
        if not init or not cnd or not inc or init.get("kind") != "DeclStmt" or len(init["inner"]) != 1:
            raise Unknown("form of a loop")
        var = init["inner"][0]
        lo = self.declare(var, st)
        st.env[var["id"]] = lo
        i = V(f"i{self.fresh}")
        self.fresh += 1

        def strip(x):
            while x.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
                x = x["inner"][0]
            return x
        q = strip(cnd)
        if q.get("kind") != "BinaryOperator" or q.get("opcode") not in ("<", "!=", "<=", ">"):
            raise Unknown("condition of a loop")
        l, r = strip(q["inner"][0]), q["inner"][1]
        if q["opcode"] == ">":
            l, r = strip(q["inner"][1]), q["inner"][0]
        if (l.get("referencedDecl") or {}).get("id") != var["id"]:
            raise Unknown("condition of a loop")
        hi = self.expr(r, st)
        if q["opcode"] == "<=":
            hi = fold("+", hi, N(1))
        u = strip(inc)
        tgt = (strip(u["inner"][0]).get("referencedDecl") or {}).get("id")
        step = u.get("opcode") == "++" or u.get("opcode") == "+=" and strip(u["inner"][1]).get("value") == "1"
        if tgt != var["id"] or not step:
            raise Unknown("step of a loop")
        # variables that change in the body
        sym = {}
        for _ in range(2):
            s = st.fork()
            s.env[var["id"]] = i
            for d, (b, x) in sym.items():
                s.env[d] = b if x is None else fold("+", b, fold("*", fold("-", i, lo), x))
            self.loops.append((i[1], lo, hi))
            try:
                outs = self.stmt(body, s)
            finally:
                self.loops.pop()
            if len(outs) != 1 or outs[0].done or len(outs[0].cond) != len(st.cond):
                raise Unknown("branches in a loop")
            o = outs[0]
            changed = [d for d in st.env if d != var["id"] and o.env[d] != (s.env[d] if d not in sym else s.env[d]) or False]
            if sym or not [d for d in st.env if d != var["id"] and o.env[d] != st.env[d]]:
                break
            probe = st.fork()
            probe.env[var["id"]] = i
            names = {}
            for d in st.env:
                if d != var["id"] and o.env[d] != st.env[d]:
                    names[d] = V("carried_" + d)
                    probe.env[d] = names[d]
            self.loops.append((i[1], lo, hi))
            try:
                q2 = self.stmt(body, probe)[0]
            finally:
                self.loops.pop()
            for d, v in names.items():
                x = q2.env[d]
                if x[0] == "cast":
                    x = x[2]
                if x[0] in "+-" and x[1] == v and not mentions(x[2], {i[1]} | {w[1] for w in names.values()}):
                    sym[d] = (st.env[d], x[2] if x[0] == "+" else fold("-", N(0), x[2]))
                else:
                    raise Unknown("a variable carried by a loop")
        res = st.fork()
        res.events = o.events
        for d, (b, x) in sym.items():
            res.env[d] = fold("+", b, fold("*", fold("-", hi, lo), x))
        return [res]

    def range_loop(self, n, st):
        rng = next((c for c in n["inner"] if c and c.get("kind") == "DeclStmt"), None)
        v = self.expr(rng["inner"][0]["inner"][-1], st)
        if v[0] != "vec":
            raise Unknown("range of a loop")
        decl = [c for c in n["inner"] if c and c.get("kind") == "DeclStmt"][-1]["inner"][0]
        s = st.fork()
        s.env[decl["id"]] = ("elem", v[1], "all")
        outs = self.stmt(n["inner"][-1], s)
        # `if (t.joinable()) t.join()`: threads that are not joinable have nothing to join
        keep = [o for o in outs if all(c == ("joinable",) and w for c, w in o.cond[len(st.cond):])]
        if len(keep) != 1 or keep[0].done:
            raise Unknown("branches in a loop")
        o = keep[0]
        o.cond = o.cond[: len(st.cond)]
        return [o]

    # ---- expressions
    def expr(self, n, st):
        k = n.get("kind")
        inner = n.get("inner", [])
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXFunctionalCastExpr") and len(inner) == 1 and not (k == "CXXFunctionalCastExpr"):
            return self.expr(inner[0], st)
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr"):
            v = self.expr(inner[0], st)
            if n.get("castKind") in ("IntegralCast", "PointerToIntegral") and v[0] not in ("vec", "elem", "thread", "joinable"):
                return cast(v, wide(n))
            if n.get("castKind") == "IntegralToBoolean":
                return ("!=", v, N(0))
            if n.get("castKind") in ("FloatingToIntegral", "IntegralToFloating"):
                raise Unknown("floating point")
            return v
        if k == "IntegerLiteral":
            return N(int(n["value"]))
        if k == "CXXBoolLiteralExpr":
            return N(1 if n.get("value") else 0)
        if k == "UnaryExprOrTypeTraitExpr":
            raise Unknown("sizeof")
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["id"] in st.env:
                return st.env[d["id"]]
            return ("ref", d.get("name"))
        if k == "BinaryOperator":
            op = n["opcode"]
            if op == "=":
                return self.assign(inner[0], self.expr(inner[1], st), st)
            if op == ",":
                self.expr(inner[0], st)
                return self.expr(inner[1], st)
            a, b = self.expr(inner[0], st), self.expr(inner[1], st)
            if any(x[0] in ("vec", "elem", "thread", "ref") for x in (a, b)):
                raise Unknown("operands of " + op)
            if (op in "+-") and self.pointee(inner[0]) not in (None, 1) or op == "+" and self.pointee(inner[1]) not in (None, 1):
                raise Unknown("arithmetic on wide pointers")
            v = fold(op, a, b)
            w = wide(n)
            return cast(v, w) if w and w != (64, True) and op in "+-*/%&|^<<>>" and v[0] not in ("n", "&") and w[0] < 64 else v
        if k == "CompoundAssignOperator":
            a, b = self.expr(inner[0], st), self.expr(inner[1], st)
            if self.pointee(inner[0]) not in (None, 1):
                raise Unknown("arithmetic on wide pointers")
            return self.assign(inner[0], fold(n["opcode"][:-1], a, b), st)
        if k == "UnaryOperator":
            op = n["opcode"]
            if op in ("++", "--"):
                a = self.expr(inner[0], st)
                self.assign(inner[0], fold(op[0], a, N(1)), st)
                return a
            a = self.expr(inner[0], st)
            if op == "~":
                return ("~", a)
            if op == "-":
                return N(-a[1]) if a[0] == "n" else ("neg", a)
            if op == "!":
                return ("!", a)
            raise Unknown("operator " + op)
        if k == "ConditionalOperator":
            c = self.expr(inner[0], st)
            if c[0] == "n":
                return self.expr(inner[1 if c[1] else 2], st)
            return ("?", c, self.expr(inner[1], st), self.expr(inner[2], st))
        if k in ("CXXTemporaryObjectExpr", "CXXConstructExpr"):
            if "thread" in qual(n):
                if len(inner) == 1:
                    return self.expr(inner[0], st)
                return self.thread(inner, st)
            if len(inner) == 1:
                return self.expr(inner[0], st)
            raise Unknown("object of type " + qual(n))
        if k == "CXXOperatorCallExpr":
            f = self.callee(inner[0])
            if f == "operator=":
                v = self.expr(inner[2], st)
                if v[0] == "thread":
                    t = self.expr(inner[1], st)
                    if t[0] != "elem":
                        raise Unknown("where a thread is kept")
                    self.started(v, t[1], st)
                    return t
                raise Unknown("assignment of an object")
            if f == "operator[]":
                a = self.expr(inner[1], st)
                if a[0] == "vec":
                    return ("elem", a[1], self.expr(inner[2], st))
            if f == "operator*":
                a = self.expr(inner[1], st)
                if a[0] == "elem":
                    return a
            raise Unknown(f)
        if k == "CXXMemberCallExpr":
            m = inner[0]
            while m.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                m = m["inner"][0]
            o = self.expr(m["inner"][0], st)
            name = m.get("name")
            if o[0] == "elem" and name == "join":
                st.events.append(("join", o[1], o[2], list(self.loops), self.where(n)))
                return N(0)
            if o[0] == "elem" and name == "detach":
                st.events.append(("detach", o[1], self.where(n)))
                return N(0)
            if o[0] == "elem" and name == "joinable":
                return ("joinable",)
            if o[0] == "vec" and name in ("emplace_back", "push_back"):
                v = self.thread(inner[1:], st) if name == "emplace_back" and len(inner) > 2 else self.expr(inner[1], st)
                if v[0] != "thread":
                    raise Unknown("what is kept")
                self.started(v, o[1], st)
                return N(0)
            if o[0] == "vec" and name == "reserve":
                return N(0)
            raise Unknown("method " + str(name))
        if k == "CallExpr":
            f = self.callee(inner[0])
            args = [self.expr(x, st) for x in inner[1:]]
            if f in ("memcpy", "memmove", "copy", "copy_n") and len(args) == 3:
                self.copied(f, args, None, st, n)
                return args[0]
            if f == "fill" and self.pointee(inner[1]) == 8 and len(args) == 3 and not self.own(inner[0]):
                st.events.append(("fill", args, self.where(n)))
                return N(0)
            if f == "move" and len(args) == 1:
                return args[0]
            if f in ("min", "max") and len(args) == 2:
                return ("?", ("<" if f == "min" else ">", args[1], args[0]), args[1], args[0])
            g = self.func(f) if f else None
            if g is None:
                raise Unknown(f"call of {f}")
            outs = self.call(g, args, st)
            if len(outs) != 1 or outs[0][0] is not st:
                raise Unknown(f"branches in {f}")
            return outs[0][1] if outs[0][1] is not None else N(0)
        raise Unknown(k)

    def own(self, c):
        return "std" not in (qual(c) or "") and False

    def pointee(self, n):
        t = qual(n).replace("const ", "").replace("__restrict", "").strip()
        if not t.endswith("*"):
            return None
        w = width(t[:-1].strip())
        return w[0] // 8 if w else 1 if "void" in t else 0

    def callee(self, n):
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return (n.get("referencedDecl") or {}).get("name")

    def assign(self, lhs, v, st):
        while lhs.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            lhs = lhs["inner"][0]
        d = (lhs.get("referencedDecl") or {}).get("id")
        if d is None or d not in st.env:
            raise Unknown("assignment")
        st.env[d] = cast(v, wide(lhs))
        return st.env[d]

    def thread(self, inner, st):
        f = self.callee(inner[0])
        args = [self.expr(x, st) for x in inner[1:]]
        if f not in ("memcpy", "memmove") or len(args) != 3:
            raise Unknown("function of a thread")
        return ("thread", tuple(args), self.where(inner[0]))

    def started(self, v, vec, st):
        st.events.append(("copy", v[1][0], v[1][1], v[1][2], list(self.loops), vec, v[2]))

    def copied(self, f, args, vec, st, n):
        d, s, l = args
        if f == "copy":
            d, s, l = args[2], args[0], fold("-", args[1], args[0])
        elif f == "copy_n":
            d, s, l = args[2], args[0], args[1]
        st.events.append(("copy", d, s, l, list(self.loops), vec, self.where(n)))


# ---------------------------------------------------------------- polynomials over nonnegative integers
def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        r[m] = r.get(m, 0) + c * k
        if not r[m]:
            del r[m]
    return r


def pmul(p, q):
    r = {}
    for (m, a), (l, b) in itertools.product(p.items(), q.items()):
        k = tuple(sorted(m + l))
        r[k] = r.get(k, 0) + a * b
        if not r[k]:
            del r[k]
    return r


def pconst(c):
    return {(): c} if c else {}


def pvar(v):
    return {(v,): 1}


def psub(p, v, q):
    """p with the variable v replaced by the polynomial q."""
    r = {}
    for m, c in p.items():
        t = {tuple(x for x in m if x != v): c}
        for _ in range(m.count(v)):
            t = pmul(t, q)
        r = padd(r, t)
    return r


def pdiv(p, v):
    """p / v if v is a factor of every monomial."""
    r = {}
    for m, c in p.items():
        if v not in m:
            return None
        l = list(m)
        l.remove(v)
        r[tuple(l)] = c
    return r


class Prover:
    """Polynomials for the terms of one path.  Variables are integers; self.nonneg are polynomials
    known to be nonnegative; bounded variables x have x >= 0 and ub(x) - x >= 0."""

    def __init__(self, params):
        self.lower = dict(params)  # variable -> least value
        self.upper = {}
        self.facts = []
        self.sub = []
        self.memo = {}
        self.k = 0

    def new(self, name, lower=0, upper=None):
        self.k += 1
        v = f"{name}{self.k}"
        self.lower[v] = lower
        if upper is not None:
            self.upper[v] = upper
        return v

    def norm(self, p):
        for v, q in self.sub:
            p = psub(p, v, q)
        return p

    def ge0(self, p, depth=2):
        p = self.norm(p)
        if self.simple(p):
            return True
        if depth:
            for f in self.facts:
                if self.ge0(padd(p, self.norm(f), -1), depth - 1):
                    return True
        return False

    def simple(self, p):
        vs = sorted({x for m in p for x in m})
        ups = [v for v in vs if v in self.upper]
        for n in range(len(ups) + 1):
            for which in itertools.combinations(ups, n):
                q = p
                for v in which:
                    q = psub(q, v, padd(self.norm(self.upper[v]), pvar("^" + v), -1))
                for v in sorted({x for m in q for x in m}):
                    lo = self.lower.get(v, 0 if v.startswith("^") else None)
                    if lo is None:
                        break
                    if lo:
                        q = psub(q, v, padd(pvar(v + "'"), pconst(lo)))
                else:
                    if all(c >= 0 for c in q.values()):
                        return True
        return False

    def poly(self, t):
        if t not in self.memo:
            self.memo[t] = self.poly1(t)
        return self.norm(self.memo[t])

    def poly1(self, t):
        k = t[0]
        if k == "n":
            return pconst(t[1])
        if k == "v":
            if t[1] not in self.lower:
                raise Unknown("value of " + t[1])
            return pvar(t[1])
        if k == "cast":
            p = self.poly(t[2])
            (w, s) = t[1]
            if w < 64:
                if all(v in self.small for m in p for v in m) and sum(abs(c) for c in p.values()) < 4 and all(len(m) < 2 for m in p):
                    return p
                raise Unknown("narrowing")
            if s or self.ge0(p):
                return p
            raise Unknown("sign of a value")
        if k in "+-*":
            a, b = self.poly(t[1]), self.poly(t[2])
            return pmul(a, b) if k == "*" else padd(a, b, 1 if k == "+" else -1)
        if k == "neg":
            return padd({}, self.poly(t[1]), -1)
        if k == "&":
            for x, m in ((t[1], t[2]), (t[2], t[1])):
                while m[0] == "cast":
                    m = m[2]
                if m[0] == "~":
                    u = self.poly(m[1])
                    if padd(u, pconst(1)) == pvar("B"):
                        return self.aligned(x)
                if m[0] == "neg" and self.poly(m[1]) == pvar("B"):
                    return self.aligned(x)
            raise Unknown("bits")
        if k in "/%":
            a, b = self.poly(t[1]), self.poly(t[2])
            if len(b) != 1 or list(b.values()) != [1] or len(list(b)[0]) != 1:
                raise Unknown("divisor")
            v = list(b)[0][0]
            q = pdiv(a, v)
            if q is not None:
                return q if k == "/" else {}
            if not self.ge0(a):
                raise Unknown("sign of a dividend")
            Q = self.new("q")
            r = self.new("r", 0, padd(pvar(v), pconst(-1)))
            # a = v*Q + r: solve for a variable of a that occurs once, with coefficient one
            for x in sorted({y for m in a for y in m}, reverse=True):
                if a.get((x,)) == 1 and sum(x in m for m in a) == 1 and x not in self.upper and x.startswith("k"):
                    rest = {m: c for m, c in a.items() if m != (x,)}
                    val = padd(padd(pmul(pvar(v), pvar(Q)), pvar(r)), rest, -1)
                    self.sub.append((x, val))
                    self.memo = {t2: p for t2, p in self.memo.items()}
                    return pvar(Q) if k == "/" else pvar(r)
            raise Unknown("division")
        raise Unknown("value " + k)

    def aligned(self, x):
        p = self.poly(x)
        key = ("aligned", tuple(sorted(p.items())))
        if key not in self.memo:
            v = self.new("k")
            low = padd(p, pmul(pvar("B"), pvar(v)), -1)
            self.facts += [low, padd(padd(pvar("B"), pconst(-1)), low, -1)]
            self.rem = getattr(self, "rem", [])
            self.rem.append(low)
            self.memo[key] = pmul(pvar("B"), pvar(v))
        return self.memo[key]

    def condition(self, c, want):
        """A fact from a condition."""
        if c[0] == "!":
            return self.condition(c[1], not want)
        if c[0] == "&&" and want or c[0] == "||" and not want:
            self.condition(c[1], want)
            self.condition(c[2], want)
            return
        if c[0] in ("<", "<=", ">", ">="):
            a, b = (c[1], c[2]) if c[0] in ("<", "<=") else (c[2], c[1])
            strict = c[0] in ("<", ">")
            if not want:
                a, b, strict = b, a, not strict
            p = padd(padd(self.poly(b), self.poly(a), -1), pconst(-1 if strict else 0))
            self.facts.append(p)
            # B*x - 1 >= 0 and B >= 1: x - 1 >= 0
            if strict:
                q = pdiv(padd(p, pconst(1)), "B")
                if q is not None:
                    self.facts.append(padd(q, pconst(-1)))
            else:
                q = pdiv(p, "B")
                if q is not None:
                    self.facts.append(q)

    small = ("T",)


def ite(t):
    """A conditional inside a term, if any."""
    if t[0] == "?":
        return t
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            y = ite(x)
            if y:
                return y
    return None
