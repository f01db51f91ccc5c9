"""Convex polyhedra over integer symbols (constraint representation, Fourier-Motzkin
projection): the numeric domain of the checks that reason about offsets and lengths."""
from math import gcd

from .interp import is_const, cval


def lin(t):
    """Linear form ({symbol: coefficient}, constant) of a term, or None."""
    if t[0] == "nc":
        t = t[2]
    if is_const(t):
        v = cval(t)
        return ({}, v) if isinstance(v, int) and not isinstance(v, bool) else None
    if t[0] == "app" and t[1] in ("add", "sub") and len(t[2]) == 2:
        a, b = lin(t[2][0]), lin(t[2][1])
        if a is None or b is None:
            return None
        return plus(a, b, 1 if t[1] == "add" else -1)
    if t[0] == "app" and t[1] == "sum":
        out = ({}, t[2][1] if isinstance(t[2][1], int) else cval(t[2][1]))
        for x, c in t[2][0]:
            a = lin(x)
            if a is None:
                return None
            out = plus(out, a, c)
        return out
    if t[0] == "app" and t[1] == "sumof" and t[2][0][0] in ("list", "tuple") and all(x[0] == "el" for x in t[2][0][1]):
        out = ({}, 0)
        for x in t[2][0][1]:
            a = lin(x[1])
            if a is None:
                return None
            out = plus(out, a)
        return out
    if t[0] == "app" and t[1] == "mult" and len(t[2]) == 2:
        a, b = lin(t[2][0]), lin(t[2][1])
        if a is None or b is None:
            return None
        if not a[0]:
            a, b = b, a
        if b[0]:
            return None
        return ({k: v * b[1] for k, v in a[0].items() if v * b[1]}, a[1] * b[1])
    if t[0] == "app" and t[1] in ("neg", "usub") and len(t[2]) == 1:
        a = lin(t[2][0])
        return None if a is None else ({k: -v for k, v in a[0].items()}, -a[1])
    if t[0] in ("sym", "res", "attr", "item") or t[0] == "app":
        return ({t: 1}, 0)
    return None


def plus(a, b, s=1):
    d = dict(a[0])
    for k, v in b[0].items():
        d[k] = d.get(k, 0) + s * v
        if not d[k]:
            del d[k]
    return d, a[1] + s * b[1]


def le(a, b):
    """Constraint a <= b as a form that is <= 0."""
    x, y = lin(a) if isinstance(a[0], str) else a, lin(b) if isinstance(b[0], str) else b
    return None if x is None or y is None else plus(x, y, -1)


def lt(a, b):
    c = le(a, b)
    return None if c is None else (c[0], c[1] + 1)


def norm(c):
    d, k = c
    if not d:
        return c
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {s: v // g for s, v in d.items()}
        k = -((-k) // g)  # over the integers the constant can be rounded up
    return d, k


def empty(cs, limit=4000):
    """No integer point satisfies all forms <= 0 (sound: True means certainly empty)."""
    cs = [norm(c) for c in cs if c is not None]
    seen = {}

    def add(c):
        if not c[0]:
            return c[1] > 0
        key = tuple(sorted(c[0].items()))
        if key not in seen or seen[key] < c[1]:
            seen[key] = c[1]
        return False
    for c in cs:
        if add(c):
            return True
    while seen:
        items = [(dict(k), v) for k, v in seen.items()]
        cnt = {}
        for d, _ in items:
            for s, v in d.items():
                p = cnt.setdefault(s, [0, 0])
                p[v > 0] += 1
        s = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [c for c in items if c[0].get(s, 0) > 0]
        neg = [c for c in items if c[0].get(s, 0) < 0]
        rest = [c for c in items if s not in c[0]]
        seen.clear()
        for c in rest:
            add(c)
        for p in pos:
            for n in neg:
                a, b = p[0][s], -n[0][s]
                d, k = {}, p[1] * b + n[1] * a
                for x, v in p[0].items():
                    d[x] = d.get(x, 0) + v * b
                for x, v in n[0].items():
                    d[x] = d.get(x, 0) + v * a
                d = {x: v for x, v in d.items() if v}
                if add(norm((d, k))):
                    return True
        if len(seen) > limit:
            return False
    return False


def entails_le0(cs, c):
    """All integer points satisfy c <= 0."""
    neg = ({k: -v for k, v in c[0].items()}, -c[1] + 1)
    return empty(list(cs) + [neg])


class Zone:
    """Constraints of a path: given ones and the comparisons assumed on it."""

    def __init__(self, base=()):
        self.base = list(base)

    def constraints(self, facts):
        out, ne = list(self.base), []
        for f, v in facts:
            if f[0] != "app" or f[1] not in ("lt", "eq"):
                continue
            a, b = f[2]
            x, y = lin(a), lin(b)
            if x is None or y is None:
                continue
            if f[1] == "lt":
                out.append(lt(x, y) if v else le(y, x))
            elif v:
                out += [le(x, y), le(y, x)]
            else:
                ne.append((x, y))
        # disequalities that only leave one side
        for x, y in ne:
            if entails_le0(out, le(x, y)):
                out.append(lt(x, y))
            elif entails_le0(out, le(y, x)):
                out.append(lt(y, x))
        return out

    def holds(self, facts, op, a, b):
        """Whether a <op> b on all points."""
        cs = self.constraints(facts)
        x, y = lin(a), lin(b)
        if x is None or y is None:
            return False
        if op == "eq":
            return entails_le0(cs, le(x, y)) and entails_le0(cs, le(y, x))
        return entails_le0(cs, lt(x, y) if op == "lt" else le(x, y))

    def oracle(self, st, atom):
        if atom[0] != "app" or atom[1] not in ("lt", "eq"):
            return None
        x, y = lin(atom[2][0]), lin(atom[2][1])
        if x is None or y is None:
            return None
        cs = self.constraints(list(st.facts.items()))
        if atom[1] == "lt":
            if entails_le0(cs, lt(x, y)):
                return True
            if entails_le0(cs, le(y, x)):
                return False
            return None
        if entails_le0(cs, lt(x, y)) or entails_le0(cs, lt(y, x)):
            return False
        if entails_le0(cs, le(x, y)) and entails_le0(cs, le(y, x)):
            return True
        return None
