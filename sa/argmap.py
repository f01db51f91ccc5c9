"""Do the arguments of a call carry those of another one, in order and under their names?"""
from .interp import app, const, subst
from .lib import *


class Mismatch(Exception):
    def __init__(self, msg):
        self.msg = msg


def _cases(seg):
    """[(facts, segs)] of a 'for' segment."""
    return seg[2]


def carried(terms, X):
    return [s for s in terms if contains((s,), X)]


def positional(segs, X, judge, what="arguments"):
    """The segments must be: fixed elements, then one element per element of X, in order.

    judge(facts, value, element) -> True / False / None for each case of the mapping."""
    segs = list(segs)
    hit = [i for i, s in enumerate(segs) if contains((s,), X)]
    if not hit:
        raise Mismatch(f"the positional {what} are not passed on")
    if len(hit) > 1:
        raise Mismatch(f"the positional {what} are passed on more than once: " + "; ".join(show_seg(segs[i]) for i in hit))
    i = hit[0]
    if any(s[0] not in ("el",) for s in segs[:i]):
        raise Undecided("arguments before: " + "; ".join(show_seg(s) for s in segs[:i]))
    if i != len(segs) - 1:
        raise Mismatch(f"{show_seg(segs[i + 1])} is added after the positional {what}")
    _mapping(segs[i], X, judge, what, False)
    return segs[:i]


def named(segs, X, judge, what="arguments"):
    """One entry per key of X under the same key; returns the fixed entries besides."""
    hit = [s for s in segs if contains((s,), X)]
    if not hit:
        raise Mismatch(f"the keyword {what} are not passed on")
    if len(hit) > 1:
        raise Mismatch(f"the keyword {what} are passed on more than once")
    _mapping(hit[0], X, judge, what, True)
    return [s for s in segs if s not in hit]


def _mapping(seg, X, judge, what, kw):
    ix = ("sym", "i")
    if kw:
        key = app("keyat", X, ix)
        elem = ("item", X, key)
    else:
        elem = ("item", X, ix)
    if seg[0] in ("splat", "dsplat"):
        v = seg[1]
        while v[0] == "app" and v[1] in ("tuple", "list", "dict", "copy") and len(v[2]) == 1:
            v = v[2][0]
        if v == X:
            return _judge(judge, (), elem, elem, what)
        if v[0] in ("list", "tuple", "dict") and len(v[1]) == 1:
            return _mapping(v[1][0], X, judge, what, kw)
        raise Undecided(f"{what} passed as {show_seg(seg)}")
    if seg[0] == "el" and not kw:
        raise Mismatch(f"the positional {what} are passed as one value: {show_seg(seg)}")
    if seg[0] != "for":
        raise Undecided(f"{what} passed as {show_seg(seg)}")
    dom = seg[1]
    if kw:
        good = dom in (app("keys", X), X, app("range", app("len", X)))
    else:
        good = dom in (X, app("range", app("len", X)))
    if not good:
        if precise(dom) and (dom[0] == "app" and dom[1] in ("reversed", "sorted", "set", "slice") or dom[0] == "item"):
            raise Mismatch(f"the {what} passed on are those of {brief(dom)}")
        raise Undecided(f"{what} passed as {show_seg(seg)[:200]}")
    for facts, segs in _cases(seg):
        b = _bix(facts, segs)
        sub = lambda t: subst(t, b, ix) if b is not None else t
        facts = [(sub(f), v) for f, v in facts]
        if not segs:
            raise Mismatch(f"some {what} are dropped (when {', '.join(brief(f) + '=' + str(v) for f, v in facts)})")
        if len(segs) > 1:
            raise Mismatch(f"some {what} are duplicated: {'; '.join(show_seg(s) for s in segs)}")
        s = segs[0]
        if kw:
            if s[0] != "kv":
                raise Undecided(show_seg(s))
            k = sub(s[1])
            if k != key:
                if precise(k):
                    raise Mismatch(f"a keyword argument is passed on under the name {brief(k)}")
                raise Undecided(brief(k))
            v = sub(s[2])
        else:
            if s[0] != "el":
                raise Undecided(show_seg(s))
            v = sub(s[1])
        _judge(judge, facts, v, elem, what)


def _bix(facts, segs):
    """The index of the outermost iteration (the highest number, inner ones are lower)."""
    bs = [t for t in subterms((tuple(facts), tuple(segs))) if len(t) == 2 and t[0] == "bix"]
    return max(bs, key=lambda b: b[1]) if bs else None


def _judge(judge, facts, v, elem, what):
    r = judge(facts, v, elem)
    if r is True:
        return
    msg = f"an element of the {what} arrives as {brief(v)}" + (f" when {', '.join(brief(f) + '=' + str(b) for f, b in facts)}" if facts else "")
    if r is None:
        raise Undecided(msg)
    raise Mismatch(msg)


def is_inst(facts, elem, cls):
    """What the facts say about the element being an instance of the class."""
    for f, v in facts:
        if f[0] == "app" and f[1] == "isinst" and f[2][0] == elem and cls in str(f[2][1]):
            return v
    return None
