"""Helpers shared by the checks."""
import fnmatch

from .interp import NONE, Interp, app, const, contains, is_const, cval, show, show_seg, subterms
from .program import AnalysisError
from .report import Undecided

PROXY = {(("cls", "unidist.core.base.backend:BackendProxy"), "_BackendProxy__instance"): NONE}
OBJREF = "unidist.core.base.object_ref:ObjectRef"
UNWRAP = "unidist.core.backends.common.utils:unwrap_object_refs"
CORE = ("unidist.core.backends.*.core.*",)


def matcher(pats):
    pats = tuple(pats)
    return lambda k: any(fnmatch.fnmatchcase(k, p) for p in pats)


def backends(prog):
    """Execution backends: (short name, module, class name), discovered from the class hierarchy."""
    out = []
    for ci in prog.classes.values():
        if ci.key.endswith(":BackendProxy") or ci.key.endswith(":Backend"):
            continue
        if prog.is_subclass(ci, "unidist.core.base.backend:Backend"):
            mod, name = ci.key.split(":")
            out.append((mod.split(".")[-2], mod, name))
    return sorted(out)


IMPRECISE = ("lv", "lvx", "deep")


def precise(t):
    """No part of the term stands for something the analysis lost track of."""
    return not any(s and s[0] in IMPRECISE for s in subterms(t))


INTERPRETED = ("isnone", "isinst", "eq", "lt", "in", "truth", "not", "len", "callable", "isfunction", "isclass", "iscoroutinefunction")


def doubtful(path, *terms):
    """The path was taken on a condition about one of the terms that the analysis does not
    interpret: it may be infeasible, so nothing is claimed about it."""
    for e, _ in walk(path.events):
        if e.kind != "assume" or not any(contains((e.data,), t) for t in terms):
            continue
        for s in subterms(e.data):
            if s and s[0] == "app" and s[1] not in INTERPRETED and any(contains((s,), t) for t in terms):
                return True
            if s and s[0] in IMPRECISE:
                return True
            if s and s[0] == "res" and len(s) > 2:
                q = next((x for x, _ in walk(path.events) if x.kind == "call" and x.res == s), None)
                if q is not None and any(mentions(q, t) for t in terms):
                    return True
    return False


def walk(events, ctx=()):
    """All events including those in loop bodies: (event, enclosing loops, index path)."""
    for e in events:
        yield e, ctx
        if e.kind in ("loop", "spawn"):
            for p in e.paths:
                yield from walk(p.events, ctx + (e,))


def calls(events, pat=None, deep=True):
    m = matcher([pat] if isinstance(pat, str) else pat) if pat else None
    it = walk(events) if deep else ((e, ()) for e in events)
    for e, ctx in it:
        if e.kind == "call" and (m is None or (e.name and m(e.name))):
            yield e, ctx


def seg_terms(segs):
    return tuple(segs or ())


def mentions(ev, term):
    return contains(tuple(ev.args or ()), term) or contains(tuple(ev.kw or ()), term) or (
        ev.bound is not None and any(contains(v, term) for v in ev.bound.values())
    )


def kwarg(ev, name):
    return ev.arg(None, name)


def interp(ck, stops=CORE, pure=(UNWRAP,), **k):
    return Interp(ck.prog, stops=matcher(stops), pure=matcher(pure), **k)


def drive(ck, src, stops=CORE, pure=(UNWRAP,), facts=(), overlay=None, it=None, types=None, args=None, **k):
    it = it or interp(ck, stops, pure, **k)
    ov = dict(PROXY)
    ov.update(overlay or {})
    ps = it.run_source(src, facts=facts, overlay=ov, types=types, args=args)
    ck.note_interp(it, ps)
    return it, ps


def run(ck, fkey, stops=(), pure=(), it=None, self_val=None, args=None, facts=(), types=None, overlay=None, init=None, **k):
    it = it or interp(ck, stops, pure, **k)
    ps = it.run(fkey, args=args, self_val=self_val, facts=facts, types=types, overlay=overlay, init=init)
    ck.note_interp(it, ps)
    return it, ps


def objref(v):
    """The identifier wrapped by an ObjectRef value, or None."""
    if v and v[0] == "obj" and v[1] == OBJREF:
        d = dict(v[2])
        return d.get("_ref")
    return None


def one_case(seg):
    """The element of a 'for' segment that adds exactly one unconditional element."""
    if seg[0] != "for" or len(seg[2]) != 1:
        return None
    fs, segs = seg[2][0]
    if fs or len(segs) != 1 or segs[0][0] != "el":
        return None
    return segs[0][1]


def brief(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[: n - 3] + "..."


def ev_str(e, n=200):
    s = f"{e.name}({', '.join(show_seg(a) for a in e.args or ())}{'; ' if e.kw else ''}{', '.join(show_seg(a) for a in e.kw or ())})"
    return s if len(s) <= n else s[: n - 3] + "..."


def site_of(ev):
    """Stable name of a construct (no line number)."""
    return f"{ev.fn}" if ev.fn else "?"


IMMUTABLE = "unidist.core.backends.mpi.utils:ImmutableDict"


def immutable_dict(it, st, ev):
    """Meaning of ImmutableDict(d): the literal dictionary as a value."""
    x = ev.args[0][1] if ev.args else ("dict", ())
    if x[0] != "dict":
        return [((), ev.res)]

    def mk(y):
        y.facts[app("isinst", x, frozenset([IMMUTABLE]))] = True
        return x
    return [((), mk)]
