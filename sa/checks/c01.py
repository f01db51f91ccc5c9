"""Path-sensitive abstract interpretation of the whole call path of every backend (public
wrapper, options, backend classes) under each combination of declared and requested number
of results (absent, 0, 1, any n > 1), followed by the pairing of identifiers with elements
of the result in the executing core of every backend.  For each path the returned value is
compared symbolically with what the property prescribes; loops are summarised over all
iterations."""
from ..front import *
from ..interp import NONE, app, const

N = ("sym", "K")
M = ("sym", "D")
VALS = {"absent": None, "0": 0, "1": 1}


def check(ck):
    ck.rule("front-return", "A call whose effective number of results is 0 / 1 / n>1 returns None / one reference / the list of the n references of the submitted task, in order.")
    ck.rule("front-count", "The number of results handed to the executing core is the effective one: given with the call, else declared, else 1.")
    ck.rule("front-once", "A call submits the task exactly once.")
    for b, mod, cls in backends(ck.prog):
        for kind in ("f", "m"):
            decls = ["absent", "0", "1", "many"] if kind == "f" else ["absent"]
            for d in decls:
                for o in ("absent", "0", "1", "many"):
                    site = f"{b}/{'function' if kind == 'f' else 'actor-method'}/declared={d}/given={o}"
                    ck.guard("front-return", site, lambda: front(ck, site, b, mod, cls, kind, d, o))
    from . import c01core
    c01core.check(ck)


def front(ck, site, b, mod, cls, kind, d, o):
    facts = []
    ex = {"absent": "None", "0": "0", "1": "1"}
    if d == "many":
        facts.append((app("lt", const(1), M), True))
    if o == "many":
        facts.append((app("lt", const(1), N), True))
    src = driver(mod, cls, kind, decl=("None", ex.get(d, "D"), "None"), opts=("None", ex.get(o, "K"), "None"))
    eff = o if o != "absent" else d
    want = {"absent": const(1), "0": const(0), "1": const(1), "many": N if o == "many" else M}[eff]
    n = {"absent": 1, "0": 0, "1": 1, "many": 2}[eff]
    it, ps = drive(ck, src, facts=facts)
    for p in ps:
        if p.outcome == "raise":
            continue
        if p.outcome != "ret":
            ck.bad("front-return", site, "the call does not return", "")
            continue
        cs = [(e, ctx) for e, ctx in carriers(p) if e.cond != "raises"]
        if not cs:
            ck.bad("front-once", site, "no submission receives the arguments of the call", "")
            continue
        if len(cs) > 1 or cs[0][1]:
            ck.bad("front-once", site, "the arguments are submitted more than once: " + "; ".join(ev_str(e, 80) for e, _ in cs), cs[-1][0].where)
            continue
        ck.ok("front-once", site)
        e = cs[0][0]
        counts(ck, site, it, p, e, want)
        value(ck, site, it, p, e, n, want)


def chain(p, e):
    """The call and those whose results its receiver was made from."""
    out = [e]
    r = e.recv
    while True:
        while r is not None and r[0] == "attr":
            r = r[1]
        q = next((x for x in p.events if x.kind == "call" and x.res == r), None) if r is not None else None
        if q is None or q in out:
            return out
        out.append(q)
        r = q.recv


def counts(ck, site, it, p, e, want):
    got = None
    for q in chain(p, e):
        got = kwarg(q, "num_returns")
        if got is not None:
            break
    if got is None:
        return  # the front end itself takes the result apart (see front-return)
    if got == want or num(it, p, got) == num(it, p, want):
        ck.ok("front-count", site, e.where)
    elif precise(got):
        ck.bad("front-count", site, f"{brief(got)} results are requested from the executing core instead of {brief(want)}", e.where)
    else:
        ck.unk("front-count", site, brief(got))


def num(it, p, v):
    b = p.state.binds.get(v, v)
    return b


def value(ck, site, it, p, e, n, want):
    v, R = p.value, e.res
    bad = lambda m: ck.bad("front-return", site, m, e.where)
    if n == 0:
        if v == NONE:
            ck.ok("front-return", site)
        elif precise(v):
            bad(f"a call with no results returns {brief(v)} instead of None")
        else:
            ck.unk("front-return", site, brief(v))
        return
    if n == 1:
        r = objref(v)
        if r is None:
            return bad(f"a call with one result returns {brief(v)} instead of one reference") if precise(v) else ck.unk("front-return", site, brief(v))
        if same(it, p, r, R, None, e):
            ck.ok("front-return", site)
        elif precise(r):
            bad(f"the reference returned wraps {brief(r)} instead of the submitted task's result")
        else:
            ck.unk("front-return", site, brief(r))
        return
    if v[0] not in ("list", "tuple"):
        return bad(f"a call with several results returns {brief(v)} instead of a list of references") if precise(v) else ck.unk("front-return", site, brief(v))
    if not precise(v):
        return ck.unk("front-return", site, brief(v))
    if len(v[1]) != 1 or one_case(v[1][0]) is None:
        return bad(f"the references returned are {brief(v)}, not one per result in order")
    seg = v[1][0]
    dom, el = seg[1], objref(one_case(seg))
    if el is None:
        return bad(f"elements of the returned list are not references: {brief(v)}")
    bix = next((t for t in subterms(one_case(seg)) if t[0] == "bix"), None)
    if dom == R or dom == app("range", app("len", R)):
        if el[0] == "item" and el[1] == R and el[2][0] == "bix":
            return ck.ok("front-return", site)
        return bad(f"element i of the returned list wraps {brief(el)}")
    if dom == app("range", want) or (dom[0] == "app" and dom[1] == "range" and num(it, p, dom[2][-1]) == num(it, p, want) and len(dom[2]) == 1):
        if el[0] == "item" and el[1] == R and el[2][0] == "bix":
            return ck.ok("front-return", site)
        if el[0] == "res":
            lp, q = find_res(p, el)
            if q is not None:
                ok = same(it, p, el, R, lp, e)
                if ok:
                    return ck.ok("front-return", site)
                if ok is False:
                    return bad(f"reference i is made by {ev_str(q)}, which does not select element i of the result")
                return ck.unk("front-return", site, ev_str(q))
        return bad(f"element i of the returned list wraps {brief(el)}") if precise(el) else ck.unk("front-return", site, brief(el))
    if dom[0] == "app" and dom[1] in ("range", "len") or dom == R:
        return bad(f"the returned list has one reference per element of {brief(dom)}, not per result")
    ck.unk("front-return", site, brief(v))


def find_res(p, res):
    for ev, ctx in walk(p.events):
        if ev.kind == "call" and ev.res == res:
            return (ctx[-1] if ctx else None), ev
    return None, None


def same(it, p, r, R, loop, carrier):
    """Does the value r stand for the task's result R (its i-th element inside a loop)?

    Either R itself or the result of submitting a function of R that returns it (its i-th
    element); functions given as closures are interpreted."""
    if loop is None and r == R:
        return True
    lp, q = find_res(p, r)
    if q is None or not q.args:
        return None
    f = q.args[0][1] if q.args[0][0] == "el" else None
    if f is None or f[0] not in ("clo", "fn"):
        return None
    rest = [a[1] for a in q.args[1:] if a[0] == "el"]
    if len(rest) != len(q.args) - 1 or R not in rest:
        return False if R not in rest and len(rest) == len(q.args) - 1 else None
    X = ("sym", "submitted-result")
    ix = ("sym", "i")
    vals = []
    for a in rest:
        if a == R:
            vals.append(X)
        elif a[0] == "ix":
            vals.append(ix)
        else:
            vals.append(a)
    st = p.state.fork()
    st.trace = None
    it.sinks.append([])
    try:
        outs = it.call_value(st, f, [("el", v) for v in vals], [], q.node)
    finally:
        it.sinks.pop()
    wanted = []
    for st2, v in outs:
        v = it.snap(st2, v)
        base = [X]
        evs = [e for e in st2.events() if e.kind == "call"]
        for e in evs:
            if e.name == "meth:result" and e.recv in (X, ("attr", X, "result")) and not e.args:
                base.append(e.res)
        if len(base) > 1:
            base = base[1:]
        good = [b if loop is None else ("item", b, ix) for b in base]
        if v not in good:
            return False if precise(v) else None
    return True
