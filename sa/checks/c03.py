"""Path-sensitive abstract interpretation of the declaration and call path of every backend
with symbolic option values (any value other than None, 0 and empty ones included): every
path either raises before the submission or hands the requested value, under its name, to the
call that submits the task."""
from ..front import *
from ..interp import NONE, app, const
from .c01 import chain

C, R, DC, DR = ("sym", "C"), ("sym", "R"), ("sym", "DC"), ("sym", "DR")
F, K = ("sym", "f"), ("sym", "K")


def given(v):
    return (app("isnone", v), False)


def check(ck):
    ck.rule("option", "A call that asks for CPUs or resources (at declaration, with the call or both) raises before submitting, or submits with exactly the value in effect: the one given with the call, else the declared one.")
    ck.rule("direct", "Calling a remote function or actor class directly raises on every path, without submitting anything.")
    ck.rule("declare", "The decorator raises for anything but functions and classes, for a number of results that is not None, 0 or a positive integer, and for a number of results on a class; otherwise it passes the options on unchanged.")
    for b, mod, cls in backends(ck.prog):
        for kind in "fc":
            for opt in ("num_cpus", "resources"):
                for level in ("declared", "given", "both"):
                    site = f"{b}/{'function' if kind == 'f' else 'actor-class'}/{opt}/{level}"
                    ck.guard("option", site, lambda: option(ck, site, b, mod, cls, kind, opt, level))
            site = f"{b}/{'function' if kind == 'f' else 'actor-class'}"
            ck.guard("direct", site, lambda: direct(ck, site, mod, cls, kind))
    for case in ("function", "function/bad-count", "function/negative-count", "class", "class/count", "neither", "bare-function", "bare-class", "bare-neither"):
        ck.guard("declare", case, lambda: declare(ck, case))


def option(ck, site, b, mod, cls, kind, opt, level):
    cpus = opt == "num_cpus"
    decl = ["None", "None", "None"]
    opts = ["None", "None", "None"]
    facts = []
    i = 0 if cpus else 2
    if level in ("declared", "both"):
        decl[i] = "DC" if cpus else "DR"
        facts.append(given(DC if cpus else DR))
    if level in ("given", "both"):
        opts[i] = "C" if cpus else "R"
        facts.append(given(C if cpus else R))
    want = {("num_cpus", "declared"): DC, ("resources", "declared"): DR}.get((opt, level), C if cpus else R)
    n = 0
    for via in ("options", "remote") if level == "declared" else ("options",):
        it, ps = drive(ck, driver(mod, cls, kind, decl=decl, opts=opts, via=via, prior=level == "given"), facts=facts)
        for p in ps:
            n += 1
            cs = [e for e, ctx in carriers(p) if e.cond != "raises"]
            if p.outcome == "raise":
                if cs:
                    ck.bad("option", site, f"the error about {opt} is raised only after the task was submitted", cs[0].where)
                else:
                    ck.ok("option", site)
                continue
            if not cs or doubtful(p, C, R, DC, DR):
                ck.unk("option", site, "no submission found" if not cs else "condition on the option that is not understood")
                continue
            e = cs[0]
            got = next((v for v in (kwarg(q, opt) for q in chain(p, e)) if v is not None), None)
            if got == want:
                ck.ok("option", site, e.where)
            elif got is None:
                if not any(s[0] == "dsplat" for q in chain(p, e) for s in (q.kw or ()) if s != ("dsplat", KWARGS)):
                    ck.bad("option", site, f"{opt} is neither rejected nor passed on: the task is submitted by {ev_str(e, 100)}", e.where)
                else:
                    ck.unk("option", site, ev_str(e))
            elif precise(got):
                ck.bad("option", site, f"the task is submitted with {opt}={brief(got)} instead of the requested value", e.where)
            else:
                ck.unk("option", site, brief(got))
    if not n:
        raise Undecided("no path")


def direct(ck, site, mod, cls, kind):
    mk = "proxy.make_remote_function(fun, None, None, None)" if kind == "f" else "proxy.make_actor(fun, None, None)"
    src = f'''
from unidist.core.base.backend import BackendProxy
from {mod} import {cls}
def main(fun, *args, **kwargs):
    proxy = BackendProxy({cls}())
    rf = {mk}
    return rf(*args, **kwargs)
'''
    it, ps = drive(ck, src)
    for p in ps:
        cs = [e for e, ctx in carriers(p) if e.cond != "raises"]
        if p.outcome == "raise" and not cs:
            ck.ok("direct", site)
        elif p.outcome == "raise":
            ck.bad("direct", site, f"a direct call runs {ev_str(cs[0], 100)} before it raises", cs[0].where)
        elif cs and cs[0].name.startswith("val:"):
            ck.unk("direct", site, "the declared object is not known to the analysis")
        else:
            ck.bad("direct", site, "a direct call does not raise", cs[0].where if cs else "")
    if not ps:
        raise Undecided("no path")


def declare(ck, case):
    fn = (app("truth", app("isfunction", F)), True)
    nofn = (app("truth", app("isfunction", F)), False)
    cl = (app("truth", app("isclass", F)), True)
    nocl = (app("truth", app("isclass", F)), False)
    call = (app("truth", app("callable", F)), True)
    good = [fn, (app("isinst", K, frozenset(["int"])), True), (app("lt", K, const(0)), False)]
    scen = {
        "function": (good, "make_remote_function"),
        "function/bad-count": ([fn, given(K), (app("isinst", K, frozenset(["int"])), False)], None),
        "function/negative-count": ([fn, given(K), (app("isinst", K, frozenset(["int"])), True), (app("lt", K, const(0)), True)], None),
        "class": ([nofn, cl, (app("isnone", K), True)], "make_actor"),
        "class/count": ([nofn, cl, given(K)], None),
        "neither": ([nofn, nocl], None),
        "bare-function": ([fn, call], "make_remote_function"),
        "bare-class": ([nofn, cl, call], "make_actor"),
        "bare-neither": ([nofn, nocl], None),
    }
    facts, want = scen[case]
    bare = case.startswith("bare")
    src = f'''
from unidist.api import remote
def main(f, K, C, R):
    return {"remote(f)" if bare else "remote(num_cpus=C, num_returns=K, resources=R)(f)"}
'''
    it, ps = drive(ck, src, stops=("*get_backend_proxy", "*BackendProxy.*"), facts=facts)
    n = 0
    for p in ps:
        n += 1
        mk = [e for e, _ in walk(p.events) if e.kind == "call" and e.name.split(".")[-1] in ("make_remote_function", "make_actor") or e.kind == "call" and e.name.startswith("meth:make_")]
        if p.outcome == "raise":
            if want is None:
                ck.ok("declare", case)
            elif not mk:
                ck.bad("declare", case, f"a valid declaration raises {brief(p.value)}")
            continue
        if want is None and doubtful(p, K, F):
            ck.unk("declare", case, "condition that is not understood")
            continue
        if want is None:
            ck.bad("declare", case, "the declaration is accepted" + (f": {ev_str(mk[0])}" if mk else ""), mk[0].where if mk else "")
            continue
        if not mk:
            ck.unk("declare", case, "no declaration passed on")
            continue
        e = mk[-1]
        name = e.name.replace("meth:", "").split(".")[-1]
        if name != want:
            ck.bad("declare", case, f"it is declared through {name}", e.where)
            continue
        exp = {"num_cpus": NONE if bare else C, "resources": NONE if bare else R}
        if want == "make_remote_function":
            exp["num_returns"] = NONE if bare else K
        if case == "class":
            pass
        bad = []
        for i, o in enumerate(("num_cpus", "num_returns", "resources") if want == "make_remote_function" else ("num_cpus", "resources")):
            got = e.arg(1 + i, o)
            got = NONE if got is None else got
            if got != exp[o] and precise(got):
                bad.append(f"{o}={brief(got)}")
        f = e.arg(0, "function" if want == "make_remote_function" else "cls")
        if f != F and f is not None and precise(f):
            bad.append(f"object {brief(f)}")
        if bad:
            ck.bad("declare", case, f"the declaration is passed on with {', '.join(bad)}", e.where)
        elif p.value != e.res and precise(p.value):
            ck.bad("declare", case, f"the declaration yields {brief(p.value)}", e.where)
        else:
            ck.ok("declare", case, e.where)
    if not n:
        raise Undecided("no path")
