"""Driver programs for the public call path of every backend."""
from .interp import const
from .lib import *

ARGS = ("sym", "args")
KWARGS = ("sym", "kwargs")


def driver(mod, cls, kind, decl=("None", "None", "None"), opts=("None", "None", "None"), via="options", prior=True, warm=""):
    """A call of a remote function ('f'), an actor method ('m') or an actor class ('c').

    decl/opts: expressions for (num_cpus, num_returns, resources).  prior: an unrelated call
    through the same object precedes, so state kept by it is taken into account.
    """
    dc, dn, dr = decl
    oc, on, orr = opts
    if kind == "f":
        mk = f"rf = proxy.make_remote_function(fun, {dc}, {dn}, {dr})"
        o = f"num_cpus={oc}, num_returns={on}, resources={orr}"
        pr = "rf.options(num_returns=7).remote()\n    rf.remote()" if prior else "pass"
    elif kind == "m":
        mk = "rf = proxy.make_actor(fun, None, None).remote().some_method"
        o = f"num_returns={on}"
        pr = "rf.options(num_returns=7).remote()\n    rf.remote()" if prior else "pass"
    else:
        mk = f"rf = proxy.make_actor(fun, {dc}, {dr})"
        o = f"num_cpus={oc}, resources={orr}"
        pr = "rf.remote()" if prior else "pass"
    call = f"rf.options({o}).remote(*args, **kwargs)" if via == "options" else "rf.remote(*args, **kwargs)"
    return f'''
from unidist.core.base.backend import BackendProxy
from {mod} import {cls}
def main(fun, D, K, C, R, DC, DR, *args, **kwargs):
    proxy = BackendProxy({cls}())
    {mk}
    {pr}
    return {call}
'''


def uses_user_args(e):
    return e.kind == "call" and (mentions(e, ARGS) or mentions(e, KWARGS))


def carriers(path):
    """Calls that pass the caller's arguments on, not nested in one another."""
    out = []
    for e, ctx in walk(path.events):
        if uses_user_args(e):
            out.append((e, ctx))
    return out
