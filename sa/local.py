"""Programs on the backends that run in the interpreter itself or on its process pool, as they
are right after the imports: identifiers are fresh values, stores and pools are followed."""
from .interp import NONE, app, const
from .lib import *
from .world import ident, program

SEQ_STORE = "unidist.core.backends.pyseq.core.object_store:ObjectStore"
MP_STORE = "unidist.core.backends.pymp.core.object_store:ObjectStore"
MP_POOL = "unidist.core.backends.pymp.core.process_manager:ProcessManager"


def fresh(it, st, ev):
    def mk(y):
        s = ("sym", f"!uuid{y.n}")
        for a in ("hex", "int", "bytes"):
            y.overlay[(s, a)] = ("sym", f"!{a}{y.n}")
            y.types[("sym", f"!{a}{y.n}")] = ("b", {"hex": "str"}.get(a, a))
        y.n += 1
        return s
    return [((), mk)]


def unique(tag):
    def f(it, st, ev):
        def mk(y):
            y.n += 1
            return ("sym", f"!{tag}{y.n}")
        return [((), mk)]
    return f


RESULTS = {"ext:uuid.uuid4": fresh, "ext:uuid.uuid1": fresh}


def local(ck, src, names, live=(SEQ_STORE,), fns=(), results=None, types=None, **k):
    args = {n: ident(n) for n in names}
    ty = {ident(n): ("b", "int") for n in names}
    ty.update({ident(n): ("b", "function") for n in fns})
    ty.update(types or {})
    rs = dict(RESULTS)
    rs.update(results or {})
    return program(ck, src, args=args, live=live, types=ty, results=rs, **k)
