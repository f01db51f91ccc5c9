"""Dispatch of the public interface: for every backend, programs over unidist.api are interpreted
from the state after the imports, with the configured backend as the only input; what reaches
the backend is compared with the operation called.  The operations of every backend class are
then interpreted down to the calls of the library below it."""
from ..front import *
from ..interp import FALSE, NONE, TRUE, app, const, show
from ..local import MP_POOL, MP_STORE, SEQ_STORE
from ..mpimodel import materialize
from ..world import STATE, ident, lst, program
from .c20 import GC, HC, HOSTS, INTER, NULL, PARENT, SPAWN, SUP, default_source, stop_here

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (dispatch of every operation of the interface, lifecycles of every backend)"
NOTE = "Every operation of the interface on every backend; calls into Ray, Dask and MPI are judged by name and arguments."
PROXYC = "unidist.core.base.backend:BackendProxy"
BASE = "unidist.core.base.backend:Backend"
CPUS = ("unidist.config.backends.common.envvars:CpuCount")
BACKEND = "unidist.config.backends.common.envvars:Backend"
NAMES = {"mpi": "MPI", "dask": "DASK", "ray": "RAY", "pymp": "PYMP", "pyseq": "PYSEQ"}
OPS = {
    "get": "unidist.get(A)", "get-list": "unidist.get([A, B])", "put": "unidist.put(d)", "wait": "unidist.wait([A, B, C], num_returns=n)",
    "wait-default": "unidist.wait([A, B])", "wait-positional": "unidist.wait([A, B], n)", "get_ip": "unidist.get_ip()", "num_cpus": "unidist.num_cpus()",
    "cluster_resources": "unidist.cluster_resources()", "is_initialized": "unidist.is_initialized()", "shutdown": "unidist.shutdown()",
    "is_object_ref": "(unidist.is_object_ref(A), unidist.is_object_ref(d), unidist.is_object_ref([A]))",
    "remote": "unidist.remote(fun)", "remote-class": "unidist.remote(Kls)",
}
MODES = {
    "after": "    unidist.init()\n    r = {op}\n",
    "switched": "    unidist.init()\n    SEL('{other}')\n    r = {op}\n",
    "before": "    r = {op}\n",
    "second": "    unidist.init()\n    unidist.is_initialized()\n    r = {op}\n",
}
STOPS = ("unidist.core.backends.*.backend:*.*", "unidist.core.backends.*.core*", "unidist.core.backends.*.utils:*")


def cfg_key(ck, name):
    ks = [k for k in ck.prog.classes if k.startswith("unidist.config") and k.rpartition(":")[2] == name]
    return "cfg:" + (ks[0] if len(ks) == 1 else name)


def check(ck):
    ck.rule("init", "Initializing calls into the package of the selected backend, and into no other; an unknown backend raises.")
    ck.rule("dispatch", "An operation of the interface calls the operation of the same name on the selected backend, once, with the arguments given, and returns its result.")
    ck.rule("lazy", "put initializes the backend before storing if it has not been initialized, and does not do so otherwise.")
    ck.rule("complete", "Every backend defines every operation of the interface; one that it cannot perform raises.")
    ck.rule("state", "is_initialized tells whether the backend has been initialized; initializing again starts nothing.")
    ck.rule("start", "Initializing starts the backend once, with the configured resources.")
    ck.rule("library", "An operation of a backend performs the corresponding operation of the library below and returns its result.")
    bs = [(b, m, c) for b, m, c in backends(ck.prog)]
    jobs = []
    for b, mod, cls in bs:
        if b not in NAMES:
            continue
        jobs.append(("init", b, lambda k, b=b: initial(k, b)))
        jobs.append(("complete", b, lambda k, b=b, m=mod, c=cls: complete(k, b, m, c)))
        jobs.append(("state", b, lambda k, b=b: states(k, b)))
        for op in OPS:
            for mode in MODES:
                jobs.append(("dispatch", f"{b}/{op}/{mode}", lambda k, a=(b, mod, cls, op, mode): dispatch(k, f"{a[0]}/{a[3]}/{a[4]}", *a)))
        jobs.append(("library", b, lambda k, b=b, m=mod, c=cls: library(k, b, m, c)))
    jobs.append(("init", "unknown", unknown))
    ck.pguard(jobs)


def where_of(ck, key):
    f = ck.prog.funcs.get(key)
    return f"{f.module.rel}:{f.node.lineno}" if f else ""


def sel(it, st, ev):
    def mk(y):
        y.overlay[(("sym", "!SEL"), "v")] = ev.args[0][1]
        return NONE
    return [((), mk)]


def selected(name):
    return lambda it, st: st.overlay.get((("sym", "!SEL"), "v"), const(name))


def api_program(ck, b, body, stops=STOPS, results=None, live=(PROXYC,), initialized=None, **k):
    src = f"import unidist\nfrom unidist.core.base.object_ref import ObjectRef\ndef fun(x):\n    return x\nclass Kls:\n    pass\ndef main(a, b, c, d, n, f, K, SEL, MARK):\n    A, B, C = ObjectRef(a), ObjectRef(b), ObjectRef(c)\n{body}    return r\n"
    names = ("a", "b", "c", "d", "n", "f", "K", "SEL", "MARK")
    ty = {ident(x): ("b", "int") for x in "abcdn"}
    ty[ident("f")] = ("b", "function")
    ty[ident("K")] = ("b", "type")
    res = {"cfg:" + BACKEND: selected(b), "sym:!SEL": sel, "ext:threading.current_thread": ident("thread"), "ext:threading.main_thread": ident("thread"), "sym:!MARK": NONE}
    if initialized is not None:
        for bb, m, c in backends(ck.prog):
            res[f"{m}:{c}.is_initialized"] = initialized
    res.update(results or {})
    return program(ck, src, args={x: ident(x) for x in names}, live=live, stops=stops, results=res, types=ty, **k)


def package(e):
    n = e.name
    if not n or not n.startswith("unidist.core.backends."):
        return None
    x = n[len("unidist.core.backends."):].split(":")[0].split(".")[0]
    return x if x in NAMES else None


def guessed(p):
    return any(e.kind == "assume" for e, _ in walk(p.events))


def effects(p):
    """Calls into a backend in the order made, constructors of import time left out."""
    return [e for e, _ in walk(p.events) if e.kind == "call" and package(e) and e.cond != "raises" and "." in e.name.partition(":")[2] + ("." if e.name.rpartition(":")[2].islower() or "_" in e.name.rpartition(":")[2] else "")]


# -------------------------------------------------------------------- initialization
def initial(ck, b):
    where = where_of(ck, "unidist.core.base.utils:init_backend")
    ps = api_program(ck, b, "    unidist.init()\n    r = None\n", initialized=FALSE)
    ok = 0
    for p in ps:
        if p.outcome == "raise" and guessed(p):
            ck.unk("init", b, "raises on a condition that is not understood")
            continue
        if p.outcome == "raise":
            ck.bad("init", b, f"initializing the backend {b!r} raises {brief(p.value, 80)}", where)
            return
        if p.outcome != "ret":
            ck.unk("init", b, f"not followed to its end: {p.outcome}")
            continue
        es = effects(p)
        other = [e for e in es if package(e) != b]
        if other:
            ck.bad("init", b, f"with the backend {b!r} selected, initializing calls {other[0].name}", other[0].where)
            return
        if not [e for e in es if package(e) == b]:
            if any(e.kind == "call" and e.name.startswith(("meth:", "sym:", "ext:importlib")) for e, _ in walk(p.events)):
                ck.unk("init", b, "what is called is not known")
                continue
            ck.bad("init", b, f"with the backend {b!r} selected, initializing does not set it up", where)
            return
        ok += 1
    if ok:
        ck.ok("init", b)
    else:
        ck.unk("init", b, "no path")


def unknown(ck):
    where = where_of(ck, "unidist.core.base.utils:init_backend")
    for op in ("unidist.init()", "unidist.get(A)", "unidist.put(d)", "unidist.is_initialized()", "unidist.shutdown()"):
        for name in ("!unknown", "", "MPI4"):
            ps = api_program(ck, name, f"    r = {op}\n", initialized=FALSE)
            for p in ps:
                if p.outcome == "ret" and guessed(p):
                    ck.unk("init", "unknown", "condition that is not understood")
                elif p.outcome == "ret":
                    es = effects(p)
                    ck.bad("init", "unknown", f"{op.replace('A', 'ref')} with an unknown backend does not raise", es[0].where if es else where)
                    return
                elif p.outcome != "raise":
                    ck.unk("init", "unknown", p.outcome)
                else:
                    ck.ok("init", "unknown")


# -------------------------------------------------------------------- dispatch
def arg(ck, e, i, name):
    if e.bound and name in e.bound:
        return e.bound[name]
    pos = [x[1] for x in e.args if x[0] == "el"]
    if i < len(pos):
        return pos[i]
    return kwarg(e, name)


def dispatch(ck, site, b, mod, cls, opname, mode):
    op = opname.partition("-")[0]
    meth = {"remote": "make_actor" if "class" in opname else "make_remote_function"}.get(op, op)
    other = "pyseq" if b != "pyseq" else "mpi"
    init0 = FALSE if mode == "before" else TRUE
    where = where_of(ck, f"unidist.api:{op}")
    ps = api_program(ck, b, MODES[mode].format(op=OPS[opname], other=other), initialized=init0)
    a, bb, c, d, n = (ident(x) for x in ("a", "b", "c", "d", "n"))
    good = 0
    for p in ps:
        if p.outcome == "raise" and guessed(p):
            ck.unk("dispatch", site, "raises on a condition that is not understood")
            continue
        if p.outcome == "raise":
            ck.bad("dispatch", site, f"{op} on the backend {b!r} raises {brief(p.value, 80)}", where)
            return
        if p.outcome != "ret":
            ck.unk("dispatch", site, f"not followed to its end: {p.outcome}")
            continue
        es = effects(p)
        wrong = [e for e in es if package(e) != b]
        if wrong:
            ck.bad("dispatch", site, f"{op} with the backend {b!r} selected calls {wrong[0].name}", wrong[0].where)
            return
        it = p.interp if hasattr(p, "interp") else None
        val = p.value
        if op == "is_object_ref":
            want = ("tuple", (("el", TRUE), ("el", FALSE), ("el", FALSE)))
            if val == want:
                good += 1
            elif precise(val):
                ck.bad("dispatch", site, f"is_object_ref of a reference, another object and a list with a reference gives {brief(val)}", where)
                return
            else:
                ck.unk("dispatch", site, brief(val))
            continue
        base_shutdown = op == "shutdown" and ck.prog.find_method(ck.prog.classes[f"{mod}:{cls}"], "shutdown").key.startswith(BASE)
        own = [e for e in es if e.name.rpartition(".")[2] == meth and e.name.startswith(mod + ":")]
        if op == "is_initialized" and mode == "second":
            own = own[1:]
        if base_shutdown:
            good += 1
            continue
        if not own and any(e.kind == "call" and e.name == "meth:" + meth for e, _ in walk(p.events)):
            ck.unk("dispatch", site, "the backend that is called is not known")
            continue
        if len(own) != 1:
            ck.bad("dispatch", site, f"{op} on the backend {b!r} calls its {meth} {len(own)} times", own[1].where if len(own) > 1 else where)
            return
        e = own[0]
        # put initializes first if needed
        setup = [x for x in es if x is not e and x.name.rpartition(".")[2] not in ("is_initialized",) and not x.name.startswith(mod + ":")]
        if op == "put":
            after_init = mode != "before"
            mine = setup if mode == "before" else setup[1:]
            if mode == "before":
                if not mine:
                    ck.bad("lazy", site, f"put on the backend {b!r}, not yet initialized, does not initialize it", where)
                    return
                if es.index(mine[-1]) > es.index(e):
                    ck.bad("lazy", site, f"put on the backend {b!r} initializes it only afterwards", e.where)
                    return
            elif len(setup) > 1:
                ck.bad("lazy", site, f"put on the backend {b!r} initializes it again", setup[1].where)
                return
            ck.ok("lazy", site)
        extra = [x for x in es if x.name.startswith(mod + ":") and x is not e and not x.name.endswith(".is_initialized")]
        if extra:
            ck.bad("dispatch", site, f"{op} on the backend {b!r} also calls {extra[0].name}", extra[0].where)
            return
        sn = [x[1] for x in e.args if x[0] == "el"]
        kws = {str(x[1][2]): x[2] for x in e.kw if x[0] == "kv" and x[1][0] == "c"}
        want = {
            "get": [a], "get-list": [lst(a, bb)], "put": [d], "wait": [lst(a, bb, c), n], "wait-default": [lst(a, bb), const(1)], "wait-positional": [lst(a, bb), n],
            "remote": ["fun", NONE, NONE, NONE], "remote-class": ["Kls", NONE, NONE],
        }.get(opname, [])
        params = {"wait": [None, "num_returns"], "make_remote_function": ["function", "num_cpus", "num_returns", "resources"], "make_actor": ["cls", "num_cpus", "resources"]}.get(meth, [None])
        got = []
        bad = None
        fi = ck.prog.funcs.get(e.name)
        names = [x.arg for x in fi.node.args.args] if fi else []
        if fi and fi.kind not in ("static",) and names:
            names = names[1:]
        for i, w in enumerate(want):
            v = sn[i] if i < len(sn) else kws.get(names[i]) if i < len(names) else None
            if v is None and i < len(names) and fi is not None:
                ds = fi.node.args.defaults
                j = i - (len(names) - len(ds))
                import ast
                v = const(ds[j].value) if j >= 0 and isinstance(ds[j], ast.Constant) else None
            got.append(v)
            if isinstance(w, str):
                if v is not None and v[0] in ("fn", "cls", "lcls") and w in show(v):
                    continue
                w = const(w)
            if v != w:
                bad = (i, v, w)
                break
        if bad:
            i, v, w = bad
            if v is None or precise(v):
                ck.bad("dispatch", site, f"{op} on the backend {b!r} gets {brief(v) if v else 'nothing'} instead of {brief(w)} as argument {i + 1}", e.where)
                return
            ck.unk("dispatch", site, f"argument {i + 1}: {brief(v)}")
            continue
        if len(sn) > len(want):
            ck.bad("dispatch", site, f"{op} on the backend {b!r} gets further arguments", e.where)
            return
        res = e.res
        if op == "put":
            ref = objref(val)
            if ref != res:
                if ref is None or precise(ref):
                    ck.bad("dispatch", site, f"put returns {brief(val)}, not a reference to what the backend stored", where)
                    return
                ck.unk("dispatch", site, brief(val))
                continue
        elif op in ("get", "get_ip", "num_cpus", "cluster_resources", "is_initialized"):
            known = init0 if op == "is_initialized" else res
            if val != known:
                if val in (NONE, TRUE, FALSE) or precise(val):
                    ck.bad("dispatch", site, f"{op} returns {brief(val)} instead of what the backend returned", where)
                    return
                ck.unk("dispatch", site, brief(val))
                continue
        elif op in ("wait", "remote"):
            def has(t, x):
                return t == x or isinstance(t, tuple) and any(has(y, x) for y in t)
            if not has(val, res):
                ck.bad("dispatch", site, f"{op} returns {brief(val)}, which does not come from the backend", where)
                return
        good += 1
    if good:
        ck.ok("dispatch", site)
    else:
        ck.unk("dispatch", site, "no path")


# -------------------------------------------------------------------- completeness
def complete(ck, b, mod, cls):
    ci = ck.prog.classes[f"{mod}:{cls}"]
    base = ck.prog.classes[BASE]
    import ast
    ops = [n.name for n in base.node.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not n.name.startswith("_")]
    proxy = ck.prog.classes[PROXYC]
    for op in ops:
        m = ck.prog.find_method(ci, op)
        site = f"{b}/{op}"
        if op == "is_object_ref" or op == "shutdown" and b == "pyseq":
            continue  # answered by the proxy itself / nothing to shut down
        if m is None or m.cls is base:
            if m is not None and any(isinstance(n, ast.Raise) for n in ast.walk(m.node)):
                ck.ok("complete", site)
                continue
            ck.bad("complete", site, f"the backend {b!r} does not define {op}: calling it does nothing", f"{ci.module.rel}:{ci.node.lineno}")
        else:
            ck.ok("complete", site)
        m = ck.prog.find_method(proxy, op)
        if m is None or m.cls is base:
            ck.bad("complete", site, f"the proxy does not define {op}: calling it does nothing on any backend", f"{proxy.module.rel}:{proxy.node.lineno}")


# -------------------------------------------------------------------- lifecycles
UP = (("sym", "!UP"), "v")


def flag(yes, no):
    return lambda it, st, ev: [((), yes if st.overlay.get(UP) == TRUE else no)]


def setter(v):
    def f(it, st, ev):
        def mk(y):
            y.overlay[UP] = v
            return ("sym", "!client")
        return [((), mk)]
    return f


def client(it, st, ev):
    if st.overlay.get(UP) == TRUE:
        return [((), ("sym", "!client"))]
    y = st.fork()
    y.push(ev)
    ev.cond = "raises"
    it.sinks[-1].append((y, it.new_exc(y, "builtins.ValueError")))
    return []


STARTS = ("meth:start", "ext:ray.init", "ext:distributed.client.Client", "ext:distributed.Client", "ext:dask.distributed.Client", "ext:mpi4py.MPI.COMM_SELF.Spawn", "ext:mpi4py.MPI.Init_thread",
          "meth:Spawn", "meth:Barrier", "meth:barrier", "ext:atexit.register", "ext:signal.signal", "meth:Merge", "ext:mpi4py.MPI.COMM_WORLD.Barrier", "meth:Win.Allocate_shared")


def states(ck, b):
    body = "    x = unidist.is_initialized()\n    unidist.init()\n    y = unidist.is_initialized()\n    MARK()\n    unidist.init()\n    r = (x, y, unidist.is_initialized())\n"
    live, stops, res, facts, modules = (PROXYC,), (), {}, [], True
    ncpu = ("nc", "cpus", const(3))
    res[cfg_key(ck, "CpuCount")] = ncpu
    if b == "dask":
        res.update({"ext:distributed.client.get_client": client, "ext:distributed.client.Client": setter(TRUE), "ext:distributed.get_client": client, "ext:distributed.Client": setter(TRUE)})
    elif b == "ray":
        res.update({"ext:ray.is_initialized": flag(TRUE, FALSE), "ext:ray.init": setter(TRUE)})
        res[cfg_key(ck, "IsRayCluster")] = FALSE
        stops = ("*_get_object_store_memory",)
    elif b == "pymp":
        live += (MP_POOL, MP_STORE)
    elif b == "pyseq":
        live += (SEQ_STORE,)
    else:
        live += (STATE,)
        res.update({
            "ext:mpi4py.MPI.COMM_WORLD.Get_rank": const(0), "ext:mpi4py.MPI.Comm.Get_parent": NULL, "meth:Merge": GC, "meth:Spawn": INTER,
            "ext:mpi4py.MPI.COMM_SELF.Spawn": INTER, "ext:mpi4py.MPI.Is_initialized": FALSE, "meth:Get_rank": const(0), "meth:Get_size": const(5),
            "unidist.config.parameter:Parameter.get_value_source": default_source(ck), "ext:sys.exit": stop_here,
        })
        stops = SUP + ("*mpi*SharedObjectStore.*", "*mpi*monitor_loop", "*mpi*worker_loop", "*api:_get_py_flags", "*unidist.config*", "*MPIState.__init__")
        facts = [(app("isnone", ("cfg", HOSTS)), True), (app("truth", ("cfg", SPAWN)), True), (app("truth", ("cfg", "unidist.config.backends.mpi.envvars:MpiRuntimeEnv")), False)]
    if b != "mpi":
        stops += ("*unidist.config*",)
    ps = api_program(ck, b, body, stops=stops, results=res, live=live, facts=facts, modules=True)
    good = 0
    where = where_of(ck, "unidist.api:init")
    for p in ps:
        if p.outcome == "raise" and b == "mpi" and p.value[:2] != ("sym", "!exit"):
            continue  # unsuitable thread level
        if p.outcome != "ret":
            ck.unk("state", b, f"not followed to its end: {p.outcome} {brief(p.value, 80) if p.value else ''}")
            continue
        v = p.value
        es = [e for e, _ in walk(p.events) if e.kind == "call" and e.cond != "raises"]
        marks = [i for i, e in enumerate(es) if e.name == "sym:!MARK"]
        if v[0] == "tuple" and len(v[1]) == 3:
            vals = [x[1] for x in v[1]]
            for i, (x, w, t) in enumerate(zip(vals, (FALSE, TRUE, TRUE), ("before it was initialized", "after it was initialized", "after it was initialized twice"))):
                if x == w:
                    ck.ok("state", b)
                elif x in (TRUE, FALSE, NONE):
                    ck.bad("state", b, f"is_initialized of the backend {b!r} is {brief(x)} {t}", where_of(ck, f"unidist.core.backends.{b}.core.controller.api:is_initialized") or where_of(ck, f"unidist.core.backends.{b}.core.api:is_initialized") or where)
                    return
                else:
                    ck.unk("state", b, f"{t}: {brief(x)}")
        if not marks:
            ck.unk("state", b, "no mark")
            continue
        again = [e for e in es[marks[0]:] if e.name in STARTS]
        if again:
            ck.bad("state", b, f"initializing the backend {b!r} again performs {again[0].name} again", again[0].where)
            return
        first = [e for e in es[:marks[0]] if e.name in STARTS]
        want(ck, b, first, es[:marks[0]], where, ncpu)
        good += 1
    if good:
        ck.ok("state", b)
    else:
        ck.unk("state", b, "no path")


def want(ck, b, first, es, where, ncpu):
    names = [e.name for e in first]
    if b == "dask":
        cl = [e for e in first if e.name.endswith(".Client")]
        if len(cl) != 1:
            ck.bad("start", b, f"initializing Dask creates {len(cl)} clients", where)
            return
        n, a = kwarg(cl[0], "n_workers"), kwarg(cl[0], "address")
        if a is None and n != ncpu and (n is None or precise(n)):
            ck.bad("start", b, f"Dask is started with {brief(n) if n else 'no'} workers instead of the configured number of CPUs", cl[0].where)
            return
    elif b == "ray":
        cl = [e for e in first if e.name == "ext:ray.init"]
        if len(cl) != 1:
            ck.bad("start", b, f"initializing Ray calls ray.init {len(cl)} times", where)
            return
        n = kwarg(cl[0], "num_cpus")
        if n is not None and n != ncpu and precise(n):
            ck.bad("start", b, f"Ray is started with {brief(n)} CPUs instead of the configured number", cl[0].where)
            return
        if n is None:
            return ck.unk("start", b, "the arguments of ray.init are not known")
    elif b == "pymp":
        st = [e for e in first if e.name == "meth:start"]
        if len(st) != 3:
            ck.bad("start", b, f"with 3 CPUs configured, {len(st)} worker processes are started", st[0].where if st else where)
            return
    elif b == "mpi":
        sp = [e for e in first if e.name.endswith("Spawn")]
        if len(sp) != 1:
            ck.bad("start", b, f"initializing MPI starts processes {len(sp)} times", where)
            return
    ck.ok("start", b)


# -------------------------------------------------------------------- the library below
def run_op(ck, mod, cls, expr, **k):
    src = f"from {mod} import {cls}\ndef main(x, y, n):\n    return {expr.format('B')}\n".replace("return ", "B = " + cls + "()\n    return ", 1)
    ty = {ident(x): ("b", "int") for x in "xyn"}
    k.setdefault("stops", ("unidist.core.backends.*.core*", "*unidist.config*"))
    return program(ck, src, args={x: ident(x) for x in "xyn"}, types=ty, **k)


def library(ck, b, mod, cls):
    ip = ident("ip")
    host = ident("hostname")
    res = {
        "ext:socket.gethostname": host, "ext:distributed.utils.get_ip": ip, "ext:ray.util.get_node_ip_address": ip,
        "ext:socket.gethostbyname": lambda it, st, ev: [((), ip if ev.args and ev.args[0][1] == host else ev.res)],
        "ext:distributed.client.get_client": ident("client"),
    }
    ncpu = ident("ncpu")
    res[cfg_key(ck, "CpuCount")] = ncpu
    core = f"unidist.core.backends.{b}.core"

    def expect(op, expr, good, what, paths=None, **k):
        site = f"{b}/{op}"
        n = 0
        for p in run_op(ck, mod, cls, expr, results={**res, **k.pop("results", {})}, **k):
            if p.outcome == "cut":
                ck.unk("library", site, "not followed to its end")
                continue
            r = good(p)
            if r is True:
                n += 1
            elif r is None:
                ck.unk("library", site, f"{p.outcome} {brief(p.value) if p.value else ''}")
            else:
                m = ck.prog.find_method(ck.prog.classes[f"{mod}:{cls}"], op.partition("-")[0])
                ck.bad("library", site, f"{op.partition('-')[0]} of the backend {b!r} {r if isinstance(r, str) else what}", f"{m.module.rel}:{m.node.lineno}" if m else "")
                return
        if n:
            ck.ok("library", site)

    def equals(v):
        def f(p):
            if p.outcome == "raise":
                return None if guessed(p) else f"raises {brief(p.value, 80)}"
            return True if p.value == v else (f"returns {brief(p.value)} instead of {brief(v)}" if precise(p.value) or p.value[0] == "c" else None)
        return f

    def once(suffix, recv=None):
        def f(p):
            cs = [e for e, _ in walk(p.events) if e.kind == "call" and e.cond != "raises" and (e.name.endswith(suffix))]
            if p.outcome == "raise":
                return None if guessed(p) else f"raises {brief(p.value, 80)}"
            if len(cs) != 1:
                return f"calls {suffix.lstrip(':.')} {len(cs)} times"
            return True
        return f
    expect("get_ip", "({0}.get_ip(), {0}.get_ip())", equals(("tuple", (("el", ip), ("el", ip)))), "does not return the address of the node")
    if b in ("pymp", "mpi"):
        expect("num_cpus", "{0}.num_cpus()", equals(ncpu), "")
    if b == "pyseq":
        expect("num_cpus", "{0}.num_cpus()", equals(const(1)), "")
    if b in ("pyseq", "pymp"):
        one = const(1) if b == "pyseq" else ncpu
        expect("cluster_resources", "{0}.cluster_resources()", equals(("dict", (("kv", ip, ("dict", (("kv", const("CPU"), one),))),))), "")
    if b == "mpi":
        for op in ("shutdown", "cluster_resources", "is_initialized"):
            expect(op, "{0}." + op + "()", once(":" + op), "")
    if b == "pymp":
        expect("shutdown", "{0}.shutdown()", lambda p: True if p.outcome == "raise" else "neither shuts down nor raises", "")
    if b == "ray":
        expect("shutdown", "{0}.shutdown()", once("ext:ray.shutdown"), "")
        w = ident("ini")
        expect("is_initialized", "{0}.is_initialized()", equals(w), "", results={"ext:ray.is_initialized": w})
        nodes = lst(*[("dict", (("kv", const("NodeManagerAddress"), ident(f"node{i}")), ("kv", const("Resources"), ("dict", tuple([("kv", const("CPU"), const(c))] if c else []))))) for i, c in ((0, 4), (1, 2), (2, 0))])
        expect("cluster_resources", "{0}.cluster_resources()", equals(("dict", tuple(("kv", ident(f"node{i}"), ("dict", (("kv", const("CPU"), const(c)),))) for i, c in ((0, 4), (1, 2), (2, 1))))), "",
               results={"ext:ray.nodes": lambda it, st, ev: [((), lambda y: materialize(y, nodes))]})
        expect("num_cpus", "{0}.num_cpus()", equals(const(6)), "", results={"ext:ray.cluster_resources": lambda it, st, ev: [((), lambda y: materialize(y, ("dict", (("kv", const("CPU"), const(6)),))))]})
    if b == "dask":
        expect("shutdown", "{0}.shutdown()", once("meth:shutdown"), "")
        expect("is_initialized-no", "{0}.is_initialized()", equals(FALSE), "", results={"ext:distributed.client.get_client": client})
        expect("is_initialized-yes", "{0}.is_initialized()", equals(TRUE), "")
        h = [const("10.0.0.1"), const("10.0.0.1"), const("10.0.0.2")]

        def info(hs):
            ws = ("dict", tuple(("kv", const(f"w{i}"), ("dict", (("kv", const("host"), x), ("kv", const("nthreads"), const(i + 1))))) for i, x in enumerate(hs)))
            return lambda it, st, ev: [((), lambda y: materialize(y, ("dict", (("kv", const("workers"), ws),))))]

        def cpus(m):
            return equals(("dict", tuple(("kv", k, ("dict", (("kv", const("CPU"), const(v)),))) for k, v in m)))
        expect("cluster_resources", "{0}.cluster_resources()", cpus([(h[0], 3), (h[2], 3)]), "", results={"meth:scheduler_info": info(h)})
        lo = const("127.0.0.1")
        expect("cluster_resources-local", "{0}.cluster_resources()", cpus([(ip, 3)]), "", results={"meth:scheduler_info": info([lo, lo])})
        expect("num_cpus", "{0}.num_cpus()", equals(const(2)), "", results={"meth:ncores": lambda it, st, ev: [((), lambda y: materialize(y, ("dict", tuple(("kv", const(f"w{i}"), const(1)) for i in range(2)))))]})
