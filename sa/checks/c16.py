"""Start of the MPI processes: the initialization in the driver is interpreted for configurations
set in the program, in the environment and as runtime environment; the program text it hands to
the new processes is read off the call that starts them, parsed, and interpreted in turn from the
state after the import, with an empty environment; what the new process then sees is compared
with the driver."""
import ast
import itertools

from ..front import *
from ..interp import FALSE, NONE, TRUE, app, const, cval, is_const, show
from ..world import MPI, STATE, ident, program
from .c15 import CFG, getenv, importing, params, parse, plain, source_name
from .c20 import GC, NULL, PARENT, SUP, EXIT, stop_here

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (constant propagation into the text of the started program, which is parsed and interpreted as a second process)"
NOTE = "Representative values of every parameter, strings with every kind of special character; the started process gets nothing from the driver's environment."
API = MPI + "controller.api"
NASTY = ["h1,h2", "a'b", 'q"r', "x\\y", "l1\nl2", "{0}; import os", "%s %d", "", "\u00e9\u4e2d", "');raise SystemExit#", "'\"'\"", "trail\\", "tab\there", "$HOME `id`", " around  ", "UPPER lower"]
VALUES = {
    "CpuCount": [3, 1, 16], "MpiPickleThreshold": [5, 0], "MpiBackoff": [0.5, 0.0, 1e-07, 123456789.5], "MpiLog": [True, False], "MpiSharedObjectStore": [True, False],
    "MpiSharedObjectStoreMemory": [1000, 0], "MpiSharedServiceMemory": [77, 0], "MpiSharedObjectStoreThreshold": [9, 0], "MpiHosts": NASTY, "MpiSpawn": [True],
}


def check(ck):
    ck.rule("text", "The program text given to the started processes is valid, selects the MPI backend and initializes it, whatever the values contain.")
    ck.rule("config", "Every configuration parameter of the MPI backend has the same value in a started process as in the driver.")
    ck.rule("environ", "Every environment variable of the runtime environment is set in the process, exactly as given, before it is initialized or executes anything.")
    ck.rule("count", "Exactly the required number of processes is started: one per CPU and the monitors; the slots given for the hosts add up to all processes.")
    ps = {n: (k, ty, var) for k, (n, ty, ch, var) in params(ck).items() if ".mpi." in k or n in ("CpuCount", "Backend")}
    jobs = []

    def job(site, sets, runtime=None, **k):
        jobs.append(("config", site, lambda c: spawned(c, site, ps, sets, runtime, **k)))
    job("nothing", [])
    for n in sorted(ps):
        if n == "Backend":
            continue
        for i, v in enumerate(VALUES.get(n, [])):
            job(f"{n}/{i}/program", [("put", n, v)])
            if not (isinstance(v, float) and v < 1e-3) and not (n == "MpiHosts" and v.strip() != v):
                job(f"{n}/{i}/environment", [("env", n, v)])
    for on, a, b, how, hw in itertools.product((True, False), (None, 5), (None, 9), ("put", "env"), ("put", "env")):
        job(f"shared/{on}/{a}/{b}/{how}/{hw}", [(how, "MpiSharedObjectStore", on)] + ([(hw, "MpiPickleThreshold", a)] if a else []) + ([(hw, "MpiSharedObjectStoreThreshold", b)] if b else []))
    everything = [(h, n, vs[0]) for h, (n, vs) in zip(itertools.cycle(("put", "env")), sorted(VALUES.items())) if n in ps]
    job("everything", everything, {"env_vars": {"A": "1"}})
    job("everything/other", [("env" if h == "put" else "put", n, v) for h, n, v in everything], {"env_vars": {"A": "1"}})
    for i, rt in enumerate(runtimes()):
        job(f"runtime/{i}", [("put", "MpiLog", True)], rt)
        jobs.append(("environ", f"mpiexec/{i}", lambda c, i=i, rt=rt: mpiexec(c, f"mpiexec/{i}", rt)))
    for cpus, hosts, shared, lib in itertools.product((1, 2, 3, 5, 8), (None, "h1", "h1,h2", "h1,h2,h3", "h1,h2,h3,h4"), (False, True), ("Open MPI v4.1", "Intel(R) MPI Library", "MPICH 4")):
        jobs.append(("count", f"count/{cpus}/{hosts}/{shared}/{lib.split()[0]}", lambda c, a=(cpus, hosts, shared, lib): count(c, *a)))
    ck.pguard(jobs)


def runtimes():
    yield {}
    yield {"env_vars": {}}
    yield {"env_vars": {"A": "1", "B": "two", "C": ""}}
    for x in NASTY:
        yield {"env_vars": {"A": x, "B": "after"}}
    yield {"env_vars": {"A": 5, "B": 0, "C": True, "D": 1.5, "E": None}}
    yield {"env_vars": {"a b": "1", "n'1": "2", "x=y": "3"}}


def driver(ck, sets, runtime, lib, shared, rank=0, spawn=True, hook=None, extra="", stops=()):
    env = [("A", "old")]
    body = ""
    ps = {n: (k, var) for k, (n, ty, ch, var) in params(ck).items()}
    for how, n, v in sets:
        if how == "env":
            env.append((ps[n][1], str(v)))
        else:
            body += f"    cfg.{n}.put({v!r})\n"
    if runtime is not None:
        body += f"    cfg.MpiRuntimeEnv.put({runtime!r})\n"
    if not spawn:
        body += "    cfg.MpiSpawn.put(False)\n"
    read = "".join(f"    SEE({n!r}, cfg.{n}.get())\n" for n in sorted(ps)) if not extra else extra
    src = "import unidist.config as cfg\nimport unidist.core.backends.mpi.core.controller.api as api\ndef main(SEE):\n" + body + read + "    api.init()\n"
    res = {
        "ext:mpi4py.MPI.COMM_WORLD.Get_rank": const(rank), "ext:mpi4py.MPI.Comm.Get_parent": NULL, "ext:mpi4py.MPI.COMM_SELF.Spawn": start, "meth:Spawn": start,
        "ext:mpi4py.MPI.Is_initialized": FALSE, "ext:mpi4py.MPI.Init_thread": const(3), "ext:mpi4py.MPI.Query_thread": const(3), "ext:packaging.version.parse": parse,
        "ext:multiprocessing.cpu_count": const(6), "ext:os.cpu_count": const(6), "ext:mpi4py.MPI.Get_library_version": const(lib), "ext:secrets.token_hex": ident("token"),
        MPI + "common:is_shared_memory_supported": const(shared), API + ":_get_py_flags": lambda it, st, ev: [((), lambda y: y.alloc(("list", (("el", const("-B")),))))], "sym:!SEE": NONE,
        "ext:os.getenv": getenv, "ext:os.environ.get": getenv, "ext:sys.exit": stop_here,
    }
    res.update(hook or {})
    imp = importing(env)

    def setup(it, st, bound):
        imp(it, st, bound)
        st.overlay[(("ext", "mpi4py.MPI"), "THREAD_MULTIPLE")] = const(3)
    return program(ck, src, args={"SEE": ident("SEE")}, inline_config=True, setup=setup, results=res, live=(STATE,), stops=SUP + ("*api:_get_py_flags", "*SharedObjectStore.*", "*MPIState.__init__", "*monitor_loop", "*worker_loop") + tuple(stops),
                   modules=True, facts=[(app("eq", NULL, NULL), True)])


def text(t):
    """The string a term stands for, or None."""
    if is_const(t):
        v = source_name(t)
        return v if isinstance(v, str) else None
    if t[0] == "app":
        op, a = t[1], t[2]
        if op == "fstr" or op == "add":
            xs = [text(x) if not (is_const(x) and not isinstance(source_name(x), str)) else str(source_name(x)) for x in a]
            xs = [x if x is not None else shown(y) for x, y in zip(xs, a)]
            return None if any(x is None for x in xs) else "".join(xs)
        if op in ("repr", "str", "format") and len(a) == 1:
            v = plain_any(a[0])
            return None if v is None else (repr(v[0]) if op == "repr" else str(v[0]))
        if op == "join" and len(a) == 2 and a[1][0] in ("list", "tuple"):
            sep = text(a[0])
            xs = [text(s[1]) if s[0] == "el" else None for s in a[1][1]]
            return None if sep is None or any(x is None for x in xs) else sep.join(xs)
    return None


def shown(t):
    v = plain_any(t)
    return None if v is None else str(v[0])


def plain_any(t):
    """(value,) of a term made of constants."""
    if is_const(t):
        return (source_name(t),)
    if t[0] == "app" and t[1] in ("repr", "str", "fstr", "join", "add", "format"):
        x = text(t)
        return None if x is None else (x,)
    if t[0] == "dict":
        d = {}
        for s in t[1]:
            if s[0] != "kv":
                return None
            k, v = plain_any(s[1]), plain_any(s[2])
            if k is None or v is None:
                return None
            d[k[0]] = v[0]
        return (d,)
    if t[0] in ("list", "tuple"):
        xs = [plain_any(s[1]) if s[0] == "el" else None for s in t[1]]
        if any(x is None for x in xs):
            return None
        return ([x[0] for x in xs],) if t[0] == "list" else (tuple(x[0] for x in xs),)
    return None


def starts(ps):
    for p in ps:
        for e, _ in walk(p.events):
            if e.kind == "call" and e.name.endswith("Spawn"):
                yield p, e


def where_init(ck):
    f = ck.prog.funcs.get(API + ":init")
    return f"{f.module.rel}:{f.node.lineno}" if f else ""


def guessed(p):
    return any(e.kind == "assume" and "Init_thread" not in show(e.data) and "eq(mpi4py.MPI.COMM_NULL" not in show(e.data) for e, _ in walk(p.events))


def tell(sets, runtime):
    t = [f"{n} = {v!r} in {'the program' if h == 'put' else 'the environment'}" for h, n, v in sets]
    if runtime:
        t.append(f"runtime environment {runtime!r}")
    return "with " + (", ".join(t) if len(t) < 5 else "all parameters set") if t else "with nothing set"


def spawned(ck, site, ps, sets, runtime, lib="Open MPI v4.1", shared=False):
    found = 0
    for p, e in starts(driver(ck, sets, runtime, lib, shared)):
        if guessed(p):
            ck.unk("config", site, "a condition is not decided")
            continue
        found += 1
        mine = {}
        for x, _ in walk(p.events):
            if x.kind == "call" and x.name == "sym:!SEE":
                mine[source_name(x.args[0][1])] = x.args[1][1]
        argv = arg_of(e, 1, "args")
        items = [s[1] for s in argv[1]] if argv is not None and argv[0] in ("list", "tuple") and all(s[0] == "el" for s in argv[1]) else None
        if items is None or const("-c") not in items or items.index(const("-c")) + 1 >= len(items):
            ck.unk("text", site, f"the arguments of the started program are not known: {brief(argv) if argv else ''}")
            continue
        prog = text(items[items.index(const("-c")) + 1])
        if prog is None:
            ck.unk("text", site, f"the text of the started program is not known: {brief(items[-1], 300)}")
            continue
        child(ck, site, ps, prog, mine, sets, runtime, e.where)
    if not found:
        ck.unk("config", site, "no call that starts processes was reached")


def start(it, st, ev):
    """The call that starts processes: its arguments are kept as they are now."""
    r = stop_here(it, st, ev)
    ev.data = [it.snap(st, x[1]) for x in ev.args if x[0] == "el"], {source_name(x[1]): it.snap(st, x[2]) for x in ev.kw or () if x[0] == "kv"}
    return r


def arg_of(e, i, name):
    pos, kw = e.data
    return pos[i] if i < len(pos) else kw.get(name)


def child(ck, site, ps, prog, mine, sets, runtime, where):
    what = tell(sets, runtime)
    try:
        tree = ast.parse(prog)
    except (SyntaxError, ValueError) as x:
        return ck.bad("text", site, f"{what}, the text of the started program is not valid Python ({x.msg if hasattr(x, 'msg') else x}): {prog[-120:]!r}", where)
    body = "".join("    " + l + "\n" for n in tree.body for l in ast.unparse(n).split("\n"))
    # as in a module, names are looked up again after each statement
    names = sorted(n for n in ps)
    src = "import unidist\nimport unidist.config as cfg\nimport os as os_\ndef main(SEE):\n" + body + "    SEE('os.environ', os_.environ)\n    SEE('MpiRuntimeEnv', cfg.MpiRuntimeEnv.get())\n" + "".join(f"    SEE({n!r}, cfg.{n}.get())\n" for n in names)
    res = {"ext:packaging.version.parse": parse, "ext:multiprocessing.cpu_count": const(6), "ext:os.cpu_count": const(6), "ext:secrets.token_hex": ident("token"), "sym:!SEE": see,
           "ext:os.getenv": getenv, "ext:os.environ.get": getenv}
    good = 0
    for p in program(ck, src, args={"SEE": ident("SEE")}, inline_config=True, setup=importing([("UNIDIST_BACKEND", "ray"), ("A", "old")]), results=res, stops=("unidist.api:init", "*init_backend"), modules=False):
        if p.outcome != "ret":
            if guessed(p) or p.outcome != "raise":
                ck.unk("text", site, "the started program is not followed")
                continue
            return ck.bad("text", site, f"{what}, the started program raises {brief(p.value, 60)}: {prog[:200]!r}", where)
        if guessed(p):
            ck.unk("text", site, "a condition is not decided")
            continue
        evs = [x for x, _ in walk(p.events) if x.kind == "call"]
        ini = [i for i, x in enumerate(evs) if x.name in ("unidist.api:init",) or x.name.endswith(":init_backend")]
        if len(ini) != 1:
            return ck.bad("text", site, f"{what}, the started program initializes unidist {len(ini)} times", where)
        seen = {source_name(x.args[0][1]): x.data for x in evs if x.name == "sym:!SEE"}
        late = [x for x in evs[ini[0] + 1:] if x.name != "sym:!SEE" and x.name.startswith("unidist.config") and ".put" in x.name]
        if late:
            return ck.bad("config", site, f"{what}, the started program sets {late[0].name} only after it was initialized", where)
        # everything has to be in place when it is initialized
        cut = ast.Module([n for n in tree.body], [])
        k = [i for i, n in enumerate(cut.body) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).endswith("init")]
        if k and k[0] != len(cut.body) - 1:
            return ck.bad("config", site, f"{what}, the started program goes on after it was initialized: {ast.unparse(cut.body[k[0] + 1])[:80]}", where)
        if seen.get("Backend") is None or source_name(seen["Backend"]) != "mpi":
            return ck.bad("text", site, f"{what}, the started program does not select the MPI backend", where)
        ck.ok("text", site)
        for n in names:
            if n == "Backend" or n not in mine:
                continue
            a, b = mine[n], seen.get(n)
            if b is None:
                ck.unk("config", site, n)
            elif a == b or is_const(a) and is_const(b) and source_name(a) == source_name(b) and type(source_name(a)) is type(source_name(b)):
                ck.ok("config", site)
            elif is_const(a) and is_const(b):
                return ck.bad("config", site, f"{what}, {n} is {source_name(b)!r} in a started process instead of {source_name(a)!r}", where)
            else:
                ck.unk("config", site, f"{n}: {brief(a)} and {brief(b)}")
        environment(ck, site, seen.get("os.environ"), runtime, what, where)
        if runtime:
            v = plain_any(seen["MpiRuntimeEnv"])
            if v is None:
                ck.unk("config", site, "runtime environment")
            elif v[0] != runtime:
                return ck.bad("config", site, f"{what}, the runtime environment of a started process is {v[0]!r}", where)
        good += 1
    if good:
        ck.ok("config", site)


def see(it, st, ev):
    ev.data = it.snap(st, ev.args[1][1])
    return [((), NONE)]


def environment(ck, site, env, runtime, what, where):
    if env is None or env[0] != "dict" or any(s[0] != "kv" or not is_const(s[1]) for s in env[1]):
        return ck.unk("environ", site, f"the environment is not known: {brief(env) if env else ''}")
    have = {source_name(s[1]): s[2] for s in env[1]}
    for name, v in (runtime or {}).get("env_vars", {}).items():
        got = have.get(name)
        if got is None:
            return ck.bad("environ", site, f"{what}, the environment variable {name!r} is not set in a started process", where)
        x = text(got)
        if x is None:
            if is_const(got):
                return ck.bad("environ", site, f"{what}, the environment variable {name!r} is set to {source_name(got)!r}, which is not a string", where)
            ck.unk("environ", site, brief(got))
        elif x != str(v):
            return ck.bad("environ", site, f"{what}, the environment variable {name!r} is {x!r} in a started process instead of {str(v)!r}", where)
        else:
            ck.ok("environ", site)
    ck.ok("environ", site)


def mpiexec(ck, site, runtime):
    """Processes started with mpiexec apply the runtime environment themselves."""
    what = tell([], runtime)
    for role, rank in (("monitor", 1), ("worker", 2)):
        hook = {"meth:is_root_process": FALSE, "meth:is_monitor_process": const(role == "monitor"), STATE + ".is_root_process": FALSE, STATE + ".is_monitor_process": const(role == "monitor")}
        for l in ("monitor", "worker"):
            hook[MPI + f"{l}.loop:{l}_loop"] = here
        n = 0
        for p in driver(ck, [], runtime, "Open MPI", False, rank=rank, spawn=False, hook=hook, extra="    pass\n", stops=("*MPIState.is_root_process", "*MPIState.is_monitor_process")):
            runs = [x for x, _ in walk(p.events) if x.kind == "call" and x.name.endswith("_loop") and x.data is not None]
            if not runs or guessed(p):
                if p.outcome == "raise" and p.value != EXIT or guessed(p):
                    ck.unk("environ", site, f"not followed: {brief(p.value, 60) if p.value else ''}")
                continue
            n += 1
            environment(ck, site, runs[0].data, runtime, what.replace("started process", "process"), where_init(ck))
        if not n:
            ck.unk("environ", site, f"the loop of a {role} is not reached")


def here(it, st, ev):
    ev.data = it.snap(st, st.overlay[(("ext", "os"), "environ")])
    return [((), NONE)]


def count(ck, cpus, hosts, shared, lib):
    site = f"{cpus}/{hosts}/{'shared' if shared else 'plain'}/{lib.split()[0]}"
    sets = [("put", "CpuCount", cpus)] + ([("put", "MpiHosts", hosts)] if hosts else [])
    nh = len(hosts.split(",")) if hosts else 1
    want = cpus + (nh if shared else 1)
    n = 0
    for p, e in starts(driver(ck, sets, None, lib, shared, extra="    pass\n")):
        if guessed(p):
            ck.unk("count", site, "a condition is not decided")
            continue
        n += 1
        m = arg_of(e, 2, "maxprocs")
        if m is None or not is_const(m):
            ck.unk("count", site, brief(m) if m else "no number of processes")
            continue
        if source_name(m) != want:
            return ck.bad("count", site, f"with {cpus} CPUs on {nh} host(s), {'shared' if shared else 'no shared'} memory, {source_name(m)} processes are started instead of {want}", e.where)
        ck.ok("count", site)
        slots = [x for x, _ in walk(p.events) if x.kind == "call" and x.name == "meth:Set" and x.args and x.args[0][1] in (const("add-host"), const("hosts"), const("host"))]
        if nh > 1:
            if len(slots) != 1:
                return ck.bad("count", site, f"with {nh} hosts, the hosts are given {len(slots)} times", e.where)
            t = text(slots[0].args[1][1])
            if t is None:
                ck.unk("count", site, brief(slots[0].args[1][1]))
                continue
            parts = [x.split(":") for x in t.split(",")]
            if [x[0] for x in parts] != hosts.split(","):
                return ck.bad("count", site, f"with the hosts {hosts}, processes are started on {t}", slots[0].where)
            if all(len(x) == 2 for x in parts):
                ns = [int(x[1]) for x in parts]
                if sum(ns) != want + 1 or max(ns) - min(ns) > 1:
                    return ck.bad("count", site, f"with {want} processes to start on {hosts}, the slots are {t}: they have to add up to {want + 1}, spread evenly", slots[0].where)
            ck.ok("count", site)
    if not n:
        ck.unk("count", site, "no call that starts processes was reached")
