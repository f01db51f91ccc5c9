"""Roles and placement on MPI: the set-up of every process is interpreted for a family of
layouts of hosts, and the results are compared across the processes; short histories of tasks
and actors are interpreted in the driver and in workers, and where they are sent is compared
with what is free."""
import itertools

from ..front import *
from ..interp import show, FALSE, NONE, TRUE, app, const, cval, is_const
from ..scen import PRE, wstr
from ..world import COMM, MPI, STATE, STOP, World, ident, lst, program, value
from ..mpimodel import materialize
from .c18 import COREACTOR, op_codes, placed

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (set-up of every process of a layout; placement histories)"
NOTE = "Layouts of up to 4 hosts and 9 processes; a process knows only the reservations it has made itself."
GC, HC = ident("GLOBALCOMM"), ident("HOSTCOMM")
HOSTS = "unidist.config.backends.mpi.envvars:MpiHosts"
SPAWN = "unidist.config.backends.mpi.envvars:MpiSpawn"
LAYOUTS = [
    {"h0": [0, 1, 2]},
    {"h0": [0, 1, 2, 3, 4]},
    {"h0": [0, 1]},
    {"h0": [0, 1, 2, 3], "h1": [4, 5, 6]},
    {"h0": [0, 1], "h1": [2, 3], "h2": [4, 5]},
    {"h0": [0, 2, 4, 6], "h1": [1, 3, 5]},
    {"h1": [0, 3, 5], "h0": [1, 2, 4]},
    {"h0": [0, 5, 6, 7, 8], "h1": [1, 2], "h2": [3, 4]},
    {"h0": [0, 4, 8], "h1": [1, 5], "h2": [2, 6], "h3": [3, 7]},
]
ONE_EACH = [{"h0": [0], "h1": [1], "h2": [2]}, {"h0": [0, 1], "h1": [2]}, {"h0": [0], "h1": [1, 2, 3]}]


def check(ck):
    ck.rule("roles", "Every process has exactly one of the roles driver, monitor and worker, and all processes agree on all roles.")
    ck.rule("monitor", "A host that shares memory has one monitor, which is in charge of the processes of that host; otherwise one process is in charge of all.")
    ck.rule("loop", "A process runs the loop of its role, and only that; the driver alone returns from the initialization with no loop.")
    ck.rule("resources", "The resources reported for a host are the number of its workers.")
    ck.rule("placed", "A task or actor is sent to a worker, not the submitting process, that the process has not reserved for an actor.")
    ck.rule("turn", "A worker is not used again before every other worker that was free all the time has been used.")
    ck.rule("none", "When no worker is free, submitting raises, and otherwise it does not.")
    jobs = []
    for n, lay in enumerate(LAYOUTS + ONE_EACH):
        for shared in (False, True):
            if shared and lay in ONE_EACH:
                continue
            site = f"layout{n}/{'shared' if shared else 'plain'}"
            jobs.append(("roles", site, lambda k, site=site, lay=lay, shared=shared: layout(k, site, lay, shared)))
    for n, lay in enumerate(LAYOUTS[:4] + LAYOUTS[6:7]):
        for spawn in (False, True):
            for shared in (False, True):
                site = f"init{n}/{'spawned' if spawn else 'mpiexec'}/{'shared' if shared else 'plain'}"
                jobs.append(("loop", site, lambda k, site=site, lay=lay, spawn=spawn, shared=shared: loops(k, site, lay, spawn, shared)))
    deep = 5 if ck.tier == "quick" else 7
    for nw in (1, 2, 3, 4):
        for rank in sorted({0, 2, nw + 1}):
            words = list(histories(deep if rank == 0 else 3, rank))
            for part in range(0, len(words), 40):
                site = f"placement/{nw}/{rank}/{part // 40}"
                jobs.append(("placed", site, lambda k, site=site, ws=words[part:part + 40], nw=nw, rank=rank: [placement(k, site, nw, rank, h) for h in ws]))
    ck.pguard(jobs)


# -------------------------------------------------------------------- roles
def world(layout, rank, shared):
    host = {r: h for h, rs in layout.items() for r in rs}
    size = len(host)

    def named(r, what):
        v = {"grank": r, "hrank": layout[host[r]].index(r), "host": host[r]}[what]
        return ("nc", what, const(v))

    def swap(t, r):
        if not isinstance(t, tuple):
            return t
        if len(t) == 3 and t[0] == "nc" and t[1] in ("grank", "hrank", "host"):
            return named(r, t[1])
        return tuple(swap(x, r) for x in t)

    def gather(it, st, ev):
        x = it.snap(st, ev.args[0][1])
        v = lst(*[swap(x, r) for r in range(size)])
        return [((), lambda y: materialize(y, v))]

    def get(a, b):
        return lambda it, st, ev: [((), a if ev.recv == GC or ev.recv == ("ext", "mpi4py.MPI.COMM_WORLD") else b if ev.recv == HC else ev.res)]
    return {
        "meth:Get_rank": get(named(rank, "grank"), named(rank, "hrank")),
        "meth:Get_size": get(const(size), const(len(layout[host[rank]]))),
        "meth:allgather": gather, "meth:Split_type": HC, "meth:Split": HC,
        "ext:socket.gethostbyname": named(rank, "host"), "ext:socket.gethostname": named(rank, "host"),
        MPI + "common:is_shared_memory_supported": const(shared),
    }


SUP = ("*mpi*common:is_shared_memory_supported",)


def layout(ck, site, lay, shared):
    host = {r: h for h, rs in lay.items() for r in rs}
    size = len(host)
    src = f"""
from unidist.core.backends.mpi.core.communication import MPIState
import unidist.core.backends.mpi.core.controller.api as api
def main(comm):
    s = MPIState.get_instance(comm)
    n = {tuple(range(size))}
    return (list(s.workers), list(s.monitor_processes), [s.is_root_process(r) for r in n], [s.is_monitor_process(r) for r in n],
            [s.get_monitor_by_worker_rank(r) for r in n], s.is_root_process(), s.is_monitor_process(), s.get_monitor_by_worker_rank(), api.cluster_resources())
"""
    where = ck.prog.classes[STATE].node.lineno if STATE in ck.prog.classes else 0
    where = f"unidist/core/backends/mpi/core/communication.py:{where}"
    views = {}
    for r in range(size):
        ps = program(ck, src, args={"comm": GC}, live=(STATE,), stops=SUP, results=world(lay, r, shared), facts=[(app("isnone", ("cfg", HOSTS)), True)])
        for p in ps:
            if p.outcome == "raise":
                return ck.unk("roles", site, f"process {r} raises {brief(p.value, 80)}")
            if p.outcome != "ret":
                return ck.unk("roles", site, f"process {r} not followed to its end: {p.outcome}")
            v = plainv(p.value)
            if v is None:
                return ck.unk("roles", site, f"what process {r} finds out is not known: {brief(p.value)}")
            views.setdefault(r, [])
            if v not in views[r]:
                views[r].append(v)
    if len(views) != size or any(not v for v in views.values()):
        return ck.unk("roles", site, "no path")
    first = views[0][0]
    for r, vs in views.items():
        for v in vs:
            w, m, roots, mons, mon_of, im_root, im_mon, my_mon, res = v
            role = {x: [n for n, y in (("driver", roots[x]), ("monitor", mons[x]), ("worker", x in w)) if y] for x in range(size)}
            odd = [x for x in role if len(role[x]) != 1]
            if odd:
                ck.bad("roles", site, f"for process {r} of the layout {lay}, process {odd[0]} is {' and '.join(role[odd[0]]) or 'nothing'}", where)
                continue
            if len(w) != len(set(w)) or set(w) - set(range(size)):
                ck.bad("roles", site, f"process {r} of the layout {lay} takes {w} for the workers", where)
                continue
            if [role[x] for x in range(size)].count(["driver"]) != 1 or roots[0] is not True:
                ck.bad("roles", site, f"for process {r} of the layout {lay}, the driver is not process 0 alone", where)
                continue
            if set(m) != {x for x in role if role[x] == ["monitor"]} or im_root != roots[r] or im_mon != mons[r]:
                ck.bad("roles", site, f"process {r} of the layout {lay} takes {m} for the monitors and itself for {'the driver' if im_root else 'a monitor' if im_mon else 'a worker'}", where)
                continue
            if sorted(w) != sorted(first[0]) or sorted(m) != sorted(first[1]):
                ck.bad("roles", site, f"processes 0 and {r} of the layout {lay} disagree: workers {first[0]} and {w}, monitors {first[1]} and {m}", where)
                continue
            ck.ok("roles", site)
            bad = None
            if shared:
                for h, rs in lay.items():
                    mine = [x for x in m if x in rs]
                    if len(mine) != 1:
                        bad = f"host {h} has {len(mine)} monitors"
                    elif any(mon_of[x] != mine[0] for x in rs):
                        bad = f"the monitor in charge of process {next(x for x in rs if mon_of[x] != mine[0])} is not the one of its host"
            elif len(m) != 1 or any(x != m[0] for x in mon_of):
                bad = f"the monitors are {m}, those in charge {mon_of}"
            if my_mon != mon_of[r]:
                bad = f"the monitor in charge of process {r} is {my_mon} or {mon_of[r]}"
            if bad:
                ck.bad("monitor", site, f"layout {lay}, process {r}: {bad}", where)
                continue
            ck.ok("monitor", site)
            want = {h: {"CPU": sum(1 for x in rs if x in w)} for h, rs in lay.items()}
            if res != want:
                f = ck.prog.funcs.get(MPI + "controller.api:cluster_resources")
                ck.bad("resources", site, f"layout {lay}: {res} is reported instead of {want}", f"{f.module.rel}:{f.node.lineno}" if f else where)
            else:
                ck.ok("resources", site)


def plainv(t):
    """Python value of a term made of constants."""
    if t[0] == "nc":
        t = t[2]
    if is_const(t):
        return cval(t)
    if t[0] in ("list", "tuple") and all(s[0] == "el" for s in t[1]):
        xs = [plainv(s[1]) for s in t[1]]
        return None if None in xs else xs
    if t[0] == "dict" and all(s[0] == "kv" for s in t[1]):
        return {plainv(s[1]): plainv(s[2]) for s in t[1]}
    return None


# -------------------------------------------------------------------- the loops
PARENT, INTER = ident("PARENT"), ident("INTERCOMM")
NULL = ("ext", "mpi4py.MPI.COMM_NULL")


ENVIRON = ("Init_thread", "Query_thread", "Get_library_version", "get_value_source")  # any answer is possible


def loops(ck, site, lay, spawn, shared):
    size = sum(map(len, lay.values()))
    f = ck.prog.funcs.get(MPI + "controller.api:init")
    if f is None:
        return ck.unk("loop", site, "no function init")
    where = f"{f.module.rel}:{f.node.lineno}"
    src = "import unidist.core.backends.mpi.core.controller.api as api\ndef main():\n    api.init()\n"
    mons = [rs[1] for rs in lay.values()] if shared else [1]
    for r in range(size):
        res = world(lay, r, shared)
        child = spawn and r != 0
        pre = "ext:mpi4py.MPI.COMM_WORLD."
        if spawn:
            res[pre + "Get_rank"] = const(0) if r == 0 else const(r - 1)
        else:
            res[pre + "Get_rank"], res[pre + "Get_size"] = ("nc", "grank", const(r)), const(size)
            res[pre + "allgather"] = res["meth:allgather"]
            res[pre + "Split_type"] = res[pre + "Split"] = HC
        res.update({
            "ext:mpi4py.MPI.Comm.Get_parent": PARENT if child else NULL, "meth:Merge": GC, "meth:Spawn": INTER,
            "ext:mpi4py.MPI.COMM_SELF.Spawn": INTER, "ext:mpi4py.MPI.Is_initialized": FALSE,
            "unidist.config.parameter:Parameter.get_value_source": default_source(ck),
            "ext:sys.exit": stop_here, "ext:builtins.exit": stop_here, "ext:os._exit": stop_here,
        })
        facts = [(app("isnone", ("cfg", HOSTS)), True), (app("truth", ("cfg", SPAWN)), spawn), (app("truth", ("cfg", "unidist.config.backends.mpi.envvars:MpiRuntimeEnv")), False),
                 (app("eq", PARENT, NULL), False), (app("eq", NULL, PARENT), False)]
        ps = program(ck, src, live=(STATE,), stops=SUP + ("*mpi*SharedObjectStore.*", "*mpi*monitor_loop", "*mpi*worker_loop", "*api:_get_py_flags", "*unidist.config*"),
                     results=res, facts=facts, modules=True)
        good = 0
        for p in ps:
            if p.outcome == "raise" and p.value != EXIT:
                continue  # unsuitable thread level, judged nowhere
            if p.outcome not in ("ret", "raise"):
                ck.unk("loop", site, f"process {r} not followed to its end: {p.outcome}")
                continue
            if any(e.kind == "assume" and not any(x in show(e.data) for x in ENVIRON) for e in p.events):
                ck.unk("loop", site, f"not decided for process {r}: " + "; ".join(show(e.data)[:80] for e in p.events if e.kind == "assume"))
                continue
            ran = [e for e, _ in walk(p.events) if e.kind == "call" and e.cond != "raises" and e.name.rpartition(":")[2] in ("monitor_loop", "worker_loop")]
            names = [e.name.rpartition(":")[2] for e in ran]
            want = [] if r == 0 else ["monitor_loop"] if r in mons else ["worker_loop"]
            if names != want:
                ck.bad("loop", site, f"process {r} of the layout {lay} runs {names or 'no loop'} instead of {want or 'none'}", ran[0].where if ran else where)
                return
            if r and not spawn and p.outcome == "ret":
                ck.bad("loop", site, f"process {r}, started with the user's program, goes on with it as if it were the driver", where)
                return
            if not r and p.outcome == "raise":
                ck.bad("loop", site, "the driver exits during the initialization", where)
                return
            good += 1
        if good:
            ck.ok("loop", site)
        else:
            ck.unk("loop", site, f"no path of process {r}")


EXIT = ("sym", "!exit")


def default_source(ck):
    ci = ck.prog.classes.get("unidist.config.parameter:ValueSource")
    v = ci.consts.get("DEFAULT") if ci else None
    return const(v.value if v is not None else 0)


def stop_here(it, st, ev):
    y = st.fork()
    y.push(ev)
    y.types[EXIT] = ("cls", "builtins.SystemExit")
    it.sinks[-1].append((y, EXIT))
    return []


# -------------------------------------------------------------------- placement
def histories(n, rank):
    """Words over T (task), N (new actor), D (the oldest actor goes), L (the newest goes)."""
    for k in range(1, n + 1):
        for w in itertools.product("TND" + ("L" if k <= 4 else ""), repeat=k):
            live, ok = 0, True
            for c in w:
                if c in "DL":
                    if not live or c == "L" and live < 2:
                        ok = False
                        break
                    live -= 1
                live += c == "N"
            if ok and (w[-1] not in "DL"):
                yield "".join(w)


def placement(ck, site, nw, rank, word):
    hosts = {"h0": list(range(nw + 2))}
    wd = World(ck, rank, hosts=hosts)
    head = PRE + "from unidist.core.backends.mpi.core.controller.actor import Actor\nimport unidist.core.backends.mpi.core.controller.api as api\n"
    body, live, n = "    i = api.put(F)\n", [], 0
    for c in word:
        if c == "T":
            body += "    api.submit(i, A)\n"
        elif c == "N":
            body += f"    a{n} = Actor(K, A)\n"
            live.append(f"a{n}")
            n += 1
        else:
            body += f"    {live.pop(0 if c == 'D' else -1)}.__del__()\n"
    src = head + "def main(F, K, A):\n" + body
    args = {x: ident(x) for x in "FKA"}
    types = {ident("F"): ("b", "function"), ident("K"): ("b", "class"), ident("A"): ("b", "int")}
    ps = wd.run(src, incoming=[], args=args, types=types, facts=[(app("truth", app("iscoroutinefunction", ident("F"))), False)], overlay={})
    if len(ps) != 1:
        return ck.unk("placed", site, f"{word}: {len(ps)} behaviours")
    p = ps[0]
    if p.outcome == "cut" or p.outcome == "raise" and p.value == STOP:
        return ck.unk("placed", site, f"{word}: not followed to its end")
    ops = op_codes(ck, "ACTOR_CREATE", "EXECUTE")
    ev = placed(wd, p, ops)
    cand = [x for x in wd.workers if x != rank]
    live, k, hist = [], 0, []  # hist: (rank, free set)
    raised = p.outcome == "raise"
    where = ev[-1][2].where if ev else wstr(p)
    for pos, c in enumerate(word):
        if c in "DL":
            live.pop(0 if c == "D" else -1)
            hist.append((None, set(cand) - set(live)))
            continue
        free = set(cand) - set(live)
        if not free:
            if raised and len(ev) == k:
                ck.ok("none", site)
            else:
                ck.bad("none", site, f"process {rank} with {nw} workers, history {word[:pos + 1]}: no worker is free, but {'process ' + str(ev[k][1]) + ' is used' if k < len(ev) else 'nothing is raised'}", where)
            return
        if k >= len(ev):
            if raised:
                ck.bad("none", site, f"process {rank} with {nw} workers, history {word[:pos + 1]}: submitting raises although {sorted(free)} are free", wstr(p))
            else:
                ck.bad("placed", site, f"process {rank} with {nw} workers, history {word[:pos + 1]}: nothing is sent", wstr(p))
            return
        op, d, e = ev[k]
        k += 1
        if op != ("EXECUTE" if c == "T" else "ACTOR_CREATE"):
            return ck.unk("placed", site, f"{word}: operation {op}")
        if d not in free:
            what = "the submitting process itself" if d == rank else "reserved for an actor" if d in live else "not a worker"
            ck.bad("placed", site, f"process {rank} with {nw} workers, history {word[:pos + 1]}: sent to process {d}, which is {what}", e.where)
            return
        ck.ok("placed", site)
        # fairness since the last use of d
        idle = set(free)
        seen = False
        for r2, fr in reversed(hist):
            if r2 == d:
                seen = True
                break
            idle &= fr
            idle.discard(r2)
        idle.discard(d)
        if seen and idle:
            ck.bad("turn", site, f"process {rank} with {nw} workers, history {word[:pos + 1]}: process {d} is used again before {sorted(idle)}", e.where)
            return
        ck.ok("turn", site)
        if c == "N":
            live.append(d)
        hist.append((d, free))
    if raised:
        ck.bad("none", site, f"process {rank} with {nw} workers, history {word}: raises {brief(p.value, 60)}", wstr(p))
    elif k != len(ev):
        ck.bad("placed", site, f"process {rank} with {nw} workers, history {word}: more is sent than was submitted", where)
    else:
        ck.ok("none", site)
