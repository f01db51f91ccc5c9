"""Shutdown of MPI: all processes of a job are interpreted together through the shutdown, on one
and several hosts, idle and with work pending, under several orders of delivery; the order of
notification, release of shared memory and finalization is read off their events."""
from ..front import *
from ..interp import FALSE, NONE, TRUE, app, const, cval, is_const
from ..scen import SHUT, SHUTDOWNS, RF, MK, KLASS, Scen, judge, schedules, wstr
from .c21 import fields
from ..world import STATE, STOP, W, World, called, ident, lst, program, value

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (composition of all MPI processes through their messages; typestate of MPI in each process)"
SOS = "unidist.core.backends.mpi.core.shared_object_store:SharedObjectStore"
ASYNC = "unidist.core.backends.mpi.core.async_operations:AsyncOperations"
API = "unidist.core.backends.mpi.core.controller.api"
OFF = {SOS + ".is_allocated": FALSE, SOS + ".contains": FALSE}
TWO = {"h0": [0, 1, 2, 3], "h1": [4, 5, 6]}
THREE = {"h0": [0, 1, 2], "h1": [3, 4, 5], "h2": [6, 7]}
A, B = ident("A"), ident("B")
STOPS = list(SHUTDOWNS)
for _h, _n in ((TWO, "two"), (THREE, "three")):
    STOPS += [
        Scen(f"stop-{_n}", "pass" + SHUT, None, ends=True, hosts=_h, shared=True, results=OFF),
        Scen(f"stop-idle-{_n}", RF + "x = proxy.get([f.remote(A), f.remote(B)])" + SHUT + "return x", lst(called("F", A), called("F", B)), ends=True, hosts=_h, shared=True, results=OFF),
        Scen(f"stop-busy-{_n}", RF + "a = f.remote(A)\nb = f.remote(a)\nc = f.remote(a, b)" + SHUT, None, ends=True, loose=True, hosts=_h, shared=True, results=OFF),
    ]
STOPS.append(Scen("stop-one", "pass" + SHUT, None, ends=True, hosts={"h0": [0, 1, 2]}))
STOPS.append(Scen("stop-handler", RF + "x = proxy.get(f.remote(A))" + SHUT.replace("import shutdown\nshutdown()", "import _termination_handler, shutdown\n_termination_handler()\n_termination_handler()") + "shutdown()\nreturn x", called("F", A), ends=True))
OPS = ("READY_TO_SHUTDOWN", "SHUTDOWN", "CANCEL")
COMM_CALLS = {"send", "isend", "ssend", "Send", "Isend", "recv", "Recv", "irecv", "iprobe", "probe", "Iprobe", "bcast", "Barrier", "barrier", "allgather", "Allreduce", "Free", "Lock", "Unlock"}


def check(ck):
    ck.rule("ends", "Every process of the job leaves its loop, in every order of delivery analysed, and the driver returns; repeating the shutdown does nothing.")
    ck.rule("told", "The driver cancels every worker once; every worker reports once to the monitor of the driver, which then, after all have reported, tells every other process once and the driver last; no process finalizes MPI before it has been told to.")
    ck.rule("finalized", "Each process finalizes MPI exactly once, after releasing shared memory and waiting for its outstanding sends, and does not communicate afterwards.")
    ck.rule("dropped", "A worker that has reported runs no further task.")
    ck.rule("registered", "The driver registers the shutdown for the end of the interpreter and for SIGTERM and SIGINT; the handler accepts the arguments it is called with.")
    jobs = []
    for s in STOPS:
        many = len(s.ranks()) > 5
        for i, (o, sl) in enumerate(schedules(ck.tier, s.ranks(), pairs=s.loose and not many)):
            if many and ck.tier == "quick" and i > 5:
                break
            site = f"{s.name}/{i}"
            jobs.append(("ends", site, lambda k, site=site, s=s, o=o, sl=sl: one(k, site, s, s.cluster(k, o, sl).go())))
    ck.pguard(jobs)
    ck.guard("registered", "init", lambda: registered(ck))
    ck.guard("registered", "handler", lambda: handler(ck))


def opcodes(ck):
    ci = next((c for c in ck.prog.classes.values() if c.name == "Operation" and ".mpi." in c.key), None)
    if ci is None:
        raise Undecided("no class Operation")
    out = {}
    for n in OPS:
        e = ci.consts.get(n)
        out[n] = getattr(e, "value", None) if e is not None else None
        if out[n] is None:
            raise Undecided(f"Operation.{n}")
    return out


def trace(c, r, ops):
    """(what, partner, event) in order: operations sent and received, and calls that matter."""
    w, p = c.worlds[r], c.paths[r]
    taken = list(cval(p.state.overlay.get((W, "taken"), const(()))))
    names = {v: k for k, v in ops.items()}
    sent = {id(m.ev): m for m in w.sent(p)}
    out = []
    for e, ctx in walk(p.events):
        if e.kind != "call" or e.cond == "raises":
            continue
        n = e.name.rpartition(":")[2]
        if id(e) in sent:
            m = sent[id(e)]
            v = value(m.data)
            tag = value(m.tag)
            out.append((("send", names.get(v) if m.data[0] == "nc" or tag == w.optag else None, tag == w.optag), value(m.dest), e))
        elif n in ("recv", "Recv"):
            if taken:
                m = w.incoming[taken.pop(0)]
                v = value(m.data)
                out.append((("recv", names.get(v) if m.data[0] == "nc" or value(m.tag) == w.optag else None, value(m.tag) == w.optag), value(m.src), e))
        elif e.name.endswith("MPI.Finalize"):
            out.append((("finalize",), None, e))
        elif e.name == SOS + ".finalize":
            out.append((("release",), None, e))
        elif e.name == ASYNC + ".finish":
            out.append((("finish",), None, e))
        elif e.name == ASYNC + ".extend":
            out.append((("extend",), None, e))
        elif e.name.startswith("sym:!"):
            out.append((("run",), None, e))
        elif e.name.startswith("meth:") and n in COMM_CALLS:
            out.append((("comm",), None, e))
    return out


def waiting(ck, w, p):
    """The attribute of the store of tasks that still holds requests to execute."""
    ci = next((c for c in ck.prog.classes.values() if c.name == "TaskStore" and ".mpi." in c.key), None)
    if ci is None:
        return None
    for (b, n), v in p.state.overlay.items():
        if b == ("cls", ci.key) and v[0] == "ref":
            for a, x in (fields(w.it.snap(p.state, v)) or {}).items():
                if holds(x):
                    return a
    return None


def holds(t):
    if t[0] == "dict" and any(s[0] == "kv" and is_const(s[1]) and cval(s[1]) in ("task", "output") for s in t[1]):
        return True
    return t[0] in ("list", "tuple", "set", "dict") and any(isinstance(x, tuple) and holds(x) for s in t[1] for x in s[1:])


def one(ck, site, s, c):
    ops = opcodes(ck)
    workers = c.worlds[0].workers
    root_monitor = c.monitors[0]
    ended = True
    for r, p in c.paths.items():
        role = "driver" if r == 0 else "monitor" if r in c.monitors else "worker"
        if p.outcome == "cut":
            ck.unk("ends", site, f"{role} {r} not followed to its end")
            ended = False
        elif p.outcome == "raise":
            ck.bad("ends", site, f"{role} {r} " + (f"waits forever: {World.why(p)}" if p.value == STOP else f"ends with {brief(p.value)}"), wstr(p))
            ended = False
        else:
            ck.ok("ends", site)
    if not ended:
        return
    if s.expect is not None:
        judge(ck, "ends", site, s, c)
    T = {r: trace(c, r, ops) for r in c.paths}

    def sends(r, op, oper=True):
        return [(d, e) for k, d, e in T[r] if k[0] == "send" and k[1] == op and k[2] == oper]

    def expect(got, want, what, w):
        if sorted(got) == sorted(want):
            ck.ok("told", site)
        else:
            miss = [x for x in want if x not in got]
            twice = sorted({x for x in got if got.count(x) > 1})
            extra = sorted({x for x in got if x not in want})
            ck.bad("told", site, what + "; ".join(([f" does not reach {miss}"] if miss else []) + ([f" reaches {twice} more than once"] if twice else []) + ([f" is sent to {extra}"] if extra else [])), w)
    cs = sends(0, "CANCEL")
    expect([d for d, _ in cs], workers, "the cancellation", cs[-1][1].where if cs else wstr(c.paths[0]))
    for r in workers:
        rd = sends(r, "READY_TO_SHUTDOWN")
        expect([d for d, _ in rd], [root_monitor], f"the report of worker {r}", rd[-1][1].where if rd else wstr(c.paths[r]))
        last = next((i for i, x in enumerate(T[r]) if x[0][0] == "send" and x[0][1] == "READY_TO_SHUTDOWN"), None)
        if last is not None:
            fin = [i for i, x in enumerate(T[r]) if x[0] == ("finish",) and i < last]
            ext = [x for i, x in enumerate(T[r]) if x[0] == ("extend",) and (not fin or fin[-1] < i < last)]
            if ext:
                ck.bad("finalized", site, f"worker {r} reports before its outstanding sends have been waited for", T[r][last][2].where)
            else:
                ck.ok("finalized", site)
            run = next((x for x in T[r][last:] if x[0] == ("run",)), None)
            if run:
                ck.bad("dropped", site, f"worker {r} runs a task after it has reported", run[2].where)
            else:
                ck.ok("dropped", site)
            left = waiting(ck, c.worlds[r], c.paths[r])
            if left:
                ck.bad("dropped", site, f"worker {r} reports although {left} still holds a task that waits", T[r][last][2].where)
            else:
                ck.ok("dropped", site)
    sd = sends(root_monitor, "SHUTDOWN")
    expect([d for d, _ in sd], [r for r in c.paths if r not in (0, root_monitor)], "the request to exit", sd[-1][1].where if sd else wstr(c.paths[root_monitor]))
    so = sends(root_monitor, "SHUTDOWN", False)
    expect([d for d, _ in so], [0], "the notification of the driver", so[-1][1].where if so else wstr(c.paths[root_monitor]))
    tm = T[root_monitor]
    first = next((i for i, x in enumerate(tm) if x[0][0] == "send" and x[0][1] == "SHUTDOWN"), len(tm))
    got = sorted(x[1] for x in tm[:first] if x[0][:2] == ("recv", "READY_TO_SHUTDOWN"))
    if got != sorted(workers):
        ck.bad("told", site, f"processes are told to exit although only {got} of the workers {workers} have reported", wstr(c.paths[root_monitor]))
    else:
        ck.ok("told", site)
    pos = [i for i, x in enumerate(tm) if x[0][0] == "send" and x[0][1] == "SHUTDOWN"]
    if pos and tm[pos[-1]][1] != 0:
        ck.bad("told", site, "the driver is told to exit before the other processes", tm[pos[-1]][2].where)
    for r in c.paths:
        t = T[r]
        fin = [i for i, x in enumerate(t) if x[0] == ("finalize",)]
        if len(fin) != 1:
            ck.bad("finalized", site, f"process {r} finalizes MPI {len(fin)} times", t[fin[-1]][2].where if fin else wstr(c.paths[r]))
            continue
        f = fin[0]
        late = next((x for x in t[f + 1:] if x[0][0] in ("send", "recv", "comm", "release", "finish")), None)
        if late:
            ck.bad("finalized", site, f"process {r} " + ("releases shared memory" if late[0][0] == "release" else "communicates") + " after MPI has been finalized", late[2].where)
        elif not any(x[0] == ("release",) for x in t[:f]):
            ck.bad("finalized", site, f"process {r} finalizes MPI without releasing shared memory", t[f][2].where)
        else:
            ck.ok("finalized", site)
        fs = [i for i, x in enumerate(t) if x[0] == ("finish",)]
        if any(x[0] == ("extend",) and (not fs or i > fs[-1]) for i, x in enumerate(t[:f])):
            ck.bad("finalized", site, f"process {r} finalizes MPI with sends outstanding", t[f][2].where)
        else:
            ck.ok("finalized", site)
        if r != root_monitor and not any(x[0][:2] == ("recv", "SHUTDOWN") for x in t[:f]):
            ck.bad("told", site, f"process {r} finalizes MPI before it has been told to", t[f][2].where)
        else:
            ck.ok("told", site)


def registered(ck):
    """The part of the initialization that follows once the role of the process is known."""
    cfg = [("cfg", c.key) for c in ck.prog.classes.values() if c.name in ("MpiSpawn", "MpiRuntimeEnv")]
    it = interp(ck, ("*MPIState.*", "*SharedObjectStore.*", "*monitor_loop", "*worker_loop", "*_get_py_flags", "*is_shared_memory_supported", "*get_logger*"), ("mpi4py", "numpy"), raise_forks=False, max_paths=20000)
    ps = it.run(API + ":init", facts=[(app("truth", x), False) for x in cfg])
    ck.note_interp(it, ps)
    roots = 0
    for p in ps:
        if p.outcome != "ret" and p.outcome != "raise":
            continue
        ev = [e for e, _ in walk(p.events) if e.kind == "call" and e.cond != "raises"]
        role = {}
        for f, b in p.state.facts.items():
            s = repr(f)
            if "is_root_process" in s:
                role["root"] = b
            if "is_monitor_process" in s:
                role["monitor"] = b
        names = [e.name for e in ev]
        loops = [n for n in names if n.endswith("monitor_loop") or n.endswith("worker_loop")]
        if role.get("root") is True and p.outcome == "ret":
            roots += 1
            w = ev[-1].where if ev else ""
            ex = [e for e in ev if e.name == "ext:atexit.register"]
            sg = [e for e in ev if e.name == "ext:signal.signal"]
            fns = {}
            for e in ex:
                fns["the end of the interpreter"] = e.arg(0)
            for e in sg:
                s = e.arg(0)
                for n in ("SIGTERM", "SIGINT"):
                    if s is not None and repr(s).endswith(f".{n}')"):
                        fns[n] = e.arg(1)
            for n in ("the end of the interpreter", "SIGTERM", "SIGINT"):
                if n not in fns:
                    if any(e.arg(0) is None or e.arg(0)[0] != "ext" for e in sg) and n != "the end of the interpreter":
                        ck.unk("registered", "init", n)
                    else:
                        ck.bad("registered", "init", f"nothing is registered for {n}", w)
                elif fns[n] is not None and fns[n][0] == "fn":
                    reaches(ck, n, fns[n], w)
                elif fns[n] is not None and fns[n][0] == "ext" and fns[n][1].startswith("signal."):
                    ck.bad("registered", "init", f"{fns[n][1]} is registered for {n}", w)
                else:
                    ck.unk("registered", "init", brief(fns[n] or NONE))
            if loops:
                ck.bad("registered", "init", f"the driver enters {loops[0]}", w)
    if not roots:
        ck.unk("registered", "init", "no path of the driver")


def reaches(ck, n, fn, w):
    it = interp(ck, (API + ":shutdown", "*get_logger*"), (), raise_forks=False)
    key = fn[1]
    S, F = ident("SIG"), ident("FRAME")
    fi = ck.prog.funcs.get(key)
    if fi is None:
        return ck.unk("registered", n, key)
    if key == API + ":shutdown":
        calls = "shutdown"
        a = fi.node.args
        if n != "the end of the interpreter" and len(a.args) < 2 and not a.vararg:
            return ck.bad("registered", n, f"{fi.name} does not accept the arguments of a signal handler", w)
        return ck.ok("registered", n, w)
    src = f"from {fi.module.name} import {fi.name}\ndef main(SIG, FRAME):\n    {fi.name}({'' if n == 'the end of the interpreter' else 'SIG, FRAME'})\n"
    for p in it.run_source(src, args={"SIG": S, "FRAME": F}, types={S: ("b", "int")}):
        ev = [e for e, _ in walk(p.events) if e.kind == "call" and e.name == API + ":shutdown"]
        if p.outcome == "raise" and "TypeError" in brief(p.value):
            ck.bad("registered", n, f"{fi.name} does not accept the arguments it is called with", w)
        elif len(ev) >= 1:
            ck.ok("registered", n, w)
        elif any(f[0] == "app" for f in p.state.facts):
            ck.unk("registered", n, "depends on a condition")
        else:
            ck.bad("registered", n, f"{fi.name} does not shut down", w)


def handler(ck):
    """Shutting down twice in one process has no further effect."""
    src = f"""
from {API} import shutdown
def main():
    shutdown()
    return 1
"""
    ps = program(ck, src, stops=("*AsyncOperations.*", "*SharedObjectStore.*", "*MPIState.*", "*communication:*"), overlay={(("mod", API), "is_mpi_shutdown"): TRUE}, modules=False)
    for p in ps:
        ev = [e for e, _ in walk(p.events) if e.kind == "call" and ("mpi_" in e.name or "Finalize" in e.name and "Is_" not in e.name)]
        if p.outcome == "raise":
            ck.bad("registered", "again", f"a repeated shutdown raises {brief(p.value)}")
        elif ev:
            ck.bad("registered", "again", f"a repeated shutdown calls {ev[0].name}", ev[0].where)
        else:
            ck.ok("registered", "again")
