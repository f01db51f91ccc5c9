"""Abstract iterations of the event loops of MPI workers and monitors, one set of paths per
operation received."""
import ast

from .execmodel import STORE_STOPS
from .interp import NONE, app, const
from .lib import *

WORKER = "unidist.core.backends.mpi.core.worker.loop:worker_loop"
MONITOR = "unidist.core.backends.mpi.core.monitor.loop:monitor_loop"
OPS = "unidist.core.backends.mpi.core.common:Operation"
RECV_OP = "unidist.core.backends.mpi.core.communication:mpi_recv_operation"
SOURCE = ("sym", "source_rank")
COMM = "unidist.core.backends.mpi.core.communication"
LOOP_STOPS = STORE_STOPS + (
    "*TaskStore.*", "*RequestStore.*", "*ObjectStore.*", "*AsyncOperations.*", "*pull_data", "*MPIState.*",
    "*SharedMemoryManager.*", "*FailedActor*",
)


def operations(prog):
    """{name: constant term} of the operations."""
    out = {}
    ci = prog.classes.get(OPS)
    if ci is None:
        raise Undecided(f"{OPS} not found")
    for n in ci.node.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = ("nc", f"{OPS}.{t.id}", const(n.value.value))
    return out


def _paths(ck, fkey, stops, key, ops=None, **k):
    cache = ck.__dict__.setdefault("_mpimodel", {})
    if key in cache:
        return cache[key]
    out = []
    for name, term in operations(ck.prog).items():
        if ops is not None and name not in ops:
            continue
        it, ps = run(ck, fkey, stops=stops, results={RECV_OP: ("tuple", (("el", term), ("el", SOURCE)))}, **k)
        seen = False
        for p in ps:
            for e in p.events:
                if e.kind == "loop" and any(x.kind == "call" and x.name == RECV_OP for q in e.paths for x in q.events):
                    if not seen:
                        out += [(name, q) for q in e.paths]
                    seen = True
    cache[key] = out
    return out


def worker_paths(ck, stops=LOOP_STOPS, ops=None, key="worker", **k):
    """[(operation, path of one iteration)] of the worker."""
    return _paths(ck, WORKER, stops, key, ops, **k)


def monitor_paths(ck, stops=LOOP_STOPS, ops=None, key="monitor", **k):
    return _paths(ck, MONITOR, stops, key, ops, **k)


RECEIVES = ("pull_data", "mpi_recv_object", "recv_serialized_data", "mpi_recv_buffer", "recv_complex_data", "mpi_iprobe_recv_object")


def receives(q):
    return [e for e, _ in walk(q.events) if e.kind == "call" and e.name.split(":")[-1].split(".")[-1] in RECEIVES]


def payload(q):
    """The value received after the operation itself."""
    r = receives(q)
    return r[0].res if r else None


def handled(q):
    """The operation was recognised on the path (it did not end in the error for unknown ones)."""
    return q.outcome != "raise"


# ------------------------------------------------------------------ scripted histories
def fresh_singletons(prog):
    """Overlay in which no singleton has been created yet; the classes concerned."""
    ov, keys = {}, []
    for ci in prog.classes.values():
        if "get_instance" in ci.methods:
            keys.append(ci.key)
            for n in ci.node.body:
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            nm = t.id
                            if nm.startswith("__") and not nm.endswith("__"):
                                nm = f"_{ci.name.lstrip('_')}{nm}"
                            ov[(("cls", ci.key), nm)] = NONE
    return ov, keys


def materialize(st, t):
    """Heap form of a literal term, so that it can be mutated."""
    if t[0] in ("list", "set"):
        return st.alloc((t[0], tuple((s[0], materialize(st, s[1])) if s[0] == "el" else s for s in t[1])))
    if t[0] == "dict":
        return st.alloc(("dict", tuple((s[0], s[1], materialize(st, s[2])) if s[0] == "kv" else s for s in t[1])))
    if t[0] == "tuple":
        return ("tuple", tuple((s[0], materialize(st, s[1])) if s[0] == "el" else s for s in t[1]))
    return t


def scripted(ck, fkey, msgs, singles=(), stops=LOOP_STOPS, results=None, payloads=RECEIVES, unroll=14, init=None, overlay=None, **k):
    """Abstract paths of an event loop that receives the given history of messages
    [(operation name, source term, payload term)].  ``singles``: classes whose instances are
    followed from their creation on."""
    ops = operations(ck.prog)
    ov, keys = fresh_singletons(ck.prog)
    ov = {a: b for a, b in ov.items() if a[0][1] in singles}
    ov.update(overlay or {})

    def recv(it, st, ev):
        n = sum(1 for e in st.events() if e.kind == "call" and e.name == RECV_OP)
        if n >= len(msgs):
            it.sinks[-1].append((st.fork(), ("exc", "END", "?")))
            return []
        return [((), ("tuple", (("el", ops[msgs[n][0]]), ("el", msgs[n][1]))))]

    def pay(it, st, ev):
        n = sum(1 for e in st.events() if e.kind == "call" and e.name == RECV_OP)
        t = msgs[n - 1][2] if n else None
        if t is None:
            return [((), ev.res)]
        return [((), lambda y: materialize(y, t))]

    rs = {RECV_OP: recv}
    for f in ck.prog.funcs:
        if f.split(":")[-1] in payloads and ".mpi." in f:
            rs[f] = pay
    rs.update(results or {})
    it = interp(ck, stops, (), results=rs, no_single=tuple(singles), unroll=unroll, unroll_inf=True, **k)
    ps = it.run(fkey, overlay=ov, init=init)
    ck.note_interp(it, ps)
    return it, ps


def sends(p, op=None):
    """Messages sent on a path: [(kind, args by name, event)]."""
    out = []
    for e, ctx in walk(p.events):
        if e.kind == "call" and e.name.startswith(COMM + ":") and "send" in e.name.split(":")[1]:
            if e.cond != "raises":
                out.append(e)
    return out
