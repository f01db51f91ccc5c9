"""Model of the shared memory of one host for the analysis of the shared object store: windows,
the table in the second one, the bytes in the first one, weak finalizers."""
from .front import *
from .interp import FALSE, NONE, TRUE, app, const, cval, is_const, show
from .world import MPI, ident, program

D = "unidist.__driver__"
STORE = MPI + "shared_object_store"
MEM = MPI + "_memory"
MODEL = '''
import stubs
import unidist.core.backends.mpi.core.shared_object_store as S
import unidist.core.backends.mpi.core.common as C
import unidist.core.backends.mpi.core.monitor.shared_memory_manager as M


class Reg:
    wins = {}
    fins = []


class Table:
    def __init__(self):
        self.cells = {}
        self.blank = 0

    def __getitem__(self, i):
        v = self.cells.get(i, self.blank)
        stubs.read(i, v)
        return v

    def __setitem__(self, i, v):
        self.cells[i] = v
        stubs.wrote(i, v)


class Part:
    def __init__(self, lo, hi, ro):
        self.lo = lo
        self.hi = hi
        self.ro = ro

    def cast(self, fmt):
        return self

    def toreadonly(self):
        return Part(self.lo, self.hi, True)

    def __len__(self):
        return self.hi - self.lo

    def __getitem__(self, s):
        a, b = stubs.bounds(s, self.hi - self.lo)
        return Part(self.lo + a, self.lo + b, self.ro)

    def __setitem__(self, s, v):
        a, b = stubs.bounds(s, self.hi - self.lo)
        stubs.data(self.lo + a, self.lo + b, v)


class Memory:
    def __init__(self):
        self.table = Table()

    def cast(self, fmt):
        return self.table

    def toreadonly(self):
        return Part(0, 100000, True)

    def __getitem__(self, s):
        a, b = stubs.bounds(s, 100000)
        return Part(a, b, False)

    def __setitem__(self, s, v):
        a, b = stubs.bounds(s, 100000)
        stubs.data(a, b, v)


class Win:
    def __init__(self, unit):
        self.unit = unit
        self.memory = Memory()

    def Shared_query(self, rank):
        return self.memory, self.unit

    def Lock(self, rank, lock_type=None, assertion=0):
        stubs.lock(self.unit, rank, lock_type)

    def Unlock(self, rank):
        stubs.unlock(self.unit, rank)

    def Free(self):
        stubs.free(self.unit)


class Comm:
    def Allreduce(self, src, dst, op=None):
        for i in range(len(src)):
            dst[i] = stubs.reduce(src[i], op)

    def allreduce(self, v, op=None):
        return stubs.reduce(v, op) if isinstance(v, int) else [stubs.reduce(x, op) for x in v]

    def allgather(self, v):
        return [v, stubs.other(v)]


def allocate(size, unit=1, info=None, comm=None):
    if unit not in Reg.wins:
        Reg.wins[unit] = Win(unit)
    return Reg.wins[unit]


class Fin:
    def __init__(self, obj, f, *args):
        self.obj = obj
        self.f = f
        self.args = args
        self.alive = True
        Reg.fins.append(self)
        stubs.watch(obj)
        for a in args:
            if a is obj:
                stubs.strong(obj)

    def detach(self):
        self.alive = False

    def __call__(self):
        if self.alive:
            self.alive = False
            self.f(*self.args)


def collect(obj):
    """The last reference to the object is gone."""
    for x in Reg.fins:
        if x.obj is obj and x.alive:
            x.alive = False
            x.f(*x.args)


def new_id(r, n):
    C.MpiDataID._instances = {}
    return C.MpiDataID(r, n)


def store(log):
    s = S.SharedObjectStore()
    s.logger = log
    return s


'''


def bounds(it, st, ev):
    s, n = ev.args[0][1], ev.args[1][1]
    if s[0] != "slice":
        return [((), ("tuple", (("el", s), ("el", app("add", s, const(1))))))]
    lo = const(0) if s[1] == NONE else s[1]
    hi = n if s[2] == NONE else s[2]
    return [((), ("tuple", (("el", lo), ("el", hi))))]


def keep(it, st, ev):
    ev.data = [it.snap(st, x[1]) for x in ev.args]
    return [((), NONE)]


def filled(it, st, ev):
    """fill(table, value): what the cells hold that nobody has written."""
    ev.data = [it.snap(st, x[1]) for x in ev.args]

    def mk(y):
        for k, h in list(y.heap.items()):
            if h[0] == "inst" and h[1].endswith(":Table") and len(ev.args) > 1:
                y.heap[k] = ("inst", h[1], {**h[2], "blank": ev.args[1][1]})
        return NONE
    return [((), mk)]


def decoded(it, st, ev):
    vs = [x[1] for x in ev.args] + [x[2] for x in ev.kw if x[0] == "kv"]
    ev.data = [it.snap(st, x) for x in vs]
    return [((), ("sym", "!decoded"))]


def received(it, st, ev):
    ev.data = [it.snap(st, x[1]) for x in ev.args] + [it.snap(st, x[2]) for x in ev.kw if x[0] == "kv"]
    return [((), NONE)]


def run(ck, body, results=None, args=(), reserve=None, stops=(), **k):
    ov = {(("ext", "mpi4py.MPI.Win"), "Allocate_shared"): ("fn", D + ":allocate"), (("ext", "weakref"), "finalize"): ("cls", D + ":Fin"),
          (("ext", "mpi4py.MPI.LONG"), "size"): const(8), (("ext", "mpi4py.MPI.BYTE"), "size"): const(1)}
    cf = "cfg:unidist.config.backends.mpi.envvars:"
    res = {
        "sym:!SEE": keep, "ext:stubs.read": keep, "ext:stubs.wrote": keep, "ext:stubs.data": keep, "ext:stubs.lock": keep, "ext:stubs.unlock": keep, "ext:stubs.free": keep, "ext:stubs.watch": keep, "ext:stubs.strong": keep,
        "ext:stubs.bounds": bounds, "ext:" + MEM + ".parallel_memcopy": keep, "ext:" + MEM + ".fill": filled, "ext:mpi4py.MPI.Is_finalized": FALSE,
        MPI + "common:is_shared_memory_supported": TRUE, STORE + ":SharedObjectStore._get_allowed_memory_size": const(100000),
        MPI + "communication:MPIState.get_instance": ident("state"), "meth:is_monitor_process": TRUE, "meth:is_root_process": FALSE, MPI + "communication:MPIState.is_monitor_process": TRUE, MPI + "communication:MPIState.is_root_process": FALSE,
        "ext:weakref.proxy": lambda it, st, ev: [((), ev.args[0][1])],
        MPI + "serialization:deserialize_complex_data": decoded, MPI + "communication:mpi_recv_buffer": received, MPI + "communication:send_simple_operation": keep,
        cf + "MpiSharedObjectStoreMemory": const(4000), cf + "MpiSharedServiceMemory": const(640), cf + "MpiSharedObjectStoreThreshold": const(10), cf + "MpiBackoff": const(0),
        "ext:time.sleep": NONE,
    }
    if reserve is not None:
        res[MPI + "communication:send_reserve_operation"] = reserve
    res.update(results or {})
    a = {"SEE": ident("SEE"), "LOG": ident("LOG")}
    a.update({n: ident(n) for n in args})
    src = MODEL + "def main(" + ", ".join(a) + "):\n" + body
    return program(ck, src, args=a, overlay=ov, results=res, recursion=2,
                   stops=("*MPIState.*", "*common:is_shared_memory_supported", "*_get_allowed_memory_size", "*communication:send_reserve_operation", "*serialization:deserialize_complex_data",
                          "*communication:mpi_recv_buffer", "*communication:send_simple_operation") + tuple(stops), **k)


def reservation(first=100, size=None, service=8, request=True):
    """The answer of the monitor to a reservation: what it asks for, at the given place."""
    def f(it, st, ev):
        n = ev.bound.get("data_size") if ev.bound else None
        n = size if size is not None else n
        last = const(first + cval(n)) if n is not None and not isinstance(n, int) and is_const(n) else const(first + n) if isinstance(n, int) else app("add", const(first), n)

        def mk(y):
            kv = [("first_index", const(first)), ("last_index", last), ("service_index", const(service)), ("is_first_request", const(request))]
            return y.alloc(("dict", tuple(("kv", const(a), b) for a, b in kv)))
        ev.data = [n if not isinstance(n, int) else const(n)]
        return [((), mk)]
    return f
