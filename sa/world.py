"""One MPI process as an abstract machine: its code is interpreted over terms while the calls
on the communicator are given a meaning (messages are terms on a wire).

What a process sends on a path can be given to the code of another process, so both sides of
the protocol are compared through the code itself and not through function names.
"""
import ast

from .interp import FALSE, NONE, TRUE, State, app, const, cval, is_const
from .lib import *
from .mpimodel import fresh_singletons, materialize, operations

MPI = "unidist.core.backends.mpi.core."
COMM = ("sym", "!COMM")
STATE = MPI + "communication:MPIState"
MPIDATAID = MPI + "common:MpiDataID"
W = ("sym", "@wire")
STOP = ("res", -1, "ext:builtins.SystemExit")  # the process waits for a message that does not come

DEFAULT_STOPS = (
    "*.serialization:*", "*log_operation", "*get_logger*", "*get_op_name", "*is_shared_memory_supported", "*mpi*SharedObjectStore.*",
    "*mpi*AsyncOperations.*", "*unwrapped_data_ids_list", "*mpi*MPIState.__init__",
)


def value(t):
    """Constant of a term, through named constants."""
    if t is not None and t[0] == "nc":
        t = t[2]
    return cval(t) if t is not None and is_const(t) else None


def same(a, b):
    if a == b:
        return True
    va, vb = value(a), value(b)
    return va is not None and va == vb


def dct(**k):
    return ("dict", tuple(("kv", const(a), b) for a, b in k.items()))


def lst(*x):
    return ("list", tuple(("el", i) for i in x))


def field(d, name):
    """Value of a constant key of a literal dictionary."""
    if d is None or d[0] != "dict":
        return None
    for s in d[1]:
        if s[0] == "kv" and value(s[1]) == name:
            return s[2]
    return None


def ident(n):
    return ("sym", f"!{n}")


class Msg:
    """A message on the wire."""

    def __init__(self, src, dest, tag, data, kind, ev=None):
        self.src, self.dest, self.tag, self.data, self.kind, self.ev = src, dest, tag, data, kind, ev

    def __repr__(self):
        return f"{brief(self.src, 20)}->{brief(self.dest, 20)} tag {value(self.tag)} {self.kind}: {brief(self.data, 80)}"


class World:
    """hosts: {host: [global ranks in host order]}; rank 0 is the driver."""

    def __init__(self, ck, rank, hosts=None, shared=False, live=(), stops=DEFAULT_STOPS, extra_stops=(), results=None, owners=None, unroll=80, parent=None, **opts):
        self.ck, self.rank, self.shared = ck, rank, shared
        self.hosts = hosts or {"h0": [0, 1, 2, 3, 4]}
        self.monitors = [r[1] for r in self.hosts.values()] if shared else [1]
        self.workers = [x for r in self.hosts.values() for x in r if x != 0 and x not in self.monitors]
        ov, keys = fresh_singletons(ck.prog)
        mpi = [k for k in keys if ".mpi." in k and k != STATE]
        st = tuple(stops) + tuple(extra_stops)
        m = matcher(st)
        self.live = [k for k in mpi if not any(m(f.key) for n, f in ck.prog.classes[k].methods.items() if n == "__init__")
                     and not m(k + ".__init__")]
        self.overlay = {a: b for a, b in ov.items() if a[0][1] in self.live}
        self.overlay[(("ext", "mpi4py.util.pkl5._bigmpi"), "blocksize")] = const(2)
        self.incoming = []
        self.optag = next((n.value.value for c in ck.prog.classes.values() if c.name == "MPITag" for n in c.node.body
                           if isinstance(n, ast.Assign) and n.targets[0].id == "OPERATION" and isinstance(n.value, ast.Constant)), 111)
        self.owners = owners or {}
        rs = {
            "meth:iprobe": self.iprobe, "meth:Iprobe": self.iprobe, "meth:probe": self.iprobe,
            "meth:recv": self.recv, "meth:Recv": self.recv_buf, "meth:Get_source": self.get_source,
            "meth:irecv": self.irecv, "meth:test": self.test, "meth:wait": self.test,
            "meth:Get_tag": self.get_tag,
            "val:app": self.bigmpi, "val:ext": self.bigmpi,
            "meth:tobytes": lambda it, st, ev: [((), ev.recv)],
            MPI + "serialization:serialize_complex_data": self.ser,
            MPI + "serialization:deserialize_complex_data": self.deser,
            MPI + "serialization:SimpleDataSerializer.serialize_pickle": self.pickled,
            MPI + "serialization:SimpleDataSerializer.deserialize_pickle": self.unpickled,
            MPI + "common:is_shared_memory_supported": TRUE if shared else FALSE,
            MPIDATAID: self.new_id,
            "ext:mpi4py.MPI.Is_finalized": self.is_finalized, "ext:mpi4py.MPI.Is_initialized": TRUE,
            "ext:time.perf_counter": self.clock, "ext:time.time": self.clock, "ext:time.monotonic": self.clock,
        }
        if not shared:
            rs[MPI + "shared_object_store:SharedObjectStore.is_allocated"] = FALSE
            rs[MPI + "shared_object_store:SharedObjectStore.contains"] = FALSE
        rs.update(results or {})
        opts.setdefault("raise_forks", False)
        opts.setdefault("max_paths", 40000)
        opts.setdefault("recursion", 4)
        self.it = interp(ck, st, (), results=rs, no_single=tuple(self.live), unroll=unroll, unroll_inf=True, buffers=True, **opts)

    # ---------------------------------------------------------------- wire
    def taken(self, st):
        return cval(st.overlay.get((W, "taken"), const(())))

    def find(self, st, source, tag):
        for i, m in enumerate(self.incoming):
            if i in self.taken(st):
                continue
            anys = source is None or source in (("ext", "mpi4py.MPI.ANY_SOURCE"),)
            anyt = tag is None or tag in (("ext", "mpi4py.MPI.ANY_TAG"),)
            if (anys or same(m.src, source)) and (anyt or same(m.tag, tag)):
                return i
        return None

    def blocked(self, it, st, ev, what, source=None, tag=None):
        y = st.fork()
        y.push(ev)
        anys = source is None or source == ("ext", "mpi4py.MPI.ANY_SOURCE")
        y.overlay[(W, "idle")] = const(anys and value(tag) == self.optag)
        y.overlay[(W, "blocked")] = const(what)
        it.sinks[-1].append((y, STOP))
        return []

    def set_status(self, y, status, m):
        if status is not None and status != NONE:
            y.overlay[(status, "source")] = m.src
            y.overlay[(status, "tag")] = m.tag

    def iprobe(self, it, st, ev):
        i = self.find(st, ev.arg(None, "source"), ev.arg(None, "tag"))
        if i is None:
            return self.blocked(it, st, ev, f"no message with tag {value(ev.arg(None, 'tag'))}", ev.arg(None, "source"), ev.arg(None, "tag"))
        m = self.incoming[i]

        def mk(y):
            self.set_status(y, ev.arg(None, "status"), m)
            return TRUE
        return [((), mk)]

    def take(self, y, i):
        y.overlay[(W, "taken")] = const(self.taken(y) + (i,))

    def recv(self, it, st, ev):
        if ev.recv is not None and ev.recv != COMM and ev.recv[0] == "attr" and ev.recv[1] != COMM:
            pass
        i = self.find(st, ev.arg(1, "source"), ev.arg(2, "tag"))
        if i is None:
            return self.blocked(it, st, ev, f"recv from {brief(ev.arg(1, 'source') or NONE, 30)} with tag {value(ev.arg(2, 'tag'))}", ev.arg(1, "source"), ev.arg(2, "tag"))
        m = self.incoming[i]
        if m.kind != "object":
            return self.blocked(it, st, ev, f"an object is received where raw bytes were sent (tag {value(m.tag)})")

        def mk(y):
            self.take(y, i)
            self.set_status(y, ev.arg(None, "status"), m)
            return materialize(y, m.data)
        return [((), mk)]

    def irecv(self, it, st, ev):
        src, tag = ev.arg(1, "source"), ev.arg(2, "tag")

        def mk(y):
            h = ("res", y.n, "irecv")
            y.overlay[(h, "__irecv__")] = ("tuple", (("el", src or NONE), ("el", tag or NONE)))
            return h
        return [((), mk)]

    def test(self, it, st, ev):
        a = st.overlay.get((ev.recv, "__irecv__")) if ev.recv is not None else None
        if a is None:
            return [((), ev.res)]
        src, tag = a[1][0][1], a[1][1][1]
        i = self.find(st, None if src == NONE else src, None if tag == NONE else tag)
        if i is None:
            return self.blocked(it, st, ev, f"recv from {brief(src, 30)} with tag {value(tag)}")
        m = self.incoming[i]

        def mk(y):
            self.take(y, i)
            v = materialize(y, m.data)
            return ("tuple", (("el", TRUE), ("el", v))) if ev.name == "meth:test" else v
        return [((), mk)]

    def get_source(self, it, st, ev):
        return [((), st.overlay.get((ev.recv, "source"), ev.res))]

    def get_tag(self, it, st, ev):
        return [((), st.overlay.get((ev.recv, "tag"), ev.res))]

    def bigmpi(self, it, st, ev):
        if len(ev.args) == 1 and "_bigmpi" in show(ev.recv if ev.recv is not None else ()):
            return [((), ev.args[0][1])]
        return [((), ev.res)]

    def recv_buf(self, it, st, ev):
        buf = ev.args[0][1]
        i = self.find(st, ev.arg(1, "source"), ev.arg(2, "tag"))
        if i is None:
            return self.blocked(it, st, ev, f"Recv from {brief(ev.arg(1, 'source') or NONE, 30)} with tag {value(ev.arg(2, 'tag'))}")
        m = self.incoming[i]
        if m.kind != "buffer":
            return self.blocked(it, st, ev, f"raw bytes are received where an object was sent (tag {value(m.tag)})")

        def mk(y):
            self.take(y, i)
            n = len_of(m.data)
            if buf[0] == "buf" and not same(buf[2], n):
                y.overlay[(W, "size")] = const(f"a buffer of {brief(buf[2], 60)} bytes receives {brief(n, 60)} bytes")
            y.overlay[(buf, "__wire__")] = m.data
            return NONE
        return [((), mk)]

    # ---------------------------------------------------------------- contents of buffers
    def content(self, st, t):
        """What a buffer holds: a term, or None."""
        if t[0] != "buf":
            return t
        w = st.overlay.get((t, "__wire__"))
        if w is not None:
            return w
        parts = []
        for (b, k), v in st.overlay.items():
            if b == t and isinstance(k, tuple) and k[0] == "item" and k[1][0] == "slice":
                parts.append((k[1], v))
        return glue(parts, lambda v: self.content(st, v), t[2])

    def ser(self, it, st, ev):
        x = ev.arg(0, "data")

        def mk(y):
            return materialize(y, dct(s_data=app("sdata", x), raw_buffers=lst(app("rawbuf", x, const(0)), app("rawbuf", x, const(1))), buffer_count=lst(app("bufcount", x))))
        return [((), mk)]

    def deser(self, it, st, ev):
        s = ev.arg(0, "s_data")
        raw, cnt = ev.arg(1, "raw_buffers"), ev.arg(2, "buffer_count")
        s = self.content(st, s)
        rs = [self.content(st, x[1]) for x in raw[1]] if raw is not None and raw[0] == "list" and all(x[0] == "el" for x in raw[1]) else None
        if s is not None and s[0] == "app" and s[1] == "sdata":
            x = s[2][0]
            if rs == [app("rawbuf", x, const(0)), app("rawbuf", x, const(1))] and cnt == lst(app("bufcount", x)):
                return [((), lambda y: materialize(y, x))]
            return [((), app("garbled", x, ("tuple", tuple(("el", r or NONE) for r in rs or ())), cnt or NONE))]
        return [((), app("garbled", s or NONE))]

    def pickled(self, it, st, ev):
        return [((), app("pickled", ev.arg(1, "data") or ev.arg(0, "data")))]

    def unpickled(self, it, st, ev):
        t = self.content(st, ev.args[-1][1])
        if t is not None and t[0] == "app" and t[1] == "pickled":
            return [((), lambda y: materialize(y, t[2][0]))]
        return [((), app("garbled", t or NONE))]

    def is_finalized(self, it, st, ev):
        return [((), TRUE if any(e.kind == "call" and e.name == "ext:mpi4py.MPI.Finalize" for e in st.events()) else FALSE)]

    def clock(self, it, st, ev):
        """Time passes quickly between any two looks at the clock."""
        n = sum(1 for e in st.events() if e.kind == "call" and e.name == ev.name)
        return [((), const(1000 * (n + 1)))]

    def new_id(self, it, st, ev):
        o, n = ev.arg(0, "owner_rank"), ev.arg(1, "data_number")

        def mk(y):
            v = ("sym", f"!id{value(o)}_{value(n)}") if value(o) is not None and value(n) is not None else ("sym", f"!id{self.rank}_x{y.n}")
            y.types[v] = ("cls", MPIDATAID)
            if o is not None:
                y.overlay[(v, "owner_rank")] = o
            if n is not None:
                y.overlay[(v, "data_number")] = n
            return v
        return [((), mk)]

    # ---------------------------------------------------------------- running
    def init(self, it, st, bound):
        S = ("single", STATE)
        top, by = {}, {}
        ov = st.overlay
        ov[(S, "global_comm")] = COMM
        ov[(S, "host_comm")] = ("sym", "!HOSTCOMM")
        ov[(S, "global_rank")] = const(self.rank)
        ov[(S, "global_size")] = const(sum(map(len, self.hosts.values())))
        ov[(S, "host")] = const(next(h for h, r in self.hosts.items() if self.rank in r))
        ov[(S, "workers")] = materialize(st, lst(*map(const, self.workers)))
        ov[(S, "monitor_processes")] = materialize(st, lst(*map(const, self.monitors)))
        ov[(S, "topology")] = materialize(st, ("dict", tuple(("kv", const(h), ("dict", tuple(("kv", const(i), const(x)) for i, x in enumerate(r)))) for h, r in self.hosts.items())))
        ov[(S, "host_by_rank")] = materialize(st, ("dict", tuple(("kv", const(x), const(h)) for h, r in self.hosts.items() for x in r)))
        for i, o in self.owners.items():
            st.types[i] = ("cls", MPIDATAID)
            ov[(i, "owner_rank")] = const(o)
        self.module_objects(it, st)

    def module_objects(self, it, st):
        import_state(it, st, MPI[:-1], self.live)

    def run(self, src, incoming=(), args=None, facts=(), types=None, overlay=None, init=None):
        self.incoming = list(incoming)
        ov = dict(self.overlay)
        ov.update(PROXY)
        ov.update(overlay or {})

        def ini(it, st, bound):
            self.init(it, st, bound)
            if init:
                init(it, st, bound)
        f = self.it.run_source if "\n" in src else self.it.run
        ps = f(src, args=args, facts=facts, types=types, overlay=ov, init=ini)
        self.ck.note_interp(self.it, ps)
        return ps

    def sent(self, p):
        """Messages sent on a path, in order."""
        out = []
        for e, ctx in walk(p.events):
            if e.kind != "call" or e.cond == "raises" or e.recv is None and not e.name.startswith("meth:"):
                continue
            n = e.name[5:] if e.name.startswith("meth:") else ""
            if n in ("send", "isend", "ssend", "issend", "bsend", "Send", "Isend", "Ssend", "Issend"):
                if ctx:
                    raise Undecided(f"a message is sent in a loop that is not followed ({e.where})")
                out.append(Msg(const(self.rank), e.arg(1, "dest"), e.arg(2, "tag"), e.arg(0, "obj" if n[0].islower() else "buf"), "object" if n[0].islower() else "buffer", e))
        return out

    def left(self, p):
        """Messages not received on a path."""
        t = cval(p.state.overlay.get((W, "taken"), const(())))
        return [m for i, m in enumerate(self.incoming) if i not in t]

    @staticmethod
    def why(p):
        b = p.state.overlay.get((W, "blocked"))
        return cval(b) if b is not None else None

    @staticmethod
    def idle(p):
        """The process waits for the next operation of any other."""
        b = p.state.overlay.get((W, "idle"))
        return b is not None and cval(b)

    @staticmethod
    def size_problem(p):
        b = p.state.overlay.get((W, "size"))
        return cval(b) if b is not None else None


def len_of(t):
    if t[0] == "item" and t[2][0] == "slice":
        a, b = t[2][1], t[2][2]
        va, vb = value(a), value(b)
        if va is not None and vb is not None:
            return const(vb - va)
    if t[0] == "buf":
        return t[2]
    return app("len", t)


def glue(parts, content, total):
    """The term whose consecutive slices are the parts, or None."""
    ps = []
    for sl, v in parts:
        a, b = value(sl[1]) if sl[1] != NONE else 0, value(sl[2])
        c = content(v)
        if a is None or b is None or c is None:
            return None
        ps.append((a, b, c))
    ps.sort(key=lambda x: x[:2])
    pos, base = 0, None
    for a, b, c in ps:
        if a != pos or c[0] != "item" or c[2][0] != "slice" or (value(c[2][1]) or 0) != a or value(c[2][2]) != b:
            return None
        if base not in (None, c[1]):
            return None
        base, pos = c[1], b
    if base is None or value(total) != pos:
        return None
    return base

# -------------------------------------------------------------------- state after the imports
CONTAINERS = ("dict", "list", "set", "WeakValueDictionary", "WeakKeyDictionary", "WeakSet", "defaultdict", "deque", "OrderedDict")


def import_state(it, st, prefix, live=(), modules=True):
    """Objects and values that exist once the modules have been imported."""
    p = it.p
    for m in list(p.modules.values()) if modules else ():
        if not m.name.startswith(prefix):
            continue
        for name, bs in m.names.items():
            vs = [b for b in bs if b[0] == "var"]
            if not vs or not initial(p, m, vs[0][1], live) or len(vs) > 1 and not all(isinstance(b[1], ast.Constant) for b in vs):
                continue
            v = value_of(it, st, m, vs[0][1])
            if v is not None:
                st.overlay[(("mod", m.name), name)] = v
    for ci in list(p.classes.values()):
        if not ci.key.startswith(prefix):
            continue
        for n in ci.node.body:
            t = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) and n.value is not None else None
            if isinstance(t, ast.Name) and isinstance(n.value, (ast.Dict, ast.List, ast.Set, ast.Call)):
                if isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split(".")[-1] not in CONTAINERS:
                    continue
                v = value_of(it, st, ci.module, n.value)
                if v is not None:
                    st.overlay[(("cls", ci.key), t.id)] = v


def initial(p, m, e, live):
    if isinstance(e, (ast.Constant, ast.Dict, ast.List, ast.Set)):
        return True
    if not isinstance(e, ast.Call):
        return False
    if ast.unparse(e.func).split(".")[-1] in CONTAINERS:
        return not e.args
    r = p.resolve_expr(m, e.func)
    if r is not None and r[0] == "class":
        return True
    if isinstance(e.func, ast.Attribute) and e.func.attr == "get_instance":
        rr = p.resolve_expr(m, e.func.value)
        return rr is not None and rr[0] == "class" and rr[1].key in live
    return False


def value_of(it, st, m, e):
    from .interp import Frame
    fi = next((f for f in it.p.funcs.values() if f.module is m), None) or next(iter(it.p.funcs.values()), None)
    if fi is None:
        return None
    it.nfid += 1
    fr = Frame(it.nfid, fi, m, None, fi.node, None)
    it.frames[it.nfid] = fr
    st.frames[it.nfid] = {}
    it.fstack.append(fr)
    it.sinks.append([])
    try:
        rs = it.eval(e, st)
    finally:
        it.fstack.pop()
        it.sinks.pop()
    if len(rs) != 1:
        return None
    y, v = rs[0]
    for s in State.__slots__:
        setattr(st, s, getattr(y, s))
    return v


def program(ck, src, args=None, live=(), stops=(), facts=(), types=None, overlay=None, prefix="unidist.", modules=True, setup=None, **k):
    """Paths of a small program over the code as it is right after the imports."""
    ov, keys = fresh_singletons(ck.prog)
    ov = {a: b for a, b in ov.items() if a[0][1] in live}
    ov.update(PROXY)
    ov.update(overlay or {})
    k.setdefault("raise_forks", False)
    it = interp(ck, tuple(stops) + ("*get_logger*", "*log_operation"), (), no_single=tuple(live), objects=True, unroll=k.pop("unroll", 12), **k)

    def ini(it, st, bound):
        import_state(it, st, prefix, live, modules)
        if setup:
            setup(it, st, bound)
    ps = it.run_source(src, args=args, facts=facts, types=types, overlay=ov, init=ini)
    ck.note_interp(it, ps)
    return ps


# -------------------------------------------------------------------- several processes
WORKER_SRC = """
from unidist.core.backends.mpi.core.worker.loop import worker_loop
async def main():
    await worker_loop()
"""
MONITOR_SRC = """
from unidist.core.backends.mpi.core.monitor.loop import monitor_loop
def main():
    monitor_loop()
"""


def user(name, fails=(), arity=1):
    """Meaning of calls of an unknown function: the term of the call, or a failure."""
    def f(it, st, ev):
        t = app("call", ("sym", name), *[a[1] for a in ev.args], *[app("kw", *k[1:]) for k in ev.kw])
        if any(a[1] in fails for a in ev.args):
            y = st.fork()
            y.push(ev)
            e = ("sym", "!exc_" + name)
            y.types[e] = ("cls", "builtins.Exception")
            it.sinks[-1].append((y, e))
            return []
        def mk(y):
            vs = []
            for i in range(arity):
                v = ("sym", "!" + show(t).replace("!", "") + (f"#{i}" if arity > 1 else ""))
                y.types[v] = ("b", "int")
                vs.append(v)
            return vs[0] if arity == 1 else ("tuple", tuple(("el", v) for v in vs))
        return [((), mk)]
    return f


def called(name, *args, kw=(), i=None):
    """The value of such a call."""
    t = app("call", ("sym", "!" + name), *args, *[app("kw", const(k), v) for k, v in kw])
    return ("sym", "!" + show(t).replace("!", "") + (f"#{i}" if i is not None else ""))


class Cluster:
    """All processes of a job, each analysed with the messages the others send to it, until
    nothing new is sent.  ``order``: ranks in the order in which their messages are delivered."""

    def __init__(self, ck, src, args=None, types=None, facts=(), hosts=None, shared=False, order=None, slow=(), seed=None, results=None, fns=("F",), fails=(), tasks="", vals=(), arity=None, **kw):
        """tasks: source of functions known to all processes; vals: names of opaque values."""
        self.ck, self.src, self.tasks = ck, src, tasks
        hosts = hosts or {"h0": [0, 1, 2, 3, 4]}
        self.ranks = [x for r in hosts.values() for x in r]
        self.order = order or self.ranks
        self.slow = set(slow)
        self.seed = seed
        self.args = {f: ident(f) for f in fns}
        self.args.update(args or {})
        self.args.update({v: ident(v) for v in vals})
        self.types = {ident(f): ("b", "function") for f in fns}
        self.types.update({ident(v): ("b", "int") for v in vals})
        self.types.update(types or {})
        self.facts = list(facts) + [(app("truth", app("iscoroutinefunction", ident(f))), False) for f in fns]
        rs = {f"sym:!{f}": user("!" + f, fails, (arity or {}).get(f, 1)) for f in fns}
        rs.update(results or {})
        self.worlds = {r: World(ck, r, hosts=hosts, shared=shared, results=rs, **kw) for r in self.ranks}
        self.monitors = self.worlds[0].monitors
        self.overlay = {}

    def source(self, r):
        return self.tasks + (self.src if r == 0 else MONITOR_SRC if r in self.monitors else WORKER_SRC)

    def step(self, r, inbox, types, facts):
        w = self.worlds[r]
        ps = w.run(self.source(r), incoming=inbox[r], args=self.args if r == 0 else None, types=types, facts=facts, overlay=dict(self.overlay))
        if len(ps) != 1:
            raise Undecided(f"process {r} has {len(ps)} behaviours: " + "; ".join(sorted({brief(e.data) for p in ps for e in p.events if e.kind == "assume"}))[:300])
        p = ps[0]
        self.paths[r] = p
        for k, v in p.state.types.items():
            if k[0] == "sym" and k[1].startswith("!"):
                types.setdefault(k, v)
        for k, v in p.state.overlay.items():
            if k[1] in ("owner_rank", "data_number") and k[0][0] == "sym":
                self.overlay[k] = v
        n = {}
        for m in w.sent(p):
            d = value(m.dest)
            if d is None:
                raise Undecided(f"destination {brief(m.dest)}")
            if d not in inbox:
                continue
            n[d] = n.get(d, 0) + 1
            if n[d] > self.seen[(r, d)]:
                self.seen[(r, d)] = n[d]
                yield d, m

    def interleave(self, seed, max_steps=400):
        """Messages arrive one operation at a time, in an order drawn from the seed that
        keeps the order of each channel."""
        import random
        rng = random.Random(seed)
        inbox = {r: [] for r in self.ranks}
        self.seen = {(a, b): 0 for a in self.ranks for b in self.ranks}
        self.paths = {}
        chan = {}
        types, facts = dict(self.types), list(self.facts)
        dirty = set(self.ranks)
        for _ in range(max_steps):
            if dirty:
                r = rng.choice(sorted(dirty))
                dirty.discard(r)
                for d, m in self.step(r, inbox, types, facts):
                    chan.setdefault((r, d), []).append(m)
            live = sorted(k for k, v in chan.items() if v)
            if not live and not dirty:
                self.inbox = inbox
                return self
            if not live or dirty and rng.random() < 0.5:
                continue
            k = rng.choice(live)
            q = chan[k]
            for i in range(rng.choice((1, 1, 2, len(q)))):
                if not q:
                    break
                inbox[k[1]].append(q.pop(0))
                while q and value(q[0].tag) != self.worlds[0].optag:
                    inbox[k[1]].append(q.pop(0))
            dirty.add(k[1])
        raise Undecided("the processes do not come to rest")

    def go(self, max_rounds=120):
        if self.seed is not None:
            return self.interleave(self.seed)
        inbox = {r: [] for r in self.ranks}
        self.seen = {(a, b): 0 for a in self.ranks for b in self.ranks}
        self.paths = {}
        dirty = set(self.ranks)
        late = []
        types, facts = dict(self.types), list(self.facts)
        for _ in range(max_rounds):
            todo = [r for r in self.order if r in dirty]
            if not todo and late:
                for m in late:
                    inbox[value(m.dest)].append(m)
                    dirty.add(value(m.dest))
                late = []
                todo = [r for r in self.order if r in dirty]
            if not todo:
                self.inbox = inbox
                return self
            r = todo[0]
            dirty.discard(r)
            for d, m in self.step(r, inbox, types, facts):
                if (r, d) in self.slow:
                    late.append(m)
                else:
                    inbox[d].append(m)
                    dirty.add(d)
        raise Undecided("the processes do not come to rest")

    def calls(self, r, name):
        return [e for e, _ in walk(self.paths[r].events) if e.kind == "call" and e.name == name]
