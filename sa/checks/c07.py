"""Programs that store an object, change the original, and send and read the stored form again and
again are interpreted over the code of the stores, of the sending and of the serialization, with the
buffers of the object as mutable cells; what every process receives is compared with what was stored."""
import ast
import itertools

from ..front import *
from ..interp import FALSE, NONE, TRUE, const, cval, show
from ..shm import D
from ..world import MPI, ident, program
from . import c12, c19

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source with a heap of aliased cells (points-to precise), over models of MPI and of the pickling libraries"
NOTE = "Histories of up to five steps (store, change, send, blocking send, read) for objects with up to three buffers; the libraries are trusted to be as modelled; memoryview.toreadonly and tobytes have their documented meaning."
C = MPI + "communication"
HEAD = c19.SRC.replace("plan.append(b)", "plan.append(b.tobytes())").replace("\ndef main(SEE):\n", "").replace("import unidist.core.backends.mpi.core.serialization as S\n", '''
import unidist.core.backends.mpi.core.serialization as S
import unidist.core.backends.mpi.core.common as C
import unidist.core.backends.mpi.core.controller.common as P
import unidist.core.backends.mpi.core.controller.api as A
import unidist.core.backends.mpi.core.worker.task_store as T
from unidist.core.backends.mpi.core.local_object_store import LocalObjectStore
from unidist.core.backends.mpi.core.object_store import ObjectStore
''').replace("        self.plan = plan\n", "        self.plan = plan\n\n    def __len__(self):\n        return 3\n") + '''

class Buf:
    def __init__(self, content, size=None):
        self.content = content
        self.readonly = False
        self.nbytes = len(content) if size is None else size

    def __len__(self):
        return self.nbytes

    def raw(self):
        return self

    def cast(self, fmt):
        return self

    def toreadonly(self):
        return self

    def tobytes(self):
        return self.content


class Big:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, b):
        return b


class Request:
    def Test(self):
        return False

    def Wait(self):
        return None


class Net:
    sent = []


def copied(x):
    """What pickling makes of an object of the protocol."""
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copied(v) for v in x]
    return x


class Comm:
    def send(self, obj, dest, tag=0):
        Net.sent.append((dest, "object", copied(obj)))

    def isend(self, obj, dest, tag=0):
        Net.sent.append((dest, "object", copied(obj)))
        return Request()

    def Send(self, buf, dest, tag=0):
        Net.sent.append((dest, "buffer", buf.content if isinstance(buf, Buf) else buf))

    def Isend(self, buf, dest, tag=0):
        Net.sent.append((dest, "buffer", buf))
        return Request()


def as_buffer(x):
    return x


def arrived(rank):
    """The packages that reach the process, when the non-blocking sends are complete."""
    out = []
    info = None
    parts = []
    for d, k, x in Net.sent:
        if d == rank:
            if k == "object":
                if isinstance(x, dict) and "s_data_len" in x:
                    info = x
                    parts = []
            elif info is not None:
                parts.append(x.content if isinstance(x, Buf) else x)
                if len(parts) == 1 + len(info["raw_buffers_len"]):
                    out.append((info["id"], S.deserialize_complex_data(parts[0], parts[1:], info["buffer_count"])))
                    info = None
    return out


def main(SEE):
    C.MpiDataID._instances = {}
    local = LocalObjectStore.get_instance()
'''
DATA = {
    "one": ("Frame('a', [Buf('aaaaaa')])", ["data.bufs[0]"]),
    "two": ("Frame('a', [Buf('aaaaaa'), Buf('bbbbbb')])", ["data.bufs[0]", "data.bufs[1]"]),
    "huge": ("Frame('a', [Buf('aaaaaa', 70000), Buf('bbbbbb', 5000000), Buf('cccccc', 10 ** 11)])", ["data.bufs[0]", "data.bufs[1]", "data.bufs[2]"]),
    "mixed": ("Frame('a', [Buf('a'), Buf('bbbbbb')])", ["data.bufs[0]", "data.bufs[1]"]),
    "pair": ("[Frame('a', [Buf('aaaaaa')]), Frame('b', [Buf('bbbbbb'), Buf('cccccc')])]", ["data[0].bufs[0]", "data[1].bufs[0]", "data[1].bufs[1]"]),
    "dict": ("{'k': [Frame('a', [Buf('aaaaaa')])], 'l': Array('b', [Buf('bbbbbb')])}", ["data['k'][0].bufs[0]", "data['l'].bufs[0]"]),
    "plain": "['x', 1]",
    "list": ("[['x'], Frame('a', [Buf('aaaaaa')])]", ["data[1].bufs[0]"], "data[0].append('y')"),
    "map": ("{'k': ['x']}", [], "data['k'].append('y')"),
}
DATA["plain"] = ("['x', 1]", [], "data.append('y')")


def check(ck):
    ck.rule("decode", "An encoded object is decoded to the same value every time, and decoding it leaves it as it was.")
    ck.rule("copy", "What is sent, by any sequence of sends and reads, blocking or not, is what the object was when it was stored (or first sent), whatever happens to the original afterwards and before the sends are complete.")
    ck.rule("read", "What the storing process reads is the object as it was stored; a read does not change what is sent later.")
    ck.rule("readonly", "The buffers given to the decoder for an object in shared memory are read-only.")
    jobs = []
    names = "abcdef"
    kinds = ("F.L", "F.LL", "F.sL", "f", "t")
    for n in (1, 2):
        for ks in itertools.product(kinds, repeat=n):
            site = ",".join(ks)
            data = "[" + ", ".join(c19.leaf(k, names[i]) for i, k in enumerate(ks)) + "]"
            jobs.append(("decode", site, lambda c, site=site, data=data: c19.same(c, site, data, rule="decode")))
    steps = ["push_data(5, id)", "push_data(6, id)", "push_data(6, id, True)", "read"]
    seqs = [s for n in (1, 2, 3) for s in itertools.product(range(len(steps)), repeat=n)]
    for how in ("put", "held", "result"):
        for d in DATA:
            for s in seqs:
                if len(s) == 3 and (d not in ("two", "list") or ck.tier == "quick" and len(set(s)) == 1):
                    continue
                site = f"{how}/{d}/" + "".join("56br"[i] for i in s)
                jobs.append(("copy", site, lambda c, site=site, how=how, d=d, s=s: history(c, site, how, d, [steps[i] for i in s])))
    for site, body in shared():
        jobs.append(("readonly", site, lambda c, site=site, body=body: readonly(c, site, body)))
    ck.pguard(jobs)


def result_method(ck):
    out = []
    for k, c in ck.prog.classes.items():
        if k.startswith(MPI + "worker.task_store:"):
            if "_put_output_values" in c.methods:
                return [(k.rsplit(":", 1)[1], "_put_output_values")]
            for n, f in c.methods.items():
                if any(isinstance(x, ast.Attribute) and x.attr == "cache_serialized_data" for x in ast.walk(f.node)):
                    out.append((k.rsplit(":", 1)[1], n))
    return out


def history(ck, site, how, d, steps):
    data, bufs, *more = DATA[d]
    L = [f"data = {data}", 'SEE("given", see(data))']
    mutate = [f"{b}.content = 'ZZZZZZ'" for b in bufs] + more
    if how == "put":
        L += ["id = A.put(data)"] + mutate
    elif how == "held":
        L += ["id = C.MpiDataID(0, 7)", "local.put(id, data)", "P." + "push_data(7, id)"] + mutate
    else:
        ms = result_method(ck)
        if len(ms) != 1:
            return ck.unk("copy", site, "the method that stores the result of a task is not found")
        L += ["id = C.MpiDataID(0, 7)", "t = object.__new__(T.%s)" % ms[0][0], f"t.{ms[0][1]}(id, data)"] + mutate
    for s in steps:
        L.append("P." + s if s != "read" else 'SEE("read", see(ObjectStore.get_instance().get(id)))')
    L += ['SEE("5", [see(v) for i, v in arrived(5)])', 'SEE("6", [see(v) for i, v in arrived(6)])', 'SEE("7", [see(v) for i, v in arrived(7)])']
    src = HEAD.replace("\ndef main(SEE):", '''
def see(x):
    if isinstance(x, Buf):
        return x.content
    if isinstance(x, list):
        return [see(v) for v in x]
    if isinstance(x, dict):
        return {k: see(v) for k, v in x.items()}
    if isinstance(x, (Frame, Array)):
        return (x.name, [see(b) for b in x.bufs])
    return x


def main(SEE):''') + "".join("    " + x + "\n" for x in L)
    sent5 = any("(5" in s for s in steps)
    n6 = sum(s.endswith("True)") for s in steps)
    sent6 = any("(6" in s for s in steps)
    text = f"{data} is {dict(put='put', held='kept and sent to process 7', result='the result of a task')[how]}, then the original is changed, then " + ", ".join(s if s != "read" else "it is read" for s in steps)
    for p in run(ck, src):
        und = [e for e, _ in walk(p.events) if e.kind == "assume"]
        if und:
            ck.unk("copy", site, "a condition is not decided: " + "; ".join(show(e.data)[:90] for e in und)[:300])
            continue
        evs = [e for e, _ in walk(p.events) if e.kind == "call" and e.name == "sym:!SEE"]
        if p.outcome == "raise":
            e = f"fails with {brief(p.value, 100)}"
            ck.bad("copy", site, f"{text}: {e}", where(ck)) if c19.known_error(p.value) else ck.unk("copy", site, e)
            continue
        if p.outcome != "ret":
            ck.unk("copy", site, f"not followed: {p.outcome}")
            continue
        g = next(e.data for e in evs if cval(e.args[0][1]) == "given")
        for e in evs:
            n = cval(e.args[0][1])
            if n == "read":
                if how != "put":
                    continue            # the process that computed a value keeps the value itself
                verdict(ck, "read", site, e.data == g, e.data, f"{text}: it is read as")
            elif n in ("5", "6", "7"):
                got = [s[1] for s in e.data[1]] if e.data[0] == "list" and all(s[0] == "el" for s in e.data[1]) else None
                want = sent5 if n == "5" else sent6 if n == "6" else how == "held"
                if got is None:
                    ck.unk("copy", site, f"sent: {brief(e.data)}")
                elif want and not got:
                    ck.bad("copy", site, f"{text}: nothing arrives at process {n}", where(ck))
                else:
                    for v in got:
                        verdict(ck, "copy", site, v == g, v, f"{text}: process {n} receives")


def verdict(ck, rule, site, ok, v, text):
    if ok:
        ck.ok(rule, site)
    elif c19.plainly(v):
        ck.bad(rule, site, f"{text} {brief(v, 200)}", where(ck))
    else:
        ck.unk(rule, site, f"{text} {brief(v, 200)}")


def where(ck):
    for k, f in ck.prog.funcs.items():
        if k.startswith(MPI + "local_object_store:") and k.endswith(".cache_serialized_data"):
            return f"{f.module.rel}:{f.node.lineno}"
    return ""


LIVE = (MPI + "local_object_store:LocalObjectStore", MPI + "async_operations:AsyncOperations", MPI + "object_store:ObjectStore")


def run(ck, src):
    ov = {}
    for m, names in (("msgpack", {"packb": "packb", "unpackb": "unpackb", "dumps": "packb", "loads": "unpackb"}), ("pickle", {"dumps": "dumps", "loads": "loads"}), ("pickle5", {"dumps": "dumps", "loads": "loads"}),
                     ("cloudpickle", {"dumps": "cdumps", "loads": "loads"})):
        for n, f in names.items():
            ov[(("ext", m), n)] = ("fn", f"{D}:{f}")
    ov[(("ext", "mpi4py.MPI"), "memory")] = ("fn", D + ":as_buffer")
    for n, m in ck.prog.modules.items():
        if n.startswith(MPI):
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ImportFrom) and x.module == "mpi4py.MPI":
                    for a in x.names:
                        if a.name == "memory":
                            ov[(("mod", n), a.asname or a.name)] = ("fn", D + ":as_buffer")
    for m in ("pandas", "numpy"):
        ov[(("ext", m), "__name__")] = const(m)

    def setup(it, st, b):
        st.overlay[(("cls", c19.SER + ":ComplexDataSerializer"), "PICKLE_THRESHOLD")] = const(4)
        st.overlay[(("mod", c19.SER), "available_modules")] = st.alloc(("list", (("el", ("ext", "pandas")), ("el", ("ext", "numpy")))))
        comm = st.alloc(("inst", D + ":Comm", {}))
        for s in (ident("state"), ("single", C + ":MPIState")):
            st.overlay[(s, "global_comm")] = comm
            st.overlay[(s, "global_rank")] = const(0)
        big = st.alloc(("inst", D + ":Big", {"blocksize": const(1000)}))
        for n in ("mpi4py.util.pkl5",):
            st.overlay[(("ext", n), "_bigmpi")] = big
    sh = MPI + "shared_object_store:SharedObjectStore"
    cf = "cfg:unidist.config.backends.mpi.envvars:"
    return program(ck, src, args={"SEE": ident("SEE")}, overlay=ov, setup=setup, recursion=9, live=LIVE, stops=("*MPIState.*", "*shared_object_store:SharedObjectStore.*", "*GarbageCollector.*"),
                   results={"sym:!SEE": c19.see, "ext:stubs.only_cloudpickle": c19.only_cloudpickle, "ext:gc.disable": NONE, "ext:gc.enable": NONE, "ext:copy.copy": c19.first,
                            cf + "MpiPickleThreshold": const(4), C + ":MPIState.get_instance": ident("state"), sh + ".is_allocated": FALSE, sh + ".contains": FALSE,
                            "ext:weakref.proxy": c19.first})


def shared():
    put = "    a.put(x, " + c12.DATA + ")\n"
    get = {"own": "    a.get(x)\n", "other": "    b.get(y, 3, " + c12.INFO.format("y", c12.SERVICE) + ")\n"}
    for ws in (("own",), ("other",), ("own", "other"), ("other", "own"), ("other", "other"), ("own", "own")):
        yield "+".join(ws), c12.START + put + "".join(get[w] for w in ws)


def readonly(ck, site, body):
    for p, evs in c12.paths(ck, "readonly", site, body, reserve=c12.reservation(c12.FIRST, c12.TOTAL, c12.SERVICE, True)):
        got = [e for e in evs if e.kind == "call" and e.name.endswith("serialization:deserialize_complex_data")]
        if p.outcome != "ret" or not got:
            ck.unk("readonly", site, f"no object is decoded ({p.outcome})")
            continue
        for e in got:
            v = e.bound.get("raw_buffers") if e.bound else None
            rs = c12.parts(e.data[1] if len(e.data or ()) > 1 else v)
            if not rs:
                ck.unk("readonly", site, f"buffers not understood: {brief(v)}")
            elif all(r[2] for r in rs):
                ck.ok("readonly", site)
            else:
                ck.bad("readonly", site, f"put, then read ({site}): the decoder is given writable memory of the shared object: a process that modifies what it reads modifies it for all the others", c12.user_site(e))
