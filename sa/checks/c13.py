"""Histories of reservations and releases of symbolic sizes are interpreted over the domain of
convex polyhedra (sizes, offsets and the size of the memory are integer symbols); what is
handed out on each path is compared with the ranges that are live at that point of the history."""
import itertools
import re

from ..interp import NONE, TRUE, app, const, cval, is_const
from ..lib import *
from ..linear import Zone, le, lin, lt
from ..mpimodel import operations
from ..world import ident, lst

TECHNIQUE = "abstract interpretation of the source in a polyhedral domain (symbolic sizes and offsets) over all histories of reservations and releases up to a length"
MAN = "unidist.core.backends.mpi.core.monitor.shared_memory_manager:"
STORE = "unidist.core.backends.mpi.core.shared_object_store:SharedObjectStore"


UNIT = re.compile(r"MPI\.[A-Z_]+\.size")


def S(n):
    return ("sym", n)


def check(ck):
    ck.rule("ranges", "Every range handed out has the requested length, lies in [0, N) and is disjoint from all live ranges; a request is refused only if no gap between live ranges is large enough (so released neighbours are usable as a whole).")
    ck.rule("manager", "The same for the memory and the table entry (of the size of an entry) that the manager reserves for an object, across reservations and clean-ups; a refused reservation raises, and an object keeps its ranges until it is cleaned up.")
    ck.rule("request", "The monitor reserves, for the identifier asked about, the size asked for, once, and replies with that reservation; later requests for it get the same ranges.")
    ck.rule("size", "The memory handed out by the manager is the memory that was allocated: the size of the windows covers the ranges of the manager.")
    ck.rule("fits", "An object is written inside the range reserved for it: the size requested is the sum of the lengths of its parts.")
    if MAN + "FreeMemoryRange" in ck.prog.classes:
        for k in (0, 1, 2, 3, 4) if ck.tier == "quick" else (0, 1, 2, 3, 4, 5):
            for h in histories(k):
                site = f"range/{k}-{''.join(map(str, h)) or 'none'}"
                ck.guard("ranges", site, lambda: ranges(ck, site, k, h))
    for k in (1, 2, 3):
        for h in histories(k):
            if k == 3 and len(h) > 2 and ck.tier == "quick":
                continue
            site = f"manager/{k}-{''.join(map(str, h)) or 'none'}"
            ck.guard("manager", site, lambda: manager(ck, site, k, h))
    ck.guard("request", "monitor", lambda: request(ck))
    ck.guard("size", "allocation", lambda: size(ck))
    ck.guard("fits", "SharedObjectStore.put", lambda: fits(ck, True))
    ck.guard("fits", "SharedObjectStore.get", lambda: fits(ck, False))


def histories(k):
    for n in range(k + 1):
        yield from itertools.permutations(range(k), n)


def els(t):
    if t is not None and t[0] in ("list", "tuple") and all(s[0] == "el" for s in t[1]):
        return [s[1] for s in t[1]]
    return None


def where(p):
    return next((e.where for e in reversed(p.events) if e.where), "")


class Problem(Exception):
    pass


def place(z, facts, live, got, want, total, what):
    """Whether the range may be handed out while the others are live."""
    f, l = got
    if NONE in (f, l):
        raise Problem(f"{what}: a request that cannot be served is answered with {brief(f)}..{brief(l)}")
    if lin(f) is None or lin(l) is None:
        raise Undecided(f"range {brief(f)}..{brief(l)}")
    for t in (f, l):
        if not precise(t):
            raise Undecided(brief(t))
    if not z.holds(facts, "eq", l, add(f, want)):
        raise Problem(f"{what}: {brief(f)}..{brief(l)} is handed out for a length of {brief(want)}")
    if not z.holds(facts, "le", const(0), f) or not z.holds(facts, "le", l, total):
        raise Problem(f"{what}: {brief(f)}..{brief(l)} is not inside 0..{brief(total)}")
    for a, b in live:
        if not apart(z, facts, (f, l), (a, b)):
            raise Problem(f"{what}: {brief(f)}..{brief(l)} is handed out although {brief(a)}..{brief(b)} may overlap it and is in use")


def apart(z, facts, x, y):
    if z.holds(facts, "le", x[1], y[0]) or z.holds(facts, "le", y[1], x[0]):
        return True
    # a case split on which comes first
    at = app("lt", x[0], y[0])
    return all(z.holds(list(facts) + [(at, v)], "le", *((x[1], y[0]) if v else (y[1], x[0]))) for v in (True, False))


def refused(z, facts, live, want, total, what):
    """Whether every gap is certainly too small."""
    live = list(live)
    order = []
    while live:
        m = next((a for a in live if all(b is a or z.holds(facts, "le", a[1], b[0]) for b in live)), None)
        if m is None:
            raise Undecided("order of the live ranges")
        order.append(m)
        live.remove(m)
    lo = const(0)
    for a, b in order + [(total, total)]:
        if not z.holds(facts, "lt", a, add(lo, want)):
            raise Problem(f"{what}: a request of length {brief(want)} is refused although {brief(lo)}..{brief(a)} is free")
        lo = b


def add(a, b):
    return app("add", a, b)


def ranges(ck, site, k, h):
    names = ["N"] + [f"c{i}" for i in range(k)] + ["x"]
    z = Zone([lt(const(0), S(n)) for n in names])
    body = ["m = FreeMemoryRange(N)", "out = []"]
    for i in range(k):
        body += [f"r{i} = m.occupy(c{i})", f"out.append(r{i})", f"if r{i}[0] is None:", "    return out"]
    for i in h:
        body.append(f"m.release(r{i}[0], r{i}[1])")
    body += ["out.append(m.occupy(x))", "return out"]
    src = f"\nfrom {MAN[:-1]} import FreeMemoryRange\ndef main({', '.join(names)}):\n" + "".join("    " + b + "\n" for b in body)
    it, ps = drive(ck, src, stops=(), pure=(), args={n: S(n) for n in names}, types={S(n): ("b", "int") for n in names}, unroll=10, oracle=z.oracle, raise_forks=False, max_paths=20000)
    if not ps:
        raise Undecided("no path")
    for p in ps:
        if p.outcome == "cut":
            ck.unk("ranges", site, "not followed to its end")
            continue
        if p.outcome != "ret":
            (ck.bad if p.value and p.value[0] == "res" else ck.unk)("ranges", site, f"{p.outcome} {brief(p.value)}", where(p))
            continue
        try:
            story(z, p, names, k, h)
            ck.ok("ranges", site, where(p))
        except Problem as e:
            ck.bad("ranges", site, str(e) + f" (sizes {', '.join(f'{brief(a)} is {b}' for a, b in p.facts() if a[1] in ('lt', 'eq'))[:300]})", where(p))
        except Undecided as e:
            ck.unk("ranges", site, str(e))


def story(z, p, names, k, h):
    out = els(p.value)
    if out is None:
        raise Undecided(brief(p.value))
    facts = p.facts()
    live = {}
    for i, r in enumerate(out):
        r = els(r)
        if r is None or len(r) != 2:
            raise Undecided(brief(p.value))
        want = S(f"c{i}") if i < k else S("x")
        if i == k:
            for j in h:
                live.pop(j)
        if r == [NONE, NONE]:
            refused(z, facts, live.values(), want, S("N"), f"request {i + 1}")
        else:
            place(z, facts, live.values(), r, want, S("N"), f"request {i + 1}")
            live[i] = tuple(r)


# ------------------------------------------------------------------ manager
def manager(ck, site, k, h):
    ids = [ident(f"I{i}") for i in range(k + 1)]
    names = ["N", "M"] + [f"c{i}" for i in range(k + 1)]
    info = entry_size(ck)
    z = Zone([lt(const(0), S(n)) for n in names])
    single = ("single", STORE)
    body = ["m = SharedMemoryManager()", "out = []"]

    def put(i):
        return [f"r = m.put(I{i}, c{i})", "out.append((r['first_index'], r['last_index'], r['service_index']))", f"q = m.get(I{i})", "out.append((q['first_index'], q['last_index'], q['service_index']))"]
    for i in range(k):
        body += put(i)
    for i in h:
        body.append(f"m.clear([I{i}])")
    body += ["try:"] + ["    " + x for x in put(k)] + ["except MemoryError:", "    out.append(None)", "return out"]
    src = f"\nfrom {MAN[:-1]} import SharedMemoryManager\ndef main({', '.join(names + [f'I{i}' for i in range(k + 1)])}):\n" + "".join("    " + b + "\n" for b in body)
    args = {n: S(n) for n in names}
    args.update({f"I{i}": v for i, v in enumerate(ids)})
    types = {S(n): ("b", "int") for n in names}
    types.update({i: ("cls", "unidist.core.backends.mpi.core.common:MpiDataID") for i in ids})
    it, ps = drive(
        ck, src, stops=("*SharedObjectStore.*", "*MPIState*", "*is_shared_memory_supported", IMMUTABLE), pure=(), args=args, types=types, unroll=10, oracle=z.oracle, raise_forks=False, max_paths=20000,
        overlay={(single, "shared_memory_size"): S("N"), (single, "service_info_max_count"): S("M")},
        results={IMMUTABLE: immutable_dict, MAN.replace("monitor.shared_memory_manager", "common") + "is_shared_memory_supported": TRUE, "meth:Create_group": NONE,
                 STORE + ".get_ref_number": const(0), "ext:array.array": lambda it, st, ev: [((), ev.args[1][1])]})
    if not ps:
        raise Undecided("no path")
    n = 0
    for p in ps:
        if p.outcome == "raise" and "MemoryError" in show(p.value):
            n += 1
            continue  # one of the first reservations is refused: judged with a shorter history
        if p.outcome == "ret":
            n = -len(ps) - 1
        if p.outcome != "ret":
            ck.unk("manager", site, f"{p.outcome} {brief(p.value) if p.value else ''}")
            continue
        try:
            tale(z, p, k, h, info)
            ck.ok("manager", site, where(p))
        except Problem as e:
            ck.bad("manager", site, str(e), where(p))
        except Undecided as e:
            ck.unk("manager", site, str(e))


    if n >= 0:
        raise Undecided("no reservation succeeds")


def tale(z, p, k, h, info):
    out = els(p.value)
    if out is None:
        raise Undecided(brief(p.value))
    facts = p.facts()
    live = {}
    pos = 0
    for i in range(k + 1):
        if i == k:
            for j in h:
                live.pop(j)
        r = out[pos]
        if r == NONE:
            try:
                refused(z, facts, [a for a, _ in live.values()], S(f"c{i}"), S("N"), f"object {i + 1}")
            except Problem as e:
                try:
                    refused(z, facts, [b for _, b in live.values()], info, S("M"), f"table entry of object {i + 1}")
                except Problem:
                    raise e
            return
        r, q = els(r), els(out[pos + 1])
        pos += 2
        if r is None or len(r) != 3:
            raise Undecided(brief(p.value))
        if q != r:
            raise Problem(f"object {i + 1} was given {brief(('tuple', tuple(('el', x) for x in r)))} but its reservation is {brief(out[pos - 1])}")
        place(z, facts, [a for a, _ in live.values()], r[:2], S(f"c{i}"), S("N"), f"object {i + 1}")
        if r[2] == NONE:
            raise Problem(f"object {i + 1} gets no table entry although the reservation does not fail")
        e = (r[2], add(r[2], info))
        place(z, facts, [b for _, b in live.values()], e, info, S("M"), f"table entry of object {i + 1}")
        live[i] = (tuple(r[:2]), e)


def entry_size(ck):
    """Number of table cells of an object: one more than the largest field offset in use."""
    import ast
    ci = ck.prog.classes.get(STORE)
    if ci is None:
        raise Undecided(f"{STORE} not found")
    vals = {}
    for n in ci.node.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    vals[t.id] = n.value.value
    offs = [v for k, v in vals.items() if k in ("WORKER_ID_INDEX", "DATA_NUMBER_INDEX", "FIRST_DATA_INDEX", "REFERENCES_NUMBER")]
    if len(offs) != 4:
        raise Undecided("fields of a table entry")
    return const(max(offs) + 1)


# ------------------------------------------------------------------ monitor
def request(ck):
    from ..mpimodel import LOOP_STOPS, MONITOR, scripted
    i, n = ident("I"), const(14)
    info = ("sym", "!INFO")
    msg = ("RESERVE_SHARED_MEMORY", ("sym", "!S"), ("dict", (("kv", const("id"), i), ("kv", const("size"), n))))
    for known in (False, True):
        rs = {MAN + "SharedMemoryManager.get": NONE if not known else ("dict", (("kv", const("first_index"), S("f")), ("kv", const("last_index"), S("l")), ("kv", const("service_index"), S("s")))),
              MAN + "SharedMemoryManager.put": ("dict", (("kv", const("first_index"), S("f")), ("kv", const("last_index"), S("l")), ("kv", const("service_index"), S("s"))))}
        it, ps = scripted(ck, MONITOR, [msg], results=rs)
        site = "monitor/known" if known else "monitor/new"
        for p in ps:
            puts = [e for e, _ in walk(p.events) if e.kind == "call" and e.name == MAN + "SharedMemoryManager.put"]
            gets = [e for e, _ in walk(p.events) if e.kind == "call" and e.name == MAN + "SharedMemoryManager.get"]
            reply = [e for e, _ in walk(p.events) if e.kind == "call" and e.name.split(":")[-1] in ("mpi_send_object", "mpi_isend_object")]
            if len(reply) != 1:
                ck.unk("request", site, f"{len(reply)} replies")
                continue
            d = next((s[1] for s in list(reply[0].args) if s[0] == "el" and s[1][0] == "dict"), None) or reply[0].arg(None, "data")
            f = {cval(x[1]): x[2] for x in d[1] if x[0] == "kv" and is_const(x[1])} if d is not None and d[0] == "dict" else None
            if f is None or not all(k in f for k in ("first_index", "last_index", "service_index", "is_first_request")):
                ck.unk("request", site, f"reply {brief(d) if d else ''}")
                continue
            if (f["first_index"], f["last_index"], f["service_index"]) != (S("f"), S("l"), S("s")):
                ck.bad("request", site, f"replies {brief(d)} instead of the reservation", reply[0].where)
                continue
            if known:
                if puts:
                    ck.bad("request", site, "reserves again for an object that has a reservation", puts[0].where)
                elif is_const(f["is_first_request"]) and cval(f["is_first_request"]):
                    ck.bad("request", site, "a second request is answered as if it were the first", reply[0].where)
                elif not is_const(f["is_first_request"]):
                    ck.unk("request", site, f"answered with {brief(f['is_first_request'])}")
                else:
                    ck.ok("request", site, reply[0].where)
            else:
                if len(puts) != 1:
                    ck.bad("request", site, f"{len(puts)} reservations are made", reply[0].where)
                elif puts[0].arg(0, "data_id") != i or puts[0].arg(1, "memory_len") != n:
                    a = (puts[0].arg(0, "data_id"), puts[0].arg(1, "memory_len"))
                    if all(x is not None and precise(x) for x in a):
                        ck.bad("request", site, f"reserves {brief(a[1])} for {brief(a[0])}", puts[0].where)
                    else:
                        ck.unk("request", site, ev_str(puts[0]))
                elif is_const(f["is_first_request"]) and not cval(f["is_first_request"]):
                    ck.bad("request", site, "the first request is not answered as such", reply[0].where)
                else:
                    ck.ok("request", site, reply[0].where)
        if not ps:
            raise Undecided("no path")


# ------------------------------------------------------------------ sizes
def size(ck):
    fk = STORE + "._allocate_shared_memory"
    if fk not in ck.prog.funcs:
        raise Undecided("no _allocate_shared_memory")
    it, ps = run(ck, fk, stops=("*_get_allowed_memory_size", "*MPIState.get_instance", "*Config*.get", "*envvars*.get"), self_val=("sym", "self"), raise_forks=False)
    n = 0
    for p in ps:
        if p.outcome not in ("ret", "next"):
            continue
        mon = [v for f, v in p.facts() if f[0] == "app" and "is_monitor_process" in show(f)]
        st = p.state
        al = [e for e, _ in walk(p.events) if e.kind == "call" and "Allocate_shared" in e.name]
        if len(al) != 2:
            ck.unk("size", "allocation", f"{len(al)} windows")
            continue
        sm = st.overlay.get((("sym", "self"), "shared_memory_size"))
        sc = st.overlay.get((("sym", "self"), "service_info_max_count"))
        if sm is None or sc is None:
            ck.unk("size", "allocation", "sizes not found")
            continue
        for e, t, unit in ((al[0], sm, "BYTE"), (al[1], sc, "LONG")):
            a = e.args[0][1]
            if is_const(a) and cval(a) == 0:
                continue  # not the process that owns the memory
            n += 1
            u = ("attr", ("attr", ("ext", "mpi4py.MPI"), unit), "size")
            fac = factors(a)
            want = sorted(factors(t) + [f"MPI.{unit}.size"])
            if sorted(fac) == want:
                ck.ok("size", "allocation", e.where)
            elif precise(a) and precise(t) and (sorted(x for x in fac if not UNIT.fullmatch(x)) == sorted(x for x in want if not UNIT.fullmatch(x)) or f"MPI.{unit}.size" in fac and any(x in want[:-1] for x in fac)):
                ck.bad("size", "allocation", f"a window of {brief(a)} is allocated for {brief(t)} elements of {unit}", e.where)
            else:
                ck.unk("size", "allocation", f"{brief(a)} for {brief(t)}")
        # table entries fit the memory meant for them: floor(size / (k*L)) * k
    if not n:
        raise Undecided("no allocation understood")


def factors(t):
    if t[0] == "app" and t[1] in ("mult", "mul"):
        return [y for x in t[2] for y in factors(x)]
    s = show(t).replace("mpi4py.", "")
    return [s]


def fits(ck, put):
    """The size asked for is the sum of the lengths of the parts of the object."""
    fk = STORE + (".put" if put else ".get")
    lens = [S("n0"), S("n1"), S("n2")]
    parts = [("sym", f"!P{i}") for i in range(3)]
    i = ident("I")
    kw = {}
    if put:
        args = {"data_id": i, "serialized_data": ("dict", (("kv", const("s_data"), parts[0]), ("kv", const("raw_buffers"), lst(*parts[1:])), ("kv", const("buffer_count"), lst(const(2)))))}
        want = [app("len", x) for x in parts]
    else:
        args = {"data_id": i, "owner_rank": ("sym", "!O"), "shared_info": ("dict", (("kv", const("s_data_len"), lens[0]), ("kv", const("raw_buffers_len"), lst(*lens[1:])), ("kv", const("service_index"), S("s")), ("kv", const("buffer_count"), lst(const(2)))))}
        want = lens
    it, ps = run(ck, fk, stops=("*core.communication:*", "*_write_to_shared_buffer", "*_put_service_info", "*_put_shared_info", "*_check_service_info", "*_increment_ref_number", "*_read_from_shared_buffer", "*_sync_shared*", IMMUTABLE, "*MetadataPackage.*"),
                 self_val=("sym", "self"), args=args, types={x: ("b", "bytes") for x in parts}, unroll=4, raise_forks=False, results={IMMUTABLE: immutable_dict})
    n = 0
    for p in ps:
        for e, _ in calls(p.events, "*:send_reserve_operation"):
            n += 1
            a, s = e.arg(1, "data_id"), e.arg(2, "data_size")
            f = lin(s) if s is not None else None
            if a != i and precise(a):
                ck.bad("fits", fk.split(".")[-1], f"memory is reserved for {brief(a)}", e.where)
            elif f is None or not precise(s):
                ck.unk("fits", fk.split(".")[-1], brief(s) if s else "")
            elif f == ({w: 1 for w in want}, 0):
                ck.ok("fits", fk.split(".")[-1], e.where)
            elif all(k in want for k in f[0]):
                ck.bad("fits", fk.split(".")[-1], f"{brief(s)} bytes are reserved for parts of {', '.join(map(brief, want))} bytes", e.where)
            else:
                ck.unk("fits", fk.split(".")[-1], brief(s))
    if not n:
        raise Undecided("no reservation seen")
