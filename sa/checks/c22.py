"""Copying into shared memory: the C++ helper is interpreted abstractly, from clang's syntax tree, into the
ranges it copies, in closed form over address, length, block size and number of threads; that they
follow each other from the first to the last byte is a set of polynomial identities. The writing and
reading of objects is interpreted over the model of the shared windows."""
import ast
import itertools
import os
import re

from .. import cpp
from ..cpp import Unknown, V, ev, padd, pconst, psub, pvar
from ..front import *
from ..interp import FALSE, NONE, TRUE, const, cval, is_const, show
from ..shm import reservation, run
from ..world import ident, MPI
from . import c12

TECHNIQUE = "abstract interpretation of the clang syntax tree over a domain of polynomials (copied ranges in closed form, checked as identities and inequalities); path-sensitive abstract interpretation of the Python side over a model of the shared windows"
NOTE = "All lengths, addresses and numbers of threads for the C++ helper (integers without overflow of the address space); objects with up to four buffers on the Python side."
CPP = "unidist/core/backends/mpi/core/memory/memory.cpp"
PYX = "unidist/core/backends/mpi/core/memory/_memory.pyx"
FIRST = 100


def check(ck):
    ck.rule("cover", "The ranges copied start at the first byte, follow each other without gap or overlap and end at the last byte, at the same offset of source and destination, on every path.")
    ck.rule("finished", "Every thread that copies is joined before the function returns.")
    ck.rule("wrapper", "The wrapper passes destination, source and the length of the source.")
    ck.rule("fill", "Filling the table writes every cell and nothing else.")
    ck.rule("write", "Every part of an object is written whole to the range that follows that of the part before, inside the reservation; source and destination of a copy have the same length.")
    ck.rule("read", "The parts are read back from exactly the ranges they were written to, in the same order, with the same numbers of buffers.")
    ck.rule("transfer", "Between hosts the whole reserved range is sent and received.")
    jobs = [("cover", "parallel_memcopy", native), ("fill", "fill", filling)]
    for lens in [()] + [x for n in (1, 2, 3, 4) for x in itertools.islice(itertools.product((3, 6, 0, 1), repeat=n), 0, 24)] + [(3, 1) * 5]:
        for s in (5, 1):
            site = f"{s}+" + "+".join(map(str, lens)) if lens else str(s)
            jobs.append(("write", site, lambda c, s=s, lens=lens, site=site: objects(c, s, lens, site)))
    jobs.append(("transfer", "monitor", transfer))
    ck.pguard(jobs)


# ------------------------------------------------------------------ C++
def wrapper(ck, name):
    """Arguments of the C++ function, as the wrapper passes them: (terms, block size)."""
    path = os.path.join(ck.root if hasattr(ck, "root") else ck.prog.root, PYX)
    src = open(path, encoding="utf-8").read()
    m = re.search(r"^def " + name + r"\((.*?)\)\s*:\n(.*?)(?=^\S|\Z)", src, re.S | re.M)
    if not m:
        raise Unknown(f"{name} in {PYX}")
    params = [re.split(r"[\s\]]+", p.split("=")[0].strip())[-1] for p in m.group(1).split(",") if p.strip()]
    line = src[: m.start()].count("\n") + 1
    body = re.sub(r"&\s*(\w+)\[([^\]]*)\]", r"_addr(\1, \2)", m.group(2))
    body = re.sub(r"^(\s*)cdef\s+(?:const\s+)?[\w\[\]:]+\s*\*?\s*(\w+\s*=)", r"\1\2", body, flags=re.M)
    body = re.sub(r"<[\w ]+\*?>\s*", "", body)
    try:
        fn = ast.parse("def f():\n" + body).body[0]
    except SyntaxError as e:
        raise Unknown(f"{PYX}: {e}")
    env = {}

    def term(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return ("n", e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in params:
                return ("par", params.index(e.id))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "_addr" and len(e.args) == 2:
            b, i = term(e.args[0]), term(e.args[1])
            if b[0] == "par":
                return cpp.fold("+", ("v", f"addr{b[1]}"), i)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
            b = term(e.args[0])
            if b[0] == "par":
                return ("v", f"len{b[1]}")
        if isinstance(e, ast.Attribute) and e.attr in ("nbytes", "size"):
            b = term(e.value)
            if b[0] == "par":
                return ("v", f"len{b[1]}")
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and isinstance(e.slice, ast.Constant) and e.slice.value == 0:
            b = term(e.value.value)
            if b[0] == "par":
                return ("v", f"len{b[1]}")
        if isinstance(e, ast.BinOp) and type(e.op) in (ast.Add, ast.Sub, ast.Mult):
            a, b = term(e.left), term(e.right)
            if "par" not in (a[0], b[0]):
                return cpp.fold({ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}[type(e.op)], a, b)
        raise Unknown("in the wrapper: " + ast.unparse(e))
    found = []

    def stmts(ss):
        for s in ss:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.With):
                stmts(s.body)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = term(s.value)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] == name and not s.value.keywords:
                found.append([term(a) for a in s.value.args])
            else:
                raise Unknown("in the wrapper: " + ast.unparse(s)[:60])
    stmts(fn.body)
    if len(found) != 1:
        raise Unknown(f"{len(found)} calls of {name} in the wrapper")
    return found[0], f"{PYX}:{line}"


def root(ck):
    return ck.root if hasattr(ck, "root") else ck.prog.root


def native(ck):
    try:
        args, at = wrapper(ck, "parallel_memcopy")
        names = {("v", "addr0"): V("S"), ("v", "addr1"): V("D"), ("v", "len0"): V("n"), ("v", "len1"): V("n"), ("par", 2): V("T")}
        args = [cpp.subst(a, names) for a in args]
        if len(args) != 5 or any(a[0] == "par" for a in args):
            raise Unknown("arguments of the wrapper")
        blk = args[3]
        if blk[0] != "n" or blk[1] < 1:
            raise Unknown("block size")
        e = cpp.Eval(os.path.join(root(ck), CPP))
        ps = e.run("parallel_memcopy", args[:3] + [V("B")] + args[4:])
    except Unknown as x:
        ck.unk("cover", "parallel_memcopy", str(x))
        return
    for i, st in enumerate(ps):
        site = f"parallel_memcopy/{i}"
        joined(ck, site, st)
        why = None
        try:
            why = cover(st, blk[1])
        except Unknown as x:
            why = str(x)
        if why is None:
            ck.ok("cover", site)
            ck.ok("wrapper", site, at)
    for msg, line in refute(ps, blk[1]):
        ck.bad("cover", "parallel_memcopy", msg, f"{CPP}:{line}")
        return
    for i, st in enumerate(ps):
        try:
            why = cover(st, blk[1])
        except Unknown as x:
            why = str(x)
        if why is not None:
            ck.unk("cover", f"parallel_memcopy/{i}", "not shown: " + why)


def joined(ck, site, st):
    started = {}
    for x in st.events:
        if x[0] == "copy" and x[5] is not None:
            started.setdefault(x[5], (x[4], x[6]))
        elif x[0] == "detach":
            return ck.bad("finished", site, "a thread that copies is detached", f"{CPP}:{x[2]}")
        elif x[0] == "join" and x[1] in started:
            loops, line = started[x[1]]
            while x[2][0] == "cast":
                x = x[:2] + (x[2][2],) + x[3:]
            if x[2] == "all":
                started.pop(x[1])
            elif len(x[3]) == 1 and len(loops) == 1 and x[2] == V(x[3][0][0]) and (x[3][0][1], x[3][0][2]) == (loops[0][1], loops[0][2]):
                started.pop(x[1])
            elif len(x[3]) == 1 and len(loops) == 1 and x[2] == V(x[3][0][0]) and x[3][0][1][0] == "n" and loops[0][1][0] == "n" and x[3][0][1][1] > loops[0][1][1]:
                return ck.bad("finished", site, "the first threads are not joined", f"{CPP}:{x[4]}")
            else:
                ck.unk("finished", site, "which threads are joined")
                started.pop(x[1])
    for loops, line in started.values():
        return ck.bad("finished", site, "the function returns without having joined the threads that copy", f"{CPP}:{line}")
    ck.ok("finished", site)


def cover(st, block):
    """None if the copies of a path follow each other from 0 to n; else the reason."""
    pr = cpp.Prover({"S": 0, "D": 0, "n": 0, "B": 1, "T": 1})
    for c, want in st.cond:
        pr.condition(c, want)
    fam = []
    copies = [x for x in st.events if x[0] == "copy"]
    for _, d, s, l, loops, vec, line in copies:
        if len(loops) > 1 or any(cpp.ite(x) for x in (d, s, l)):
            raise Unknown("form of the copies")
        v = lo = hi = None
        if loops:
            v, lo, hi = loops[0]
            lo, hi = pr.poly(lo), pr.poly(hi)
            pr.lower[v] = 0
            if lo != {}:
                raise Unknown("start of a loop")
            pr.upper[v] = padd(hi, pconst(-1))
            if not pr.ge0(hi):
                raise Unknown("number of rounds")
        fam.append([d, s, l, v, hi])
    # all divisions are met in a first pass, so that the second one uses all substitutions
    for x in fam + fam:
        x[5:] = [padd(pr.poly(x[0]), pvar("D"), -1), padd(pr.poly(x[1]), pvar("S"), -1), pr.poly(x[2])]
    todo, cur = [(pr.norm(x[5]), pr.norm(x[6]), pr.norm(x[7]), x[3], x[4] and pr.norm(x[4])) for x in fam], {}
    for off, src, ln, v, hi in todo:
        if off != src:
            return "offsets of source and destination differ"
        if not pr.ge0(ln):
            return "a length may be negative"
        if any("S" in m or "D" in m for m in padd(off, pr.norm(pvar("S"))) if False):
            return "addresses"
    while todo:
        for x in todo:
            off, src, ln, v, hi = x
            if v is None and off == cur:
                cur = padd(cur, ln)
                break
            if v is not None and psub(off, v, {}) == cur and psub(off, v, padd(pvar(v), pconst(1))) == padd(off, ln):
                cur = psub(off, v, hi)
                break
        else:
            return "the ranges do not follow each other"
        todo.remove(x)
    return None if cur == pr.norm(pvar("n")) else "the last range does not end at the last byte"


def refute(ps, block):
    """Parameters for which the closed forms leave a gap, overlap or leave the buffer."""
    for T, o, n in itertools.product((1, 2, 3, 6, 7), (0, 1, 5, 63), (1, 2, 63, 64, 65, 66, 127, 128, 129, 190, 320, 383, 384, 385, 447, 448, 449, 1000, 2701, (1 << 33) + 77, (1 << 36) + 1)):
        env = {"S": (1 << 44) + o, "D": 1 << 46, "n": n, "B": block, "T": T}
        for st in ps:
            try:
                if not all(bool(ev(c, env)) == w for c, w in st.cond):
                    continue
                rs = []
                for x in st.events:
                    if x[0] != "copy":
                        continue
                    _, d, s, l, loops, vec, line = x
                    if len(loops) > 1:
                        return
                    if loops:
                        v, lo, hi = loops[0]
                        lo, hi = ev(lo, env), ev(hi, env)
                        if hi - lo > 64:
                            return
                        for i in range(lo, hi):
                            e2 = {**env, v: i}
                            rs.append((ev(d, e2) - env["D"], ev(s, e2) - env["S"], ev(l, e2), line))
                    else:
                        rs.append((ev(d, env) - env["D"], ev(s, env) - env["S"], ev(l, env), line))
            except (KeyError, ZeroDivisionError, OverflowError):
                return
            case = f"a buffer of {n} bytes at an address with remainder {o} (block of {block}), {T} threads"
            cur = 0
            for a, b, l, line in sorted(rs):
                if l == 0:
                    continue
                if a != b:
                    yield f"{case}: bytes from offset {b} are copied to offset {a}", line
                    return
                if l < 0 or a < 0 or a + l > n:
                    yield f"{case}: the range from {a} to {a + l} is copied", line
                    return
                if a != cur:
                    yield f"{case}: the bytes from {min(a, cur)} to {max(a, cur)} are " + ("not copied" if a > cur else "copied twice"), line
                    return
                cur = a + l
            if cur != n:
                yield f"{case}: the bytes from {cur} on are not copied", rs[-1][3] if rs else 1
                return


def filling(ck):
    try:
        args, at = wrapper(ck, "fill")
        names = {("v", "addr0"): V("S"), ("v", "len0"): V("n"), ("par", 1): V("x")}
        args = [cpp.subst(a, names) for a in args]
        e = cpp.Eval(os.path.join(root(ck), CPP))
        f = e.func("fill")
        if f is None or len(args) != 3:
            raise Unknown("fill")
        e.pointee_ok = True
        old = e.pointee
        e.pointee = lambda n: {8: 1}.get(old(n), old(n)) if e.elements else old(n)
        e.elements = False
        ps = fills(e, f, args)
    except Unknown as x:
        ck.unk("fill", "fill", str(x))
        return
    for a, b, v, line in ps:
        if (a, b) in ((V("S"), ("+", V("S"), V("n"))), (V("S"), V("n"))) and v == V("x"):
            ck.ok("fill", "fill")
        elif all(x[0] in ("v", "n", "+", "-") for x in (a, b)):
            w = [(ev(a, {"S": 1000, "n": k}), ev(b, {"S": 1000, "n": k})) for k in (4, 8, 40)] if not cpp.mentions(a, {"x"}) and not cpp.mentions(b, {"x"}) else []
            if v != V("x") or any(p != (1000, 1000 + k) for p, k in zip(w, (4, 8, 40))):
                ck.bad("fill", "fill", "a table is not filled as a whole" if v == V("x") else "the table is filled with another value", f"{CPP}:{line}")
            else:
                ck.ok("fill", "fill")
        else:
            ck.unk("fill", "fill", "range")


def fills(e, f, args):
    """Calls of std::fill / std::fill_n in elements."""
    st = cpp.State()
    ps = [c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]
    for p, a in zip(ps, args):
        st.env[p["id"]] = a
    body = next(c for c in f["inner"] if c.get("kind") == "CompoundStmt")
    out = []
    for s in body.get("inner", []):
        while s.get("kind") == "ExprWithCleanups":
            s = s["inner"][0]
        name = e.callee(s["inner"][0]) if s.get("kind") == "CallExpr" else None
        if name not in ("fill", "fill_n"):
            raise Unknown("body of fill")
        e.elements = True
        try:
            vs = [e.expr(x, st) for x in s["inner"][1:]]
        finally:
            e.elements = False
        while vs[2][0] == "cast":
            vs[2] = vs[2][2]
        if name == "fill_n":
            vs[1] = cpp.fold("+", vs[0], vs[1])
        out.append((vs[0], vs[1], vs[2], e.where(s)))
    if len(out) != 1:
        raise Unknown("body of fill")
    return out


# ------------------------------------------------------------------ objects
def objects(ck, s, lens, site):
    total = s + sum(lens)
    text = "abcdefghijklmnopqrstuvwxyz"
    bufs = [chr(65 + i) * n for i, n in enumerate(lens)]
    # numbers of buffers per nested object: any split
    counts = [len(lens)] if len(lens) < 2 else [1, len(lens) - 1]
    data = repr({"s_data": text[:s], "raw_buffers": bufs, "buffer_count": counts})
    for owner in (True, False):
        body = c12.START + "    a.put(x, " + data + ")\n    SEE('get', 0)\n"
        body += "    a.get(x)\n" if owner else "    b.get(y, 3, a.get_shared_info(x))\n"
        for p, evs in c12.paths(ck, "write", site, body, reserve=reservation(FIRST, None if False else total, 8, True)):
            if p.outcome != "ret":
                ck.bad("write", site, f"an object of {s} bytes with buffers of {list(lens)} bytes cannot be written and read: {brief(p.value, 80)}", where_of(evs)) if p.outcome == "raise" and "exc" not in str(p.value)[:8] and own_error(p) else ck.unk("write", site, f"raises {brief(p.value, 60)}")
                continue
            judge(ck, site, s, lens, counts, text[:s], bufs, evs)


def own_error(p):
    return any(e.kind == "raise" and "shared_object_store" in (e.where or "") for e, _ in walk(p.events))


def where_of(evs):
    return next((e.where for e in reversed(evs) if e.kind == "raise"), "")


def judge(ck, site, s, lens, counts, text, bufs, evs):
    wrote, asked = [], None
    want = []
    at = FIRST
    for b, n in [(text, s)] + list(zip(bufs, lens)):
        want.append((at, at + n, b))
        at += n
    reading = False
    for e in evs:
        if e.kind != "call":
            continue
        if e.name.endswith(":send_reserve_operation") and e.bound is not None and not reading:
            n = e.bound.get("data_size")
            if n is not None and is_const(n) and cval(n) != s + sum(lens):
                return ck.bad("write", site, f"{cval(n)} bytes are reserved for an object of {s + sum(lens)} bytes", e.where)
        if e.name == "sym:!SEE" and e.data[0] == const("get"):
            reading = True
        if e.name == "ext:stubs.data":
            lo, hi, v = e.data
            if not (is_const(lo) and is_const(hi) and is_const(v)):
                return ck.unk("write", site, "what is written")
            wrote.append((cval(lo), cval(hi), cval(v), c12.user_site(e)))
        elif e.name.endswith(".parallel_memcopy"):
            vs = e.data
            d = c12.parts(vs[1]) if len(vs) > 1 else []
            if len(d) != 1 or not is_const(vs[0]) or d[0][0] is None or d[0][1] is None:
                return ck.unk("write", site, "what is copied")
            if d[0][2]:
                return ck.bad("write", site, "the destination of a copy is read-only", e.where)
            if len(vs) > 2 and is_const(vs[2]) and cval(vs[2]) < 1:
                return ck.bad("write", site, f"copies with {cval(vs[2])} threads", e.where)
            wrote.append((d[0][0], d[0][1], cval(vs[0]), e.where))
        elif e.name.endswith(":deserialize_complex_data"):
            v = e.data
            head, rest, cnt = v[0], v[1] if len(v) > 1 else None, v[2] if len(v) > 2 else None
            got = c12.parts(head)
            rs = c12.parts(rest)
            if len(got) != 1 or any(x[0] is None or x[1] is None for x in got + rs):
                return ck.unk("read", site, "what is decoded")
            if rest is None or rest[0] not in ("list", "tuple") or len(rest[1]) != len(rs):
                return ck.unk("read", site, "the buffers that are decoded")
            have = [(x[0], x[1]) for x in got + rs]
            if have != [(a, b) for a, b, _ in want]:
                i = next((i for i, (x, y) in enumerate(itertools.zip_longest(have, [(a, b) for a, b, _ in want])) if x != y))
                x = have[i] if i < len(have) else None
                y = want[i] if i < len(want) else None
                return ck.bad("read", site, f"part {i} of an object of {s} bytes with buffers of {list(lens)} bytes is read from {'nowhere' if x is None else f'{x[0]} to {x[1]}'}, but was written to {'nowhere' if y is None else f'{y[0]} to {y[1]}'}", e.where)
            if cnt is None or cnt[0] not in ("list", "tuple") or not all(q[0] == "el" and is_const(q[1]) for q in cnt[1]):
                return ck.unk("read", site, "numbers of buffers ")
            if [cval(q[1]) for q in cnt[1]] != counts:
                return ck.bad("read", site, f"numbers of buffers {[cval(q[1]) for q in cnt[1]]} instead of {counts}", e.where)
            ck.ok("read", site)
    for lo, hi, v, w in wrote:
        if hi - lo != len(v):
            return ck.bad("write", site, f"{len(v)} bytes are copied to a range of {hi - lo}", w)
        if (lo, hi, v) not in want:
            return ck.bad("write", site, f"{len(v)} bytes are written from {lo} to {hi}; the parts belong to {', '.join(f'{a}-{b}' for a, b, _ in want)}", w)
    missing = [x for x in want if x[1] > x[0] and x not in [q[:3] for q in wrote]]
    if missing:
        return ck.bad("write", site, f"the part from {missing[0][0]} to {missing[0][1]} of an object of {s} bytes with buffers of {list(lens)} bytes is not written", c12.where(ck, "SharedObjectStore._write_to_shared_buffer"))
    ck.ok("write", site)


def transfer(ck):
    """The monitor of the owner's host sends the reserved range; the requester receives its own."""
    from ..mpimodel import MONITOR, scripted
    man = MPI + "monitor.shared_memory_manager:"
    i = ident("I")
    msg = ("REQUEST_SHARED_DATA", ("sym", "!S"), ("dict", (("kv", const("id"), i),)))
    info = ("dict", (("kv", const("first_index"), ("sym", "!f")), ("kv", const("last_index"), ("sym", "!l")), ("kv", const("service_index"), ("sym", "!s"))))
    it, ps = scripted(ck, MONITOR, [msg], results={man + "SharedMemoryManager.get": info})
    for p in ps:
        gets = [e for e, _ in walk(p.events) if e.kind == "call" and e.name.endswith("SharedObjectStore.get_shared_buffer")]
        sends = [e for e, _ in walk(p.events) if e.kind == "call" and e.name.split(":")[-1] in ("mpi_send_buffer", "mpi_isend_buffer")]
        if len(gets) != 1 or len(sends) != 1:
            ck.unk("transfer", "monitor", f"{len(gets)} ranges, {len(sends)} sends")
            continue
        a = [x[1] for x in gets[0].args if x[0] == "el"] + [x[2] for x in gets[0].kw if x[0] == "kv"]
        a = [x for x in a if x in (("sym", "!f"), ("sym", "!l"), ("sym", "!s"))]
        if a == [("sym", "!f"), ("sym", "!l")]:
            ck.ok("transfer", "monitor", gets[0].where)
        elif len(a) == 2:
            ck.bad("transfer", "monitor", "another range than the reserved one is sent", gets[0].where)
        else:
            ck.unk("transfer", "monitor", "the range that is sent")
    site = "requester"
    body = c12.START + "    b.get(y, 3, " + c12.INFO.format("y", 40) + ")\n"
    for p, evs in c12.paths(ck, "transfer", site, body, reserve=reservation(FIRST, 14, 8, True)):
        for e in evs:
            if e.kind == "call" and e.name.endswith(":mpi_recv_buffer"):
                rs = [r for x in e.data for r in c12.parts(x)]
                if len(rs) != 1 or rs[0][0] is None:
                    ck.unk("transfer", site, "the range that is received")
                elif rs[0][:2] != (FIRST, FIRST + 14) or rs[0][2]:
                    ck.bad("transfer", site, f"the object is received into {rs[0][0]} to {rs[0][1]} instead of {FIRST} to {FIRST + 14}", e.where)
                else:
                    ck.ok("transfer", site, e.where)
