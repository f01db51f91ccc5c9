"""Shared object store: the code of the store and of the manager is interpreted for several
processes over one model of the shared windows, for all histories of a few operations; locking,
publication, checks and reference counts are read off the accesses to the table and the memory."""
import itertools

from ..front import *
from ..interp import FALSE, NONE, TRUE, app, const, cval, is_const, show
from ..shm import D, STORE, reservation, run
from . import c13
from ..world import MPI, ident

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source over a model of the shared windows (typestate of lock, table entry and reference counts)"
NOTE = "All histories of up to five operations of three processes on one object, and of clean-ups by the monitor; the operations of a process are judged by the order of their accesses, so that other processes may come in between."
INFO = "C.MetadataPackage.get_shared_info({0}, 5, [6, 3], [2], {1})"
DATA = '{"s_data": "abcde", "raw_buffers": ["wxyzuv", "123"], "buffer_count": [2]}'
FIRST, SERVICE, TOTAL = 100, 8, 14


def check(ck):
    ck.rule("lock", "Every access that changes the shared table is made under the exclusive lock of its window, the same for all; a count is read and written under one lock; the lock is released on every path.")
    ck.rule("publish", "An object is entered in the table only after all its bytes are in the shared memory, and its place and count are in the table before its name; its bytes are not written afterwards.")
    ck.rule("use", "A process decodes an object only from memory that the table says holds it, at the place the table says, and after it has added itself to the count.")
    ck.rule("count", "A process takes back exactly what it has added to the count when its last use is gone; when nobody uses the object, the count is zero.")
    ck.rule("other", "When the entry of the table holds another object, nothing is counted, read or deleted for the former one.")
    ck.rule("free", "The memory is given back, on all hosts alike, when no host has a use left, and only then; what is still used is tried again with the next clean-up.")
    ck.rule("request", "The first request for the memory of an object, and only that, is answered as such (who asked first writes the object).")
    ck.rule("finalize", "After the shared memory is closed, no access to it is made.")
    jobs = []
    ops = {
        "A": "    SEE('by', 'a')\n    a.get(x)\n",
        "g": "    SEE('by', 'b')\n    b.get(y, 3, " + INFO.format("y", SERVICE) + ")\n",
        "h": "    SEE('by', 'b')\n    b.get(y) if b.contains(y) else None\n",
        "k": "    SEE('by', 'c')\n    c.get(z, 3, " + INFO.format("z", SERVICE) + ")\n",
        "X": "    SEE('by', 'a')\n    collect(x)\n    SEE('gone', 'a')\n",
        "Y": "    SEE('by', 'b')\n    collect(y)\n    SEE('gone', 'b')\n",
        "Z": "    SEE('by', 'c')\n    collect(z)\n    SEE('gone', 'c')\n",
    }
    for n in range(0, 5):
        for w in itertools.product("AghkXYZ", repeat=n):
            w = "".join(w)
            if not sane(w):
                continue
            jobs.append(("count", "p" + w, lambda c, w=w: history(c, "p" + w, "".join(ops[o] for o in w))))
    for w in ("ggYX", "gghYX", "kgYZX", "gkhAYZX", "ggkkYZX"):
        jobs.append(("count", "p" + w, lambda c, w=w: history(c, "p" + w, "".join(ops[o] for o in w), full=True)))
    for first in (True, False):
        for w in ("", "h", "g", "Y", "hY", "gY", "kY", "kYZ", "ghYkZ"):
            site = f"other host/{'first' if first else 'later'}/{w or 'get'}"
            jobs.append(("publish", site, lambda c, site=site, first=first, w=w: history(c, site, ops["g"].replace(f", {SERVICE})", ", 40)") + "".join(ops[o] for o in w), put=False, first=first)))
    jobs.append(("use", "blank", lambda c: history(c, "blank", ops["g"], put=False, name=(0, 0))))
    jobs.append(("request", "monitor", c13.request))
    for w in ("Y", "YX", "XY"):
        for o in ((5, 9), (3, 9), (5, 7)):
            site = f"reused/{w}/{o[0]}-{o[1]}"
            jobs.append(("other", site, lambda c, w=w, o=o, site=site: reused(c, site, "".join(ops[x] for x in w), o)))
    jobs.append(("other", "delete", delete))
    for a in itertools.product((0, 1, 2), (0, 1), (0, 1), (0, 1)):
        jobs.append(("free", "clear/" + "/".join(map(str, a)), lambda c, a=a: clear(c, *a)))
    jobs.append(("free", "unknown", lambda c: clear(c, 0, 0, 0, 0, known=False)))
    jobs.append(("finalize", "finalize", finalize))
    ck.pguard(jobs)


def sane(w):
    """Uses of a handle come before its end; X, Y, Z at most once."""
    for end, uses in (("X", "A"), ("Y", "gh"), ("Z", "k")):
        if w.count(end) > 1:
            return False
        if end in w and any(u in w[w.index(end):] for u in uses):
            return False
        if end in "YZ" and end in w and not any(u in w[: w.index(end)] for u in ("g" if end == "Y" else "k")):
            return False
    return True


START = "    a = store(LOG)\n    b = store(LOG)\n    c = store(LOG)\n    x = new_id(3, 7)\n    y = new_id(3, 7)\n    z = new_id(3, 7)\n    SEE('distinct', x is y)\n"


def arrives(it, st, ev):
    """While this process waits, for the second time, another one publishes the object."""
    mark = (("ext", "stubs"), "slept")
    if mark not in st.overlay:
        def first(y):
            y.overlay[mark] = TRUE
            return NONE
        return [((), first)]

    def mk(y):
        for k, h in list(y.heap.items()):
            if h[0] == "inst" and h[1].endswith(":Table"):
                c = h[2]["cells"]
                segs = dict((cval(s[1]), s[2]) for s in y.heap[c[1]][1])
                segs.update({SERVICE: const(3), SERVICE + 1: const(7), SERVICE + 2: const(FIRST), SERVICE + 3: const(1)})
                y.heap[c[1]] = ("dict", tuple(("kv", const(a), b) for a, b in segs.items()))
        return NONE
    ev.data = ["arrived"]
    return [((), mk)]


def paths(ck, rule, site, body, **k):
    for p in run(ck, body, **k):
        if any(e.kind == "assume" for e, _ in walk(p.events)):
            ck.unk(rule, site, "a condition is not decided: " + "; ".join(show(e.data)[:80] for e, _ in walk(p.events) if e.kind == "assume")[:200])
            continue
        if p.outcome == "cut":
            ck.unk(rule, site, "not followed to its end")
            continue
        yield p, [e for e, _ in walk(p.events)]


def num(t):
    return cval(t) if is_const(t) and isinstance(cval(t), int) else None


def parts(t):
    """Ranges of the shared memory in a value: [(lo, hi, readonly)]."""
    if not isinstance(t, tuple) or not t:
        return []
    if t[0] == "obj" and t[1].endswith(":Part"):
        d = dict(t[2])
        return [(num(d["lo"]), num(d["hi"]), d["ro"] == TRUE)]
    return [y for x in t[1:] if isinstance(x, tuple) for y in (parts(x) if x and isinstance(x[0], str) else [z for w in x if isinstance(w, tuple) for z in parts(w)])]


def judge(ck, site, p, evs, what, name=(3, 7), put=True, full=False):
    """One pass over the accesses of a path.  True when nothing is wrong."""
    held, table, added, by, base = None, {}, {}, "a", None
    session = set()
    data = set()
    published = None
    dropped = set()

    def bad(rule, msg, e):
        ck.bad(rule, site, f"{what}: {msg}", user_site(e))
        return False

    def entry():
        for i in table:
            if i % 4 == 0 and (table.get(i), table.get(i + 1)) == name:
                return i
        return None
    for e in evs:
        if e.kind != "call":
            continue
        n = e.name
        if n == "sym:!SEE":
            k = cval(e.data[0])
            if k == "by":
                by = cval(e.data[1])
            elif k == "distinct" and e.data[1] != FALSE:
                ck.unk("count", site, "the identifiers of the processes are not told apart")
                return False
            elif k == "gone":
                who = cval(e.data[1])
                dropped.add(who)
                if added.get(who, 0) != 0:
                    return bad("count", f"the process {who} has added {added[who]:+d} to the count in the end", e)
        elif n == "ext:stubs.strong":
            return bad("count", "the action to be taken when the object is dropped keeps the object alive", e)
        elif n == "ext:stubs.lock":
            unit, rank, kind = e.data
            if held is not None:
                return bad("lock", "the lock is requested while it is held", e)
            if kind not in (NONE, const(234)) and "EXCLUSIVE" not in show(kind):
                return bad("lock", f"the lock is of the kind {show(kind)}", e)
            held = (unit, rank)
            session = set()
            locks = ck.__dict__.setdefault("_c12_locks", {})
            locks.setdefault((show(unit), show(rank)), user_site(e))
        elif n == "ext:stubs.unlock":
            if held != (e.data[0], e.data[1]):
                return bad("lock", "a lock is released that is not held", e)
            held = None
        elif n == "ext:stubs.read":
            session.add(num(e.data[0]))
        elif n == "ext:stubs.wrote":
            i, v = num(e.data[0]), num(e.data[1])
            if i is None or v is None:
                ck.unk("lock", site, f"an access to the table is not known: {brief(e.data[0])} = {brief(e.data[1])}")
                return False
            if held is None:
                return bad("lock", f"the table is changed (field {i % 4}) without its lock", e)
            if num(held[0]) != 8:
                return bad("lock", "the table is changed under the lock of another window", e)
            if show(held[1]) != "MPIRank.MONITOR" and num(held[1]) != 0:
                first = list(locks)[0]
                if first != (show(held[0]), show(held[1])):
                    return bad("lock", f"the lock is taken at {show(held[1])}, elsewhere at {first[1]}", e)
            was = entry()
            if i % 4 == 3 and was == i - 3 and v >= 0 and i not in session:
                return bad("lock", "the count is read before the lock is taken", e)
            if i % 4 == 3:
                old = table.get(i, -1)
                delta = v - (old if was == i - 3 else 0)
                if was == i - 3 or entry() is None:
                    added[by] = added.get(by, 0) + delta
            table[i] = v
            now = entry()
            if was is None and now is not None:
                published = now
                first = table.get(now + 2, -1)
                if first != FIRST:
                    return bad("publish", f"the object is entered in the table with the place {first} instead of {FIRST}" if i % 4 == 2 or first >= 0 else "the object is entered in the table before its place", e)
                if table.get(now + 3, -1) < 1:
                    return bad("publish", "the object is entered in the table before its count", e)
                missing = [b for b in range(FIRST, FIRST + TOTAL) if b not in data]
                if missing:
                    return bad("publish", f"the object is entered in the table when {len(missing)} of its {TOTAL} bytes are not yet written", e)
            if was is not None and now is None and v >= 0:
                return bad("other", "the entry of the object is overwritten", e)
        elif n == "ext:time.sleep" and e.data:
            base = SERVICE
            table.update({base: 3, base + 1: 7, base + 2: FIRST, base + 3: 1})
            data.update(range(FIRST, FIRST + TOTAL))
        elif n.endswith(":deserialize_complex_data"):
            got = parts(e.data[0]) + parts(e.data[1]) if len(e.data) > 1 else parts(e.data[0])
            at = entry()
            if not got:
                continue
            if any(a is None or b is None for a, b, _ in got):
                ck.unk("use", site, "the range that is decoded is not known")
                return False
            if at is None:
                return bad("use", "the object is decoded when the table does not hold it", e)
            if got[0][0] != table.get(at + 2):
                return bad("use", f"the object is decoded from {got[0][0]}, but the table says {table.get(at + 2)}", e)
            if added.get(by, 0) < 1:
                return bad("use", f"the process {by} decodes the object without having added itself to the count", e)
        else:
            if n == "ext:stubs.data":
                rs = [(num(e.data[0]), num(e.data[1]), False)]
            else:
                vs = e.data if isinstance(e.data, list) else [x[1] for x in e.args]
                rs = [r for x in vs for r in parts(x) if not r[2]]
            for lo, hi, _ in rs:
                if lo is None or hi is None:
                    ck.unk("publish", site, f"the range that is written is not known: {brief(e.data[0])}")
                    return False
                if published is not None and "debug" not in n:
                    return bad("publish", "bytes of the object are written after it was entered in the table", e)
                data.update(range(lo, hi))
    if held is not None:
        return bad("lock", "the lock is still held in the end", last_lock(evs))
    if p.outcome == "raise":
        ck.unk("count", site, f"{what}: raises {brief(p.value, 60)}")
        return False
    at = entry()
    if dropped and at is not None:
        want = sum(added.values())
        if table.get(at + 3) != want + (1 if not put and base is not None else 0):
            ck.unk("count", site, f"count {table.get(at + 3)}, added {added}")
            return False
    return True


def last_lock(evs):
    return [e for e in evs if e.kind == "call" and e.name == "ext:stubs.lock"][-1]


def user_site(e):
    """The place in the repository from which an access of the model was made."""
    for f in reversed(e.stack or ()):
        w = f[1] if isinstance(f, tuple) and len(f) > 1 else None
        if isinstance(w, str) and w.startswith("unidist/"):
            return w
    return e.where


def history(ck, site, text, put=True, first=True, full=False, name=(3, 7)):
    body = START.replace("(3, 7)", str(name))
    if put:
        body += "    SEE('by', 'a')\n    a.put(x, " + DATA + ")\n"
    body += text
    n = 0
    for p, evs in paths(ck, "count", site, body, reserve=reservation(FIRST, TOTAL, SERVICE, first), results={"ext:time.sleep": arrives}):
        if judge(ck, site, p, evs, describe(site), name=name, put=put):
            for r in ("lock", "publish", "use", "count"):
                ck.ok(r, site)
            n += 1
    return n


def describe(site):
    names = {"p": "put", "A": "get by the owner", "g": "get by another process", "h": "get again", "k": "get by a third process", "X": "the owner drops it", "Y": "the second drops it", "Z": "the third drops it"}
    if "/" in site:
        return "object of " + site
    return ", ".join(names.get(c, c) for c in site)


def reused(ck, site, text, o):
    """The memory was given to another object before the process dropped the former one."""
    body = START + "    SEE('by', 'a')\n    a.put(x, " + DATA + ")\n    SEE('by', 'b')\n    b.get(y, 3, " + INFO.format("y", SERVICE) + ")\n    a.delete_service_info(x, 8)\n    o = new_id" + str(o) + "\n    c.put(o, " + DATA + ")\n    SEE('replaced', 0)\n" + text + "    SEE('n', a.get_ref_number(x, 8))\n    SEE('o', a.get_ref_number(o, 8))\n"
    for p, evs in paths(ck, "other", site, body, reserve=reservation(FIRST, TOTAL, SERVICE, True)):
        if p.outcome != "ret":
            ck.unk("other", site, f"raises {brief(p.value, 60)}")
            continue
        after, ok = False, True
        for e in evs:
            if e.kind != "call":
                continue
            if e.name == "sym:!SEE":
                k = cval(e.data[0])
                after = after or k == "replaced"
                if k == "n" and e.data[1] != const(0):
                    ok = False
                    ck.bad("other", site, f"the number of uses of an object that is not in the memory any more is given as {brief(e.data[1])}", user_site(e))
                    break
                if k == "o" and e.data[1] != const(1):
                    ok = False
                    ck.bad("other", site, f"the number of uses of the object that is in the memory is given as {brief(e.data[1])} instead of 1", user_site(e))
                    break
            if after and e.name == "ext:stubs.wrote":
                ok = False
                ck.bad("other", site, "the count of the object that is now in the memory is changed when the former one is dropped", user_site(e))
                break
        if ok:
            ck.ok("other", site)


def delete(ck):
    """Deleting: the entry of the object is emptied; that of another object is left alone."""
    for same in (True, False):
        site = f"delete/{'same' if same else 'other'}"
        body = START + "    a.put(x, " + DATA + ")\n    SEE('by', 'm')\n    SEE('del', 0)\n    b.delete_service_info(" + ("y" if same else "new_id(5, 9)") + ", 8)\n"
        for p, evs in paths(ck, "other", site, body, reserve=reservation(FIRST, TOTAL, SERVICE, True)):
            table, after, changed, held = {}, False, None, False
            for e in evs:
                if e.kind == "call" and e.name == "ext:stubs.wrote":
                    table[num(e.data[0])] = num(e.data[1])
                    if after:
                        changed = e
                        if not held:
                            return ck.bad("lock", site, "the entry is emptied without the lock", user_site(e))
                elif e.kind == "call" and e.name == "sym:!SEE" and e.data[0] == const("del"):
                    after = True
                elif e.kind == "call" and e.name in ("ext:stubs.lock", "ext:stubs.unlock"):
                    held = e.name == "ext:stubs.lock"
            if held:
                return ck.bad("lock", site, "the lock is still held after a deletion", user_site(last_lock(evs)))
            if same and (p.outcome != "ret" or (table.get(8), table.get(9)) == (3, 7)):
                if p.outcome == "ret":
                    return ck.bad("other", site, "the entry of a deleted object still names it", where(ck, "SharedObjectStore.delete_service_info"))
                ck.unk("other", site, f"raises {brief(p.value, 60)}")
                continue
            if not same and changed is not None:
                return ck.bad("other", site, "the entry of another object is changed by a deletion", user_site(changed))
            ck.ok("other", site)


def where(ck, name):
    f = next((f for k, f in ck.prog.funcs.items() if k.endswith(":" + name)), None)
    return f"{f.module.rel}:{f.node.lineno}" if f else ""


def arr(it, st, ev):
    v = it.snap(st, ev.args[1][1]) if len(ev.args) > 1 else ("list", ())
    return [((), (lambda y: y.alloc(v)) if v[0] == "list" else v)]


def reduced(there, again):
    """What the other host adds to a reduction; the second one is told by a mark."""
    def f(it, st, ev):
        other = again if (("ext", "stubs"), "turn") in st.overlay else there
        v, op = ev.args[0][1], show(ev.args[1][1]).split(".")[-1]
        fn = {"MAX": max, "MIN": min, "SUM": lambda p, q: p + q, "LOR": lambda p, q: int(bool(p or q)), "BOR": lambda p, q: p | q, "LAND": lambda p, q: int(bool(p and q)), "BAND": lambda p, q: p & q, "PROD": lambda p, q: p * q}.get(op)
        if fn is None or num(v) is None:
            return [((), ("sym", "!reduced"))]
        return [((), const(fn(num(v), other)))]
    return f


def clear(ck, here, there, again, more, known=True):
    """here: uses left on this host; there: whether another host has uses; again: whether uses
    of another host are left at the second clean-up; more: whether the second clean-up is asked
    for another object."""
    site = f"clear/{here}/{there}/{again}/{more}" if known else "clear/unknown"
    body = START + "    m = M.SharedMemoryManager()\n"
    if known:
        body += "    r = m.put(x, 14)\n    SEE('reserved', r)\n    SEE('by', 'a')\n    a.put(x, " + DATA + ")\n"
        body += "    b.get(y, 3, " + INFO.format("y", 0) + ")\n" if here == 2 else ""
        body += "    collect(x)\n" if here == 0 else ""
    body += "    SEE('clear', 0)\n    m.clear([z])\n    SEE('first', m.get(z))\n"
    if here:
        body += "    collect(x)\n" + ("    collect(y)\n" if here == 2 else "")
    body += "    SEE('clear', 1)\n    OTHER(0)\n    m.clear([" + ("new_id(4, 4)" if more else "") + "])\n    SEE('second', m.get(z))\n"

    def other(it, st, ev):
        def mk(y):
            y.overlay[(("ext", "stubs"), "turn")] = const(1)
            return NONE
        return [((), mk)]

    f = where(ck, "SharedMemoryManager.clear")
    for p, evs in paths(ck, "free", site, body, args=("OTHER",), reserve=reservation(0, TOTAL, 0, True), live=(STORE + ":SharedObjectStore",),
                        results={"meth:Create_group": lambda it, st, ev: [((), lambda y: y.alloc(("inst", D + ":Comm", {})))], "ext:array.array": arr, "ext:stubs.reduce": reduced(there, again), "sym:!OTHER": other}):
        if p.outcome != "ret":
            ck.unk("free", site, f"raises {brief(p.value, 60)}")
            continue
        seen = {}
        for e in evs:
            if e.kind == "call" and e.name == "sym:!SEE":
                seen.setdefault(cval(e.data[0]), e.data[1])
        if not known:
            ck.ok("free", site)
            continue
        if "reserved" not in seen or "first" not in seen or "second" not in seen:
            ck.unk("free", site, "not followed")
            continue
        kept1, kept2 = seen["first"] != NONE, seen["second"] != NONE
        want1 = here > 0 or there > 0
        want2 = want1 and again > 0
        uses = f"{here} uses on this host, {'some' if there else 'none'} on another one"
        if kept1 != want1:
            return ck.bad("free", site, f"with {uses}, the memory is {'kept' if kept1 else 'given back'}", f)
        if kept2 != want2:
            return ck.bad("free", site, f"with {uses} at first, and at the next clean-up none on this host and {'some' if again else 'none'} on another one, the memory is {'kept' if kept2 else 'given back'}", f)
        if kept1 and seen["first"] != seen["reserved"]:
            return ck.bad("free", site, "the place of an object in use is changed by a clean-up", f)
        ck.ok("free", site)


def finalize(ck):
    site = "finalize"
    body = START + "    a.put(x, " + DATA + ")\n    b.get(y, 3, " + INFO.format("y", SERVICE) + ")\n    a.finalize()\n    b.finalize()\n    SEE('closed', 0)\n    collect(x)\n    collect(y)\n    a.finalize()\n"
    for p, evs in paths(ck, "finalize", site, body, reserve=reservation(FIRST, TOTAL, SERVICE, True)):
        if p.outcome != "ret":
            ck.unk("finalize", site, f"raises {brief(p.value, 60)}")
            continue
        closed, ok, freed = False, True, []
        for e in evs:
            if e.kind != "call":
                continue
            if e.name == "sym:!SEE" and e.data[0] == const("closed"):
                closed = True
            if e.name == "ext:stubs.free":
                freed.append(e.data[0])
            if closed and e.name in ("ext:stubs.read", "ext:stubs.wrote", "ext:stubs.lock", "ext:stubs.free", "ext:stubs.data"):
                ck.bad("finalize", site, f"the shared memory is accessed ({e.name[10:]}) after it was closed, when an object is dropped" if e.name != "ext:stubs.free" else "a window is freed twice", user_site(e))
                ok = False
                break
        if ok and sorted(num(x) or 0 for x in freed) != [1, 1, 8, 8]:
            ck.bad("finalize", site, f"{len(freed)} of 4 windows are freed", where(ck, "SharedObjectStore.finalize"))
            ok = False
        if ok:
            ck.ok("finalize", site)
