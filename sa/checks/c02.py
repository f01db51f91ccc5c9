"""Path-sensitive abstract interpretation of the way of the arguments: from the public call
through the backend's classes to the executing core, and in the executing core to the call of
the user's function.  The arguments are symbolic sequences/mappings; what arrives is compared
element by element (one case per outcome of the type tests), for all lengths, orders and
names.  Keyword arguments named like any parameter on the way are followed separately."""
import ast

from ..argmap import *
from ..execmodel import *
from ..front import *
from ..interp import FALSE, NONE, TRUE, app, const

DATAID = "unidist.core.backends.common.data_id:DataID"
MAT = "unidist.core.backends.mpi.core.common:materialize_data_ids"
PTR = "unidist.core.backends.mpi.core.worker.task_store:TaskStore.process_task_request"
OPTS = ("num_cpus", "num_returns", "resources")
# keyword parameters of distributed.Client.submit (third party)
DASK_SUBMIT = ("key", "workers", "resources", "retries", "priority", "fifo_timeout", "allow_other_workers", "actor", "actors", "pure", "func", "self")
EXTRA = {"dask": set(DASK_SUBMIT), "mpi": {"num_returns"}, "pymp": {"num_returns"}, "pyseq": {"num_returns"}, "ray": set()}


def check(ck):
    ck.rule("front-args", "The call that submits a task receives every positional argument once, in order, and every keyword argument once, under its name, each reference replaced by the identifier it wraps, and nothing else that the task would see.")
    ck.rule("unwrap", "Unwrapping references inside a container keeps its type, length, order and keys.")
    ck.rule("core-args", "The user's function is called with the arguments submitted, in order and under their names, each identifier replaced by the value stored for it.")
    ck.rule("materialize", "Resolving identifiers inside containers keeps the type, length, order and keys of the container.")
    ck.rule("kw-capture", "A keyword argument whose name equals that of an internal parameter is passed on like any other.")
    ck.rule("carried", "A remote function taken along to another process by a task can be called there.")
    for b, mod, cls in backends(ck.prog):
        for kind in "fmc":
            site = f"{b}/{ {'f': 'function', 'm': 'actor-method', 'c': 'actor-class'}[kind]}"
            for via in ("remote", "options"):
                ck.guard("front-args", site, lambda: front(ck, f"{site}/{via}", b, mod, cls, kind, via))
            for p in captured_names(ck, b):
                ck.guard("kw-capture", f"{site}/{p}", lambda: capture(ck, f"{site}/{p}", b, mod, cls, kind, p))
    for t in ("list", "tuple", "dict", "ref", "other"):
        ck.guard("unwrap", t, lambda: unwrap(ck, t))
        if t != "ref":
            ck.guard("materialize", t, lambda: materialize(ck, t))
    for site, f in (("pyseq.submit", pyseq), ("pymp.submit", pymp_submit), ("pymp.ActorMethod.submit", pymp_method), ("pymp.Task", pymp_task),
                    ("pymp.Actor", pymp_actor), ("mpi.submit", mpi_submit), ("mpi.ActorMethod", mpi_method), ("mpi.Actor", mpi_actor),
                    ("mpi.process_task_request", mpi_process), ("mpi.execute_received_task", mpi_exec), ("mpi.worker_loop", mpi_worker)):
        ck.guard("core-args", site, lambda: f(ck, site))
    for i, (o, sl) in enumerate([(None, ()), ([4, 3, 2, 1, 0], ()), (1, ())]):
        for used in (True, False):
            site = f"mpi/carried/{'used' if used else 'new'}/{i}"
            ck.guard("carried", site, lambda: carried(ck, site, o, sl, used))
    for t in ("args", "list", "tuple", "kwargs"):
        ck.guard("materialize", f"mpi/many/{t}", lambda: many(ck, f"mpi/many/{t}", t))


def many(ck, site, t, n=10):
    """More references than any small number the code may have in mind."""
    from ..scen import RF, Scen, judge_value, lst, tup
    from ..world import called, ident
    ones = [called("F", ident("A"), const(i)) for i in range(n)]
    names = [f"r{i}" for i in range(n)]
    body = RF + "".join(f"r{i} = f.remote(A, {i})\n" for i in range(n))
    arg, want = {
        "args": (", ".join(names), called("F", *ones)),
        "list": ("[" + ", ".join(names) + "]", called("F", lst(*ones))),
        "tuple": ("(" + ", ".join(names) + ")", called("F", tup(*ones))),
        "kwargs": (", ".join(f"k{i}=r{i}" for i in range(n)), called("F", kw=tuple((f"k{i}", x) for i, x in enumerate(ones)))),
    }[t]
    s = Scen(f"many-{t}", body + f"return proxy.get(f.remote({arg}))", want)
    judge_value(ck, "materialize", site, s, s.cluster(ck, None, ()).go())


def carried(ck, site, order, slow, used):
    """A remote function travels to a worker inside an object and is called there."""
    from ..scen import RF, Scen, judge, tup
    from ..world import called, ident
    ci = ck.prog.classes.get("unidist.core.backends.mpi.remote_function:MPIRemoteFunction")
    if ci is None:
        raise Undecided("no MPIRemoteFunction")
    meths = {n for c in ck.prog.mro(ci) for n in c.methods}
    if meths & {"__reduce_ex__", "__getnewargs_ex__", "__new__"}:
        raise Undecided("way of pickling")
    if "__reduce__" in meths:
        tasks = "def pack(o):\n    return o.__reduce__()\ndef unpack(v):\n    o = v[0](*v[1])\n"
        tasks += "    if len(v) > 2 and v[2] is not None:\n        for k, x in v[2].items():\n            setattr(o, k, x)\n    return o\n"
    else:
        tasks = f"def pack(o):\n    return {'o.__getstate__()' if '__getstate__' in meths else 'o.__dict__.copy()'}\n"
        tasks += "def unpack(v):\n    o = object.__new__(MPIRemoteFunction)\n"
        tasks += "    o.__setstate__(v)\n" if "__setstate__" in meths else "    for k, x in v.items():\n        setattr(o, k, x)\n"
        tasks += "    return o\n"
    tasks = "from unidist.core.backends.mpi.remote_function import MPIRemoteFunction\nclass Box:\n    def __init__(self, v):\n        self.v = v\n" + tasks
    tasks += "def T(h, y):\n    g = unpack(h.v)\n    r = g._remote(y)\n    s = g._remote(r)\n    return api.get([r._ref, s._ref])\n"
    A, B = ident("A"), ident("B")
    body = RF + ("x = proxy.get(f.remote(A))\n" if used else "x = A\n") + "t = proxy.make_remote_function(T, None, None, None)\ny = proxy.get(t.remote(Box(pack(f._remote_function_cls)), B))\nreturn x, y, proxy.get(f.remote(B))"
    fb = called("F", B)
    s = Scen("carried", body, tup(called("F", A) if used else A, ("list", (("el", fb), ("el", called("F", fb)))), fb), tasks=tasks, recursion=12)
    judge(ck, "carried", site, s, s.cluster(ck, order, slow).go())


def judged(ck, rule, site, fn, where=""):
    """Run a comparison; Mismatch is a violation, Undecided is recorded."""
    try:
        fn()
    except Mismatch as m:
        ck.bad(rule, site, m.msg, where)
        return False
    except Undecided as u:
        ck.unk(rule, site, str(u), where)
        return None
    ck.ok(rule, site, where)
    return True


def W(t):
    return app(UNWRAP, t)


def ref_judge(facts, v, x):
    """Front end: an element that is a reference becomes its identifier, any other itself."""
    r = ("attr", x, "_ref")
    i = is_inst(facts, x, "ObjectRef")
    if i is True:
        good = (r, W(r), W(x))
    elif i is False:
        good = (x, W(x))
    else:
        good = (W(x),)
    if v in good:
        return True
    return False if precise(v) and not any(t[0] == "res" for t in subterms(v) if t) else None


def keep_judge(facts, v, x):
    r = ("attr", x, "_ref")
    if v in (x, W(x)):
        return True
    if is_inst(facts, x, "ObjectRef") is True and v in (r, W(r)):
        return True
    return False if precise(v) and not any(t[0] == "res" for t in subterms(v) if t) else None


def bound_segs(e):
    """(positional, keyword) segments that reach the task through a call of a core function."""
    if e.bound is not None:
        sig = e.bound
        va, kw = sig.get("args"), sig.get("kwargs")
        if va is not None and kw is not None and va[0] == "tuple" and kw[0] == "dict":
            return list(va[1]), list(kw[1]), True
    return list(e.args or ()), list(e.kw or ()), False


def front(ck, site, b, mod, cls, kind, via):
    it, ps = drive(ck, driver(mod, cls, kind, via=via))
    n = 0
    for p in ps:
        if p.outcome == "raise":
            continue
        cs = [e for e, ctx in carriers(p) if e.cond != "raises"]
        if not cs:
            ck.bad("front-args", site, "no submission receives the arguments of the call", "")
            continue
        e = cs[0]
        n += 1
        pos, kws, bound = bound_segs(e)
        jd = keep_judge if kind == "c" else ref_judge

        def cmp():
            fixed = positional(pos, ARGS, jd)
            extra = named(kws, KWARGS, jd)
            if bound and fixed:
                raise Mismatch(f"{'; '.join(show_seg(s) for s in fixed)} is added in front of the positional arguments")
            if bound and extra:
                raise Mismatch(f"{'; '.join(show_seg(s) for s in extra)} is added to the keyword arguments")
            if not bound:
                for s in extra:
                    if s[0] == "kv" and is_const(s[1]) and cval(s[1]) not in EXTRA.get(b, ()):
                        raise Mismatch(f"{show_seg(s)} is added to the keyword arguments")
                closure(it, p, e, fixed)

        judged(ck, "front-args", site, cmp, e.where)
    if not n:
        raise Undecided("no path submits the task")


def closure(it, p, e, fixed):
    """A wrapper given as the function to execute must pass its arguments on."""
    if not fixed:
        return
    f = fixed[0][1]
    if f[0] not in ("clo", "fn"):
        return
    A, K = ("sym", "wargs"), ("sym", "wkwargs")
    pre = [("sym", f"w{i}") for i in range(len(fixed) - 1)]
    st = p.state.fork()
    st.trace = None
    it.sinks.append([])
    try:
        outs = it.call_value(st, f, [("el", v) for v in pre] + [("splat", A)], [("dsplat", K)], e.node)
    finally:
        it.sinks.pop()
    same = lambda facts, v, x: v == x or (False if precise(v) else None)
    for st2, v in outs:
        cs = [c for c in st2.events() if c.kind == "call" and mentions(c, A)]
        if len(cs) != 1:
            raise Mismatch("the submitted wrapper does not call the method once with its arguments")
        fx = positional(cs[0].args, A, same)
        ex = named(cs[0].kw, K, same)
        if fx or ex:
            raise Mismatch(f"the submitted wrapper adds {'; '.join(show_seg(s) for s in fx + ex)}")
        if it.snap(st2, v) != cs[0].res:
            raise Mismatch("the submitted wrapper does not return the result of the method")


def captured_names(ck, b):
    out = set()
    for f in ck.prog.funcs.values():
        m = f.key.split(":")[0]
        if not (m.startswith("unidist.core.base") or m.startswith(f"unidist.core.backends.{b}.") or m == f"unidist.core.backends.{b}"):
            continue
        a = f.node.args
        if a.kwarg is None:
            continue
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
    for m in ck.prog.modules.values():
        if m.name.startswith(f"unidist.core.backends.{b}."):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Lambda) and n.args.kwarg is not None:
                    out |= {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
    if b == "dask":
        out |= set(DASK_SUBMIT)
    return sorted(out - set(OPTS))


END_STOPS = STORE_STOPS + ("*ProcessManager.*", "*RoundRobin.*", "*.controller.common:*", "*garbage_collector*", "*Operations.*", "*MPIState.*")


def capture(ck, site, b, mod, cls, kind, P):
    V, X = ("sym", "VALUE"), ("sym", "FIRST")
    mk = {"f": "rf = proxy.make_remote_function(fun, None, None, None)",
          "m": "rf = proxy.make_actor(fun, None, None).remote().some_method",
          "c": "rf = proxy.make_actor(fun, None, None)"}[kind]
    src = f'''
from unidist.core.base.backend import BackendProxy
from {mod} import {cls}
def main(fun, FIRST, VALUE):
    proxy = BackendProxy({cls}())
    {mk}
    return rf.remote(FIRST, {P}=VALUE)
'''
    it, ps = drive(ck, src, stops=END_STOPS)
    where = ""
    for p in ps:
        if p.outcome == "raise":
            if p.value and "TypeError" in show(p.value):
                ck.bad("kw-capture", site, f"a keyword argument named {P} makes the call fail with a TypeError", where)
            continue
        got = False
        if any(e.kind == "catch" for e, _ in walk(p.events)):
            continue  # resolving an argument or running the function in place failed
        V = ("sym", "VALUE")
        for e, ctx in walk(p.events):
            if e.kind != "call":
                continue
            if e.name.endswith("ObjectStore.get") and contains(tuple(e.args or ()), V):
                V = e.res  # the argument is an identifier, resolved in place
            for t in subterms((tuple(e.args or ()), tuple(e.kw or ()))):
                if t and t[0] == "kv" and t[1] == const(P) and contains((t[2],), V):
                    got = True
                    where = e.where
                    if b == "dask" and e.name == "meth:submit" and P in DASK_SUBMIT:
                        ck.bad("kw-capture", f"dask/Client.submit/{P}", f"a keyword argument named {P} is taken by Client.submit of Dask", e.where)
                        return
                    if e.args and e.args[0][0] == "el" and e.args[0][1][0] in ("clo", "fn") and e.name == "meth:submit":
                        wrapper_capture(ck, site, it, p, e, P)
                elif t and t[0] == "for" and contains((t,), V):
                    got = True
        carried_any = any(e.kind == "call" and mentions(e, X) for e, _ in walk(p.events))
        if got:
            ck.ok("kw-capture", site, where)
        elif carried_any:
            ck.bad("kw-capture", site, f"a keyword argument named {P} does not reach the task", where)
        else:
            ck.unk("kw-capture", site, "no submission seen")


def wrapper_capture(ck, site, it, p, e, P):
    st = p.state.fork()
    st.trace = None
    it.sinks.append([])
    try:
        outs = it.call_value(st, e.args[0][1], list(e.args[1:]), [s for s in e.kw if not (s[0] == "kv" and is_const(s[1]) and cval(s[1]) in DASK_SUBMIT)], e.node)
        sunk = it.sinks[-1]
    finally:
        sunk = it.sinks.pop()
    if not outs:
        ck.bad("kw-capture", site, f"a keyword argument named {P} makes the submitted wrapper fail with a TypeError", e.where)


def unwrap(ck, t):
    X = ("sym", "obj_refs")
    ty = {"ref": ("cls", OBJREF), "other": ("b", "int")}.get(t, ("b", t))
    fi = ck.prog.funcs.get(UNWRAP)
    if fi is None:
        raise Undecided(f"{UNWRAP} not found")
    X = ("sym", fi.node.args.args[0].arg)
    it, ps = run(ck, UNWRAP, pure=(UNWRAP,), types={X: ty})
    for p in ps:
        v = p.value
        if p.outcome != "ret":
            ck.bad("unwrap", t, "unwrapping references fails for a value of this type")
            continue

        def cmp():
            if t == "ref":
                if v != ("attr", X, "_ref") and v != W(("attr", X, "_ref")):
                    raise Mismatch(f"a reference is unwrapped to {brief(v)}")
            elif t == "other":
                if v != X:
                    raise Mismatch(f"a plain value is unwrapped to {brief(v)}")
            else:
                container(v, X, t, ref_judge)

        judged(ck, "unwrap", t, cmp, UNWRAP)


def container(v, X, t, judge):
    v0 = v
    while v[0] == "app" and v[1] in ("list", "tuple", "dict") and v[1] != t:
        v = v[2][0]
    if v[0] == "app" and v[1] == t:
        v = v[2][0]
    elif v[0] != t:
        if precise(v) and v[0] in ("list", "tuple", "dict", "set"):
            raise Mismatch(f"a {t} becomes a {v[0]}")
        if v[0] == "lvx" and prepended(v):
            raise Mismatch(f"the elements of a {t} are collected in reverse order")
        if v[0] == "app" and v[1] in ("call", "new") or not precise(v):
            raise Undecided(brief(v0))
        if v == X:
            raise Mismatch(f"the elements of a {t} are not resolved")
        raise Undecided(brief(v0))
    if v[0] not in ("list", "tuple", "dict"):
        raise Undecided(brief(v0))
    if t == "dict":
        if named(v[1], X, judge, "container"):
            raise Mismatch(f"entries are added to the container: {brief(v)}")
    elif positional(v[1], X, judge, "container"):
        raise Mismatch(f"elements are added to the container: {brief(v)}")


def prepended(v):
    """An accumulator that every iteration extends at its front."""
    alts = v[-1] if isinstance(v[-1], tuple) else ()
    return bool(alts) and all(
        a and a[0] in ("list", "tuple") and len(a[1]) > 1 and a[1][-1][0] == "splat" and a[1][-1][1][0] == "lv" for a in alts
    )


def materialize(ck, t):
    fi = ck.prog.funcs.get(MAT)
    if fi is None:
        raise Undecided(f"{MAT} not found")
    ps_ = [a.arg for a in fi.node.args.args]
    X, F = ("sym", ps_[0]), ("sym", ps_[1])
    it, ps = run(ck, MAT, types={X: ("b", "int" if t == "other" else t)})
    for p in ps:
        if p.outcome != "ret":
            continue
        evs = list(walk(p.events))
        resolved = {}
        for e, ctx in evs:
            if e.kind == "call" and e.recv == F and e.args and e.args[0][0] == "el":
                resolved[("item", e.res, const(0))] = e.args[0][1]
            if e.kind == "call" and e.name == MAT and e.args and e.args[0][0] == "el":
                resolved[("item", e.res, const(0))] = e.args[0][1]
        v = p.value
        if v[0] != "tuple" or len(v[1]) != 2:
            raise Undecided(brief(v))
        v = v[1][0][1]

        def root(u):
            k = 0
            while u in resolved and k < 5:
                u = resolved[u]
                k += 1
            return u, k

        def judge(facts, u, x):
            r, k = root(u)
            r = rebase(r)
            if r == x and k:
                return True
            return False if r == x or precise(r) and r[0] == "item" else None

        def rebase(r):
            # elements are recorded under the loop's index
            for s in subterms(r):
                if s and s[0] == "ix":
                    r = subst(r, s, ("sym", "i"))
            return r

        def cmp():
            if t == "other":
                if root(v)[0] != X or not root(v)[1]:
                    raise Mismatch(f"a single value is resolved to {brief(v)}")
                return
            container(v, X, t, judge)

        judged(ck, "materialize", t, cmp, MAT)


# ---------------------------------------------------------------- executing cores
def store_judge(events):
    """An identifier becomes the value got from the store, anything else stays."""
    gets = {}
    for e, ctx in walk(events):
        if e.kind == "call" and e.cond != "raises" and e.name.split(":")[-1].split(".")[-1] == "get" and e.args and e.args[0][0] == "el":
            gets.setdefault(e.res, e.args[0][1])

    def j(facts, v, x):
        i = is_inst(facts, x, "DataID")
        src = gets.get(v)
        if src is not None:
            for s in subterms(src):
                if s and s[0] == "ix":
                    src = subst(src, s, ("sym", "i"))
                    break
        if i is True:
            return True if src == x else (False if v == x or src is not None else None)
        if i is False:
            return True if v == x else (False if precise(v) else None)
        if v == x:
            return False
        return None

    return j


def same_judge(facts, v, x):
    return True if v == x else (False if precise(v) else None)


def nothing(segs, what):
    if segs:
        raise Mismatch(f"{'; '.join(show_seg(s) for s in segs)} is added to the {what}")


def pyseq(ck, site):
    it, ps = run(ck, PYSEQ_SUBMIT, stops=STORE_STOPS, args={"num_returns": const(1)})
    n = 0
    for p in ps:
        c = user_call(p.events, ("sym", "func"))
        if c is None or c.cond == "raises":
            continue
        n += 1

        def cmp():
            j = store_judge(p.events)
            nothing(positional(c.args, ("sym", "args"), j), "positional arguments")
            nothing(named(c.kw, ("sym", "kwargs"), j), "keyword arguments")

        judged(ck, "core-args", site, cmp, c.where)
    if not n:
        raise Undecided("no call of the function found")


def as_segs(v, kind):
    """The segments of an argument tuple/list/dict value."""
    while v[0] == "app" and v[1] in ("tuple", "list", "dict", "copy") and len(v[2]) == 1:
        v = v[2][0]
    if v[0] in ("tuple", "list", "dict"):
        return list(v[1])
    return [("dsplat" if kind == "dict" else "splat", v)]


def pymp_task_obj(ck, site, fkey, **k):
    it, ps = run(ck, fkey, stops=("*ObjectStore.*", "*ProcessManager.*"), args={"num_returns": const(1)}, **k)
    for p in ps:
        if p.outcome != "ret":
            continue
        t = None
        for e, _ in walk(p.events):
            if e.kind == "call" and e.name.endswith("dumps") and e.args and e.args[0][1][0] == "obj":
                t, w = e.args[0][1], e.where
        if t is None:
            for e, _ in walk(p.events):
                if e.kind == "call":
                    for s in subterms(tuple(e.args or ())):
                        if s and s[0] == "obj" and s[1].endswith(":Task"):
                            t, w = s, e.where
        if t is None:
            raise Undecided("the submitted task object was not found")
        d = dict(t[2])
        yield it, p, d, w


def pymp_fields(ck, site, fkey):
    n = 0
    for it, p, d, w in pymp_task_obj(ck, site, fkey):
        n += 1

        def cmp():
            hit = [k for k, v in d.items() if contains((v,), ("sym", "args"))]
            hk = [k for k, v in d.items() if contains((v,), ("sym", "kwargs"))]
            if not hit or not hk:
                raise Mismatch("the arguments are not part of the submitted task")
            nothing(positional(as_segs(d[hit[0]], "tuple"), ("sym", "args"), same_judge), "positional arguments")
            nothing(named(as_segs(d[hk[0]], "dict"), ("sym", "kwargs"), same_judge), "keyword arguments")

        judged(ck, "core-args", site, cmp, w)
    if not n:
        raise Undecided("no submitting path")


def pymp_submit(ck, site):
    pymp_fields(ck, site, "unidist.core.backends.pymp.core.api:submit")


def pymp_method(ck, site):
    pymp_fields(ck, site, "unidist.core.backends.pymp.core.actor:ActorMethod.submit")


def pymp_task(ck, site):
    src = '''
from unidist.core.backends.pymp.core.process_manager import Task
def main(func, ids, store, *args, **kwargs):
    return Task(func, ids, store, *args, **kwargs)()
'''
    it, ps = drive(ck, src, stops=("*ObjectStore.*",))
    n = 0
    for p in ps:
        c = user_call(p.events, ("sym", "func"))
        if c is None or c.cond == "raises":
            continue
        n += 1

        def cmp():
            j = store_judge(p.events)
            nothing(positional(c.args, ARGS, j), "positional arguments")
            nothing(named(c.kw, KWARGS, j), "keyword arguments")
            if p.outcome == "ret" and p.value != c.res and precise(p.value):
                raise Mismatch(f"the task yields {brief(p.value)} instead of the result of the function")

        judged(ck, "core-args", site, cmp, c.where)
    if not n:
        raise Undecided("no call of the function found")


def ctor(ck, site, fkey, isit, stops):
    it, ps = run(ck, fkey, stops=stops, args={"owner_rank": NONE, "handler_id": NONE} if "mpi" in fkey else None)
    n = 0
    for p in ps:
        for e, _ in walk(p.events):
            if e.kind == "call" and e.cond != "raises" and isit(e):
                n += 1

                def cmp():
                    nothing(positional(e.args, ARGS, same_judge), "positional arguments")
                    nothing(named(e.kw, KWARGS, same_judge), "keyword arguments")

                judged(ck, "core-args", site, cmp, e.where)
    if not n:
        raise Undecided("no construction found")


def pymp_actor(ck, site):
    ctor(ck, site, "unidist.core.backends.pymp.core.actor:Actor.__init__", lambda e: mentions(e, ARGS), ("*ObjectStore.*", "*ProcessManager.*"))


def op_data(e):
    """The dict sent with an operation."""
    for i, name in ((2, "data"), (2, "operation_data")):
        v = e.arg(i, name)
        if v is not None and v[0] == "dict":
            return {cval(s[1]): s[2] for s in v[1] if s[0] == "kv" and is_const(s[1])}
    return None


MPI_STOPS = END_STOPS


def mpi_sent(ck, site, fkey, opname, **k):
    it, ps = run(ck, fkey, stops=MPI_STOPS, **k)
    n = 0
    for p in ps:
        if p.outcome != "ret":
            continue
        for e, _ in walk(p.events):
            if e.kind == "call" and e.name.endswith("isend_complex_operation"):
                d = op_data(e)
                if d is None:
                    raise Undecided("the data sent with the operation is " + ev_str(e))
                n += 1

                def cmp():
                    if "args" not in d or "kwargs" not in d:
                        raise Mismatch("the arguments are not sent with the operation")
                    nothing(positional(as_segs(d["args"], "tuple"), ARGS, mpi_judge), "positional arguments")
                    nothing(named(as_segs(d["kwargs"], "dict"), KWARGS, mpi_judge), "keyword arguments")

                judged(ck, "core-args", site, cmp, e.where)
    if not n:
        raise Undecided("no operation is sent")


def mpi_judge(facts, v, x):
    r = ("attr", x, "_ref")
    if v in (x, W(x)) or (is_inst(facts, x, "ObjectRef") and v in (r, W(r))):
        return True
    return False if precise(v) else None


def mpi_submit(ck, site):
    mpi_sent(ck, site, "unidist.core.backends.mpi.core.controller.api:submit", "EXECUTE", args={"num_returns": const(1)})


def mpi_method(ck, site):
    mpi_sent(ck, site, "unidist.core.backends.mpi.core.controller.actor:ActorMethod.__call__", "ACTOR_EXECUTE", args={"num_returns": const(1)})


def mpi_actor(ck, site):
    mpi_sent(ck, site, "unidist.core.backends.mpi.core.controller.actor:Actor.__init__", "ACTOR_CREATE", args={"owner_rank": NONE, "handler_id": NONE})


def mpi_process(ck, site):
    R = ("sym", "request")
    it, ps = run(ck, PTR, stops=STORE_STOPS + ("*materialize_data_ids", "*unwrapped_data_ids*", "*execute_received_task"))
    n = 0
    for p in ps:
        res = {("item", e.res, const(0)): e.args[0][1] for e, _ in walk(p.events) if e.kind == "call" and e.name == MAT and e.args}
        got = {e.res: e.args[0][1] for e, _ in walk(p.events) if e.kind == "call" and e.name.endswith("ObjectStore.get") and e.args}
        for e, _ in walk(p.events):
            if e.kind == "call" and e.name.endswith("execute_received_task"):
                n += 1

                def cmp():
                    for i, name, key in ((2, "args", "args"), (3, "kwargs", "kwargs")):
                        v = e.arg(i, name)
                        s = res.get(v)
                        want = ("item", R, const(key))
                        if s == want:
                            continue
                        if v == want:
                            raise Mismatch(f"{key} are passed to the task without resolving the identifiers in them")
                        if s is not None and precise(s):
                            raise Mismatch(f"{brief(s)} is passed as {key}")
                        raise Undecided(f"{key} = {brief(v)}")
                    t = e.arg(1, "task")
                    want = ("item", R, const("task"))
                    i = is_inst([(a.data, a.res) for a in p.events if a.kind == "assume"], want, "DataID")
                    if i is True and got.get(t) != want or i is False and t != want:
                        raise Mismatch(f"the function executed is {brief(t)}")
                    o = e.arg(0, "output_data_ids")
                    if o != ("item", R, const("output")):
                        raise Mismatch(f"the results are stored under {brief(o)}")

                judged(ck, "core-args", site, cmp, e.where)
    if not n:
        raise Undecided("no execution found")


def mpi_exec(ck, site):
    n = 0
    for coro in (False, True):
        it, xs = mpi(ck, "one", coro)
        for x in xs:
            if x.call is None or x.call.cond == "raises":
                continue
            n += 1

            def cmp():
                nothing(positional(x.call.args, ARGS, same_judge), "positional arguments")
                nothing(named(x.call.kw, KWARGS, same_judge), "keyword arguments")

            judged(ck, "core-args", f"{site}{'(async)' if coro else ''}", cmp, x.call.where)
    if not n:
        raise Undecided("no call of the task found")


def mpi_worker(ck, site):
    from ..mpimodel import worker_paths, payload
    n = 0
    for op, q in worker_paths(ck):
        if op == "ACTOR_CREATE":
            R = payload(q)
            for e, _ in walk(q.events):
                if e.kind == "call" and e.recv == ("item", R, const("class")) and e.cond != "raises":
                    n += 1

                    def cmp():
                        nothing(positional(e.args, ("item", R, const("args")), same_judge), "positional arguments")
                        nothing(named(e.kw, ("item", R, const("kwargs")), same_judge), "keyword arguments")

                    judged(ck, "core-args", site + "/ACTOR_CREATE", cmp, e.where)
        elif op in ("EXECUTE", "ACTOR_EXECUTE"):
            R = payload(q)
            for e, _ in walk(q.events):
                if e.kind == "call" and e.name.endswith("process_task_request"):
                    n += 1
                    if e.args[0][1] == R:
                        ck.ok("core-args", f"{site}/{op}", e.where)
                    elif precise(e.args[0][1]):
                        ck.bad("core-args", f"{site}/{op}", f"{brief(e.args[0][1])} is executed instead of the received task", e.where)
                if e.kind == "setitem" and e.recv == R and e.args and e.args[0][1] in (const("args"), const("kwargs"), const("output")):
                    ck.bad("core-args", f"{site}/{op}", f"{brief(e.args[0][1])} of the received task are replaced by {brief(e.args[1][1])}", e.where)
    if not n:
        raise Undecided("no operation handled")
