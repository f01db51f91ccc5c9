"""Pairing of identifiers with elements of the result in the executing cores."""
from ..execmodel import *
from ..interp import NONE, app, const


def check(ck):
    ck.rule("core-pair", "After a task returned R, the core stores R under the single identifier, or element i of R under the i-th identifier for every identifier, or nothing if there is none.")
    ck.rule("core-short", "A result with fewer elements than identifiers fails the task (no loop over identifiers is silently cut short by the result).")
    ck.rule("core-ids", "The identifiers returned by a submission are the ones sent with the task: none, one, or n freshly generated ones in order.")
    ck.rule("core-serialized", "The serialized form stored under an identifier is that of the value stored under it.")
    for kind in ("none", "one", "list"):
        for name, f in all_execs(ck, kind):
            site = f"{name}/ids={kind}"
            ck.guard("core-pair", site, lambda: stored(ck, site, kind, f))
        ck.guard("core-pair", f"pyseq.submit/ids={kind}", lambda: pyseq(ck, f"pyseq.submit/ids={kind}", kind))
        for fn, store in (
            ("unidist.core.backends.pymp.core.api:submit", "*ObjectStore.put"),
            ("unidist.core.backends.pymp.core.actor:ActorMethod.submit", "*ObjectStore.put"),
            ("unidist.core.backends.mpi.core.controller.api:submit", "*.generate_data_id"),
            ("unidist.core.backends.mpi.core.controller.actor:ActorMethod.__call__", "*.generate_data_id"),
        ):
            site = f"{fn.split('backends.')[1]}/n={kind}"
            ck.guard("core-ids", site, lambda: submit_ids(ck, site, fn, store, kind))


def stored(ck, site, kind, f):
    it, execs = f()
    seen = 0
    for x in execs:
        if x.result is None or x.caught:
            continue
        seen += 1
        pair(ck, site, kind, x)
    if not seen:
        raise Undecided("no path on which a task succeeds was found")


def pair(ck, site, kind, x):
    puts = x.puts()
    facts = [(e.data, e.res) for e in x.events if e.kind == "assume"]
    where = x.call.where
    if kind == "none":
        if puts:
            ck.bad("core-pair", site, f"a task without results stores {brief(puts[0][1])} under {brief(puts[0][0])}", puts[0][3].where)
        else:
            ck.ok("core-pair", site, where)
        return
    if not puts:
        return ck.bad("core-pair", site, "nothing is stored for the identifiers of a task that succeeded", where)
    if any(not precise(i) or not precise(v) for i, v, *_ in puts):
        raise Undecided("imprecise store " + "; ".join(brief(i) + "=" + brief(v) for i, v, *_ in puts))
    if kind == "one":
        i, v, ctx, e = puts[-1]
        if len(puts) == 1 and not ctx and i == x.ids and v == x.result:
            ck.ok("core-pair", site, e.where)
        else:
            ck.bad("core-pair", site, f"{brief(v)} is stored under {brief(i)}; expected the whole result under the task's identifier", e.where)
        return
    for i, v, ctx, e in puts:
        if len(ctx) != 1 or i[0] != "item" or i[1] != x.ids or i[2][0] != "ix":
            if i == x.ids:
                ck.bad("core-pair", site, "a value is stored under the list of identifiers", e.where)
                continue
            raise Undecided(f"store of {brief(v)} under {brief(i)}")
        want = ("item", x.result, i[2])
        if v != want:
            if unknown_elem(v):
                raise Undecided(f"value {brief(v)}")
            ck.bad("core-pair", site, f"identifier i is paired with {brief(v)} instead of element i of the result", e.where)
            continue
        ck.ok("core-pair", site, e.where)
        c = covers(ctx[0].dom, app("len", x.ids), facts)
        if c:
            ck.ok("core-short", site, e.where)
        elif c is False:
            ck.bad("core-short", site, f"the loop over {brief(ctx[0].dom)} ends early when the result has fewer elements than requested: the remaining references never resolve", e.where)
        else:
            raise Undecided(f"loop over {brief(ctx[0].dom)}")
    ser(ck, site, x)


def unknown_elem(v):
    return v[0] in ("res",) and "next" in v[2]


def ser(ck, site, x):
    """MPI: the serialized form belongs to the value."""
    events = list(walk(x.events))
    res = {}
    for e, ctx in events:
        if e.kind == "call" and e.name.endswith(":serialize_complex_data") and e.cond != "raises":
            res[e.res] = (e, ctx)
    for e, ctx in events:
        if e.kind == "call" and e.cond != "raises" and (e.name.endswith("SharedObjectStore.put") or e.name.endswith("cache_serialized_data")):
            i, s = e.args[0][1], e.args[1][1]
            src = res.get(s)
            if src is None:
                continue
            v = src[0].args[0][1]
            # the index of the loop that serialized corresponds to that of the loop that stores
            ix1 = [t for t in subterms(v) if t[0] == "ix"]
            ix2 = [t for t in subterms(i) if t[0] == "ix"]
            v2 = v
            if ix1 and ix2:
                from ..interp import subst
                v2 = subst(v, ix1[0], ix2[0])
            if i[0] == "item" and i[1] == x.ids:
                want = ("item", x.result, i[2])
            else:
                continue
            if v2 == want:
                ck.ok("core-serialized", site, e.where)
            elif precise(v2):
                ck.bad("core-serialized", site, f"the serialized form of {brief(v)} is stored under {brief(i)}", e.where)


def pyseq(ck, site, kind):
    n = ("sym", "num_returns")
    facts, args = [], {}
    if kind == "none":
        args = {"num_returns": const(0)}
    elif kind == "one":
        args = {"num_returns": const(1)}
    else:
        facts = [(app("lt", const(1), n), True)]
    it, ps = run(ck, PYSEQ_SUBMIT, stops=("*ObjectStore.put", "*ObjectStore.get"), facts=facts, args=args)
    seen = 0
    for p in ps:
        c = user_call(p.events, ("sym", "func"))
        if c is None or c.cond == "raises" or any(e.kind == "catch" for e in p.events) or p.outcome != "ret":
            continue
        seen += 1
        puts = Exec("pyseq", None, p.events, c, c.res, p.outcome, p).puts()
        R, v = c.res, p.value
        if kind == "none":
            if v == NONE and not puts:
                ck.ok("core-pair", site, c.where)
            elif precise(v):
                ck.bad("core-pair", site, f"a submission without results returns {brief(v)}", c.where)
            continue
        if len(puts) != 1:
            if not all(precise(q[1]) for q in puts):
                raise Undecided("stores")
            ck.bad("core-pair", site, f"{len(puts)} stores for one result", c.where)
            continue
        i, val, ctx, e = puts[0]
        if kind == "one":
            if v == i and val == R and not ctx:
                ck.ok("core-pair", site, e.where)
            elif precise(v) and precise(val):
                ck.bad("core-pair", site, f"the reference returned stands for {brief(val)} instead of the result", e.where)
            continue
        if not (precise(v) and precise(val)):
            raise Undecided(brief(v))
        if v[0] == "list" and len(v[1]) == 1 and one_case(v[1][0]) == i and len(ctx) == 1:
            dom = v[1][0][1]
            if val[0] == "item" and val[1] == R and val[2][0] == "ix":
                ck.ok("core-pair", site, e.where)
            else:
                ck.bad("core-pair", site, f"reference i stands for {brief(val)} instead of element i of the result", e.where)
                continue
            ls = lens(dom)
            facts = p.facts()
            if n in ls and all(x in at_least(facts, n) for x in ls):
                ck.ok("core-short", site, e.where)
            elif n in ls or app("len", R) in ls:
                ck.bad("core-short", site, f"one reference per element of {brief(dom)}, not exactly one per requested result", e.where)
            else:
                raise Undecided(brief(dom))
        else:
            ck.bad("core-pair", site, f"the references returned are {brief(v)}", e.where)
    if not seen:
        raise Undecided("no successful path")


def submit_ids(ck, site, fn, gen, kind):
    n = ("sym", "num_returns")
    facts, args = [], {}
    if kind == "none":
        args = {"num_returns": const(0)}
    elif kind == "one":
        args = {"num_returns": const(1)}
    else:
        facts = [(app("lt", const(1), n), True)]
    stops = (gen, "*.put_data_owner", "*ProcessManager.submit", "*:push_data", "*.core.communication:*", "*GarbageCollector.*", "*RoundRobin.*",
             "*AsyncOperations.*", "*get_logger*", "*.pymp.core.actor:Actor.submit", "*unwrapped_data_ids_list*")
    types = {("attr", ("sym", "self"), "_obj_store"): ("cls", "unidist.core.backends.pymp.core.object_store:ObjectStore"),
             ("attr", ("sym", "self"), "_actor"): ("cls", fn.split(":")[0] + ":Actor")}
    it, ps = run(ck, fn, stops=stops, facts=facts, args=args, types=types)
    seen = 0
    for p in ps:
        if p.outcome != "ret":
            continue
        sent = sent_ids(p)
        if sent is None:
            raise Undecided("the message of the task was not recognised")
        seen += 1
        ids, e = sent
        if not precise(ids) or not precise(p.value):
            raise Undecided(brief(p.value))
        if ids != p.value:
            ck.bad("core-ids", site, f"the identifiers sent with the task are {brief(ids)}, those returned are {brief(p.value)}", e.where)
            continue
        gens = {q.res: ctx for q, ctx in calls(p.events, (gen, "meth:put")) if q.cond != "raises"}
        if kind == "none":
            good = ids == NONE
        elif kind == "one":
            good = ids in gens and not gens[ids]
        else:
            good = (
                ids[0] == "list" and len(ids[1]) == 1 and ids[1][0][0] == "for"
                and one_case(ids[1][0]) in gens and len(gens[one_case(ids[1][0])]) == 1
                and lens(ids[1][0][1]) == {n}
            )
            if not good and ids[0] == "app" and ids[1] == "repeat":
                pass
        if good:
            ck.ok("core-ids", site, e.where)
        else:
            ck.bad("core-ids", site, f"the identifiers of a task with {kind} results are {brief(ids)}, not that many new ones", e.where)
    if not seen:
        raise Undecided("no path submits")


def sent_ids(p):
    """The identifiers travelling with the task, and the event that sends them."""
    for e, ctx in walk(p.events):
        if e.kind != "call":
            continue
        for a in list(e.args or ()) + [("el", k[2]) for k in e.kw or () if k[0] == "kv"]:
            if a[0] != "el":
                continue
            v = a[1]
            if v[0] == "obj" and v[1].endswith(":Task"):
                d = dict(v[2])
                if "data_ids" in d:
                    return d["data_ids"], e
            if v[0] == "dict" and e.name.endswith("isend_complex_operation"):
                for s in v[1]:
                    if s[0] == "kv" and s[1] == const("output"):
                        return s[2], e
    return None
