"""Pending tasks and requests: all processes of an MPI job are interpreted together (see C08)
on programs whose tasks depend on each other, on results that are not there yet and on data of
other processes, under several orders of delivery.  Every result arrives, every function runs
exactly once, and missing data is asked for once."""
from ..front import *
from ..interp import NONE, app, const
from ..scen import ACTORS, CLEANUPS, PENDING, POOL, WAITS, judge, judge_alive, schedules, wstr
from ..world import World, field, value

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (composition of the abstract semantics of all MPI processes through their messages, term domain)"


def check(ck):
    ck.rule("served", "Every value asked for arrives and is the one expected, in every order of delivery analysed: no pending task or request is dropped.")
    ck.rule("once", "Each submitted call runs its function exactly once, in one process.")
    ck.rule("asked", "Data that another process owns is asked for at most once until it arrives.")
    ck.rule("alive", "No process ends while work is pending.")
    jobs = []
    for s in POOL + WAITS + ACTORS + PENDING + CLEANUPS:
        if s.name in ("put-get", "empty", "falsy", "containers"):
            continue
        for i, (o, sl) in enumerate(schedules(ck.tier, s.ranks(), s in PENDING)):
            site = f"{s.name}/{i}"
            jobs.append(("served", site, lambda k, site=site, s=s, o=o, sl=sl: one(k, site, s, s.cluster(k, o, sl).go())))
    ck.pguard(jobs)


def one(ck, site, s, c):
    judge(ck, "served", site, s, c)
    judge_alive(ck, "alive", site, c)
    runs = {}
    for r in c.paths:
        if r == 0:
            continue
        for e, ctx in walk(c.paths[r].events):
            if e.kind == "call" and e.name.startswith("sym:!") and e.cond != "raises":
                k = (e.name, tuple(e.args), tuple(e.kw))
                runs.setdefault(k, []).append((r, e))
    want = s.calls if s.calls is not None else None
    for k, v in runs.items():
        n = 1 if want is None else want.get(k, 1)
        what = f"{k[0][5:]}({', '.join(brief(a[1], 40) for a in k[1])})"
        if len(v) > n and not s.dup:
            ck.bad("once", site, f"{what} runs {len(v)} times (processes {', '.join(str(x[0]) for x in v)})", v[-1][1].where)
        else:
            ck.ok("once", site)
    if s.ncalls is not None:
        n = sum(len(v) for v in runs.values())
        if n < s.ncalls and c.paths[0].outcome == "ret":
            ck.bad("once", site, f"only {n} of the {s.ncalls} submitted calls run", wstr(c.paths[0]))
        elif n > s.ncalls:
            ck.bad("once", site, f"{n} calls run although {s.ncalls} were submitted", wstr(c.paths[0]))
        else:
            ck.ok("once", site)
    for r, p in c.paths.items():
        if r in c.monitors:
            continue
        seen = {}
        for m in c.worlds[r].sent(p):
            if m.data[0] == "dict" and field(m.data, "is_blocking_op") is not None and field(m.data, "id") is not None:
                if value(field(m.data, "is_blocking_op")):
                    continue
                k = field(m.data, "id")
                seen.setdefault(k, []).append(m)
        for k, v in seen.items():
            if len(v) > 1:
                ck.bad("asked", site, f"process {r} asks {len(v)} times for {brief(k)}", getattr(v[-1].ev, "where", "") or "")
            else:
                ck.ok("asked", site)
