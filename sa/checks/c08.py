"""Protocol conformance through the code itself: all processes of an MPI job are interpreted
together, what one sends on the communicator is what the other receives, under several
orders of delivery; whatever does not fit shows as a receive that is never served, a message
that is never received, a buffer of another size or an error in the event loop."""
from ..front import *
from ..interp import NONE, app, const
from ..scen import ACTORS, CLEANUPS, POOL, SHUTDOWNS, WAITS, plain, schedules, wstr
from ..world import STOP, World, value

TECHNIQUE = "path-sensitive interprocedural abstract interpretation of the source (composition of the abstract semantics of all MPI processes through their messages, term domain)"


def check(ck):
    ck.rule("consumed", "When all processes have come to rest, every message has been received: every part of every operation, replies included.")
    ck.rule("served", "When all processes have come to rest, none waits for a particular message or reply: workers and monitors wait for the next operation, the driver has finished.")
    ck.rule("size", "A buffer is received into one of the size that was sent, raw bytes as raw bytes and objects as objects.")
    ck.rule("handled", "No event loop ends with an error: each operation received is handled, and its payload has the fields that are read.")
    ck.rule("decoded", "What is received is decoded to what was sent.")
    jobs = []
    for s in POOL + WAITS + ACTORS + SHUTDOWNS + CLEANUPS:
        for i, (o, sl) in enumerate(schedules(ck.tier)):
            site = f"{s.name}/{i}"
            jobs.append(("served", site, lambda k, site=site, s=s, o=o, sl=sl: conform(k, site, s, s.cluster(k, o, sl).go())))
    ck.pguard(jobs)


def conform(ck, site, s, c):
    for r, p in c.paths.items():
        w = c.worlds[r]
        role = "driver" if r == 0 else "monitor" if r in c.monitors else "worker"
        if p.outcome == "cut":
            ck.unk("served", site, f"{role} {r} not followed to its end")
            continue
        if World.size_problem(p):
            ck.bad("size", site, f"{role} {r}: {World.size_problem(p)}", wstr(p))
        else:
            ck.ok("size", site)
        if p.outcome == "raise" and p.value == STOP:
            if World.idle(p) and r != 0 and not s.ends:
                ck.ok("served", site)
            elif s.ends and World.idle(p) and r != 0:
                ck.bad("served", site, f"{role} {r} is never told to exit", wstr(p))
            else:
                ck.bad("served", site, f"{role} {r} waits forever: {World.why(p)}", wstr(p))
        elif p.outcome == "raise":
            ck.bad("handled", site, f"{role} {r} ends with {brief(p.value)}", wstr(p))
        elif r == 0 or s.ends:
            ck.ok("served", site)
            ck.ok("handled", site)
        else:
            ck.bad("handled", site, f"{role} {r} leaves its event loop", wstr(p))
        g = next((t for e, _ in walk(p.events) if e.kind == "call" for t in subterms((tuple(a[1] for a in e.args or () if len(a) > 1),)) if t and t[0] == "app" and t[1] == "garbled"), None)
        if g is not None:
            ck.bad("decoded", site, f"{role} {r} decodes something else than what was encoded: {brief(g)}", wstr(p))
        else:
            ck.ok("decoded", site)
        left = w.left(p)
        if s.loose:  # messages between workers may be overtaken by the shutdown, but only as a whole
            first = {}
            for m in left:
                first.setdefault(value(m.src), m)
            left = [m for m in first.values() if value(m.tag) != w.optag]
        if not left:
            ck.ok("consumed", site)
        elif p.outcome == "raise" and p.value != STOP:
            pass
        else:
            m = left[0]
            ck.bad("consumed", site, f"{role} {r} never receives {m}", getattr(m.ev, "where", "") or "")
