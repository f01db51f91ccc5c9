"""Obligations, evidence, known findings and the verdict of a check."""
import json
import os
import time
import traceback

from .program import AnalysisError, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Undecided(Exception):
    """The analysis met a construct it cannot judge precisely."""


class Check:
    """Collects the obligations of one property.

    An obligation is a rule applied to a site.  It is *discharged*, *violated*, or
    *undecided* when the abstract value or path in question is not precise enough to judge
    it (never reported as a violation).
    """

    def __init__(self, pid, tier="quick", root="/repo", prog=None):
        self.pid, self.tier = pid, tier
        self.prog = prog or Program(root)
        self.obs = []  # (rule, site, status, message, where)
        self.rules = {}
        self.analysed = set()
        self.paths = 0
        self.t0 = time.time()
        self.notes = []
        self.min_sites = 1

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, site, status, msg="", where=""):
        self.obs.append((rule, site, status, msg, where))
        return status

    def ok(self, rule, site, where=""):
        self.ob(rule, site, True, "", where)

    def bad(self, rule, site, msg, where=""):
        self.ob(rule, site, False, msg, where)

    def unk(self, rule, site, msg="", where=""):
        self.ob(rule, site, None, msg, where)

    def guard(self, rule, site, fn):
        """Run a sub-check; what it cannot analyse becomes an undecided obligation."""
        try:
            fn()
        except (AnalysisError, Undecided) as e:
            self.unk(rule, site, f"{type(e).__name__}: {e}")
        except RecursionError:
            self.unk(rule, site, "recursion limit")
        except Exception as e:  # a construct the analysis does not model
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unk(rule, site, f"internal: {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")

    def pguard(self, jobs):
        """Run independent sub-checks [(rule, site, function of a Check)] in parallel processes."""
        global _JOBS
        n = min(int(os.environ.get("VERIF_JOBS", "0") or 0) or os.cpu_count() or 1, 8, len(jobs))
        if n <= 1:
            for r, s, f in jobs:
                self.guard(r, s, lambda: f(self))
            return
        import concurrent.futures as cf
        import multiprocessing as mp
        _JOBS = (self, jobs)
        with cf.ProcessPoolExecutor(n, mp_context=mp.get_context("fork")) as ex:
            for obs, analysed, paths in ex.map(_job, range(len(jobs)), chunksize=1):
                self.obs += obs
                self.analysed |= analysed
                self.paths += paths
        _JOBS = None

    def note_interp(self, it, paths):
        self.analysed |= it.analysed
        self.paths += len(paths)


_JOBS = None


def _job(i):
    ck, jobs = _JOBS
    c = Check(ck.pid, ck.tier, prog=ck.prog)
    r, s, f = jobs[i]
    c.guard(r, s, lambda: f(c))
    return c.obs, c.analysed, c.paths


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            # known: property=<id> match=<rule>@<site> <description>
            f = line[len("known: "):].split(" ", 2)
            if len(f) == 3 and f[0] == f"property={pid}" and f[1].startswith("match="):
                out.append((f[1][len("match="):], f[2]))
    return out


def finish(ck, explanation, evdir=None):
    """Print the verdict, write the evidence; returns the exit code."""
    viol = {}
    for r, s, st, m, w in ck.obs:
        if st is False:
            viol.setdefault(f"{r}@{s}".replace(" ", "_"), []).append((m, w))
    known = known_findings(ck.pid)
    knownkeys = {k for k, _ in known}
    for k, d in known:
        if k in viol:
            print(f"KNOWN-FINDING: property={ck.pid} {d}")
    fresh = {k: v for k, v in viol.items() if k not in knownkeys}
    sites = {(r, s) for r, s, *_ in ck.obs}
    decided = {(r, s) for r, s, st, *_ in ck.obs if st is not None}
    und = [(r, s, m, w) for r, s, st, m, w in ck.obs if st is None]
    per_rule = {}
    for r in ck.rules:
        o = [x for x in ck.obs if x[0] == r]
        per_rule[r] = {
            "rule": ck.rules[r],
            "sites": len({x[1] for x in o}),
            "discharged": sum(1 for x in o if x[2] is True),
            "violated": sum(1 for x in o if x[2] is False),
            "undecided": sum(1 for x in o if x[2] is None),
        }
    cov = {
        "explanation": explanation,
        "modules_parsed": len(ck.prog.modules),
        "functions_analysed": len(ck.analysed),
        "paths_analysed": ck.paths,
        "obligations": len(ck.obs),
        "discharged": sum(1 for o in ck.obs if o[2] is True),
        "distinct_sites": len(sites),
        "undecided": [f"{r}@{s}: {m}" for r, s, m, w in und][:40],
        "rules": per_rule,
        "samples": [f"{r} @ {s} {w}".strip() for r, s, st, m, w in ck.obs[:12]],
        "known_findings": sorted(k for k in viol if k in knownkeys),
        "violations": {k: [f"{w} {m}".strip() for m, w in v] for k, v in fresh.items()},
    }
    ev = {
        "property": ck.pid,
        "tier": ck.tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "other",
        "coverage": cov,
        "wall_s": round(time.time() - ck.t0, 3),
    }
    d = evdir or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{ck.pid}.json"), "w") as h:
        json.dump(ev, h, indent=1)
    print(
        f"{ck.pid}: {len(ck.obs)} obligations at {len(sites)} sites, "
        f"{cov['discharged']} discharged, {len(und)} undecided, {len(fresh)} violated; "
        f"{len(ck.analysed)} functions, {ck.paths} paths, {ev['wall_s']} s"
    )
    for r, s, m, w in und:
        print(f"  undecided: {r} @ {s}: {m}")
    if fresh:
        rp = os.path.join(d, f"{ck.pid}.replay.txt")
        with open(rp, "w") as h:
            for k, v in sorted(fresh.items()):
                r = k.split("@")[0]
                for m, w in v:
                    h.write(f"{w}\n  site: {k}\n  rule: {ck.rules.get(r, '')}\n  {m}\n\n")
        for k, v in sorted(fresh.items()):
            for m, w in v[:3]:
                print(f"  {w}: [{k}] {m}")
        print(f"VIOLATION property={ck.pid} replay={rp}")
        return 1
    if len(decided) < ck.min_sites:
        print(f"{ck.pid}: only {len(decided)} sites could be decided, at least {ck.min_sites} are expected")
        return 2
    return 0
