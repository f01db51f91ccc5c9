#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every module sa/checks/cNN.py."""
import json, os, ast

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "N01": "Liveness over all schedules and numbers of workers: whether a blocked retrieval is eventually served depends on run-time scheduling, nesting depth and free workers, which no static argument in reach bounds. The safety conditions it rests on are claimed as C08, C10 and C14.",
    "N02": "Equality after pickling is decided by third-party code (cloudpickle, pickle5) and by user-defined reduce methods, which are not in this repository's source. The part unidist contributes is claimed as C07 and C19.",
    "N03": "A quantitative bound over unbounded histories and object sizes; static analysis here can decide what is dropped and when (C09, C11), not how much is alive.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(V, "sa", "checks", p.lower() + ".py")
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif not os.path.exists(f):
        na.append({"property": p, "reason": "The static check for this property is not built yet."})
    else:
        t = ast.parse(open(f).read())
        ns = {}
        for n in t.body:
            if isinstance(n, ast.Assign) and n.targets[0].id in ("TECHNIQUE", "NOTE") if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
                ns[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({
            "property": p,
            "quick_cmd": f"python3 run_check.py {p}",
            "thorough_cmd": f"python3 run_check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": ns.get("TECHNIQUE", "path-sensitive interprocedural abstract interpretation of the source (value-flow terms, loop summaries)"),
            "level": "other",
            "level_note": ns.get("NOTE", "") + ("" if not ns.get("NOTE") else " ") + "Decided from the source for all inputs and paths the abstract semantics covers; trusts the model of Python, the standard library and the third-party calls in sa/interp.py. A construct the analysis cannot judge precisely is reported as undecided in the evidence, never as a violation.",
        })
json.dump({
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "Pure static analysis: no check imports or runs unidist. No hooks in /repo. Fixes of genuine defects and unrepaired findings are listed in known-findings.txt.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
