#!/usr/bin/env python3
"""Run the checks against textual edits of a scratch copy of the source (development aid).

tools/corpus/*.txt hold entries:
  === <id> <bug|same> <comma separated property ids, or *>
  --- <file below unidist/>
  <<<<
  old text
  ====
  new text
  >>>>
'bug': at least one of the properties must report; 'same': no check may report.
"""
import concurrent.futures as cf
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "corpus", "*.txt"))):
        txt = open(f).read()
        for blk in re.split(r"^=== ", txt, flags=re.M)[1:]:
            head, body = blk.split("\n", 1)
            mid, kind, props = head.split(None, 2)
            edits = []
            cur = None
            for m in re.finditer(r"^--- (\S+)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$", body, flags=re.M | re.S):
                if m.group(1):
                    cur = m.group(1)
                else:
                    edits.append((cur, m.group(2), m.group(3)))
            out.append((mid, kind, props.split(","), edits))
    return out


def all_props():
    return sorted(p[:-3].upper() for p in os.listdir(os.path.join(VERIF, "sa", "checks")) if re.fullmatch(r"c\d\d\.py", p))


def one(entry, only=None):
    mid, kind, props, edits = entry
    d = tempfile.mkdtemp(prefix="corpus")
    try:
        shutil.copytree("/repo/unidist", d + "/unidist")
        for f, old, new in edits:
            p = os.path.join(d, "unidist", f)
            s = open(p).read()
            if s.count(old) != 1:
                return mid, kind, f"EDIT-FAILS ({s.count(old)} matches in {f}): {old[:60]!r}", ""
            open(p, "w").write(s.replace(old, new))
            if p.endswith(".py"):
                try:
                    compile(open(p).read(), p, "exec")
                except SyntaxError as e:
                    return mid, kind, f"SYNTAX {e}", ""
        todo = props if kind == "bug" and props != ["*"] else all_props()
        if only:
            todo = [p for p in todo if p in only]
        hits, errs, det = [], [], ""
        for pid in todo:
            if pid not in all_props():
                continue
            r = subprocess.run([sys.executable, VERIF + "/run_check.py", pid, "--root", d, "--evidence", d + "/ev"], capture_output=True, text=True)
            if r.returncode == 1:
                hits.append(pid)
                det += "\n".join(l[:230] for l in r.stdout.splitlines() if "[" in l)[:600] + "\n"
            elif r.returncode != 0:
                errs.append(f"{pid}:rc{r.returncode}")
                det += (r.stdout + r.stderr)[-600:]
            elif kind == "same":
                und = [l for l in r.stdout.splitlines() if "undecided:" in l]
                if und:
                    det += f"{pid}: {len(und)} undecided, e.g. {und[0][:150]}\n"
            elif kind == "bug":
                det += "\n".join(l[:200] for l in r.stdout.splitlines() if "undecided:" in l)[:600]
        if kind == "bug":
            v = "caught " + ",".join(hits) if hits else "MISSED"
        else:
            v = "quiet" if not hits else "FALSE-ALARM " + ",".join(hits)
        if errs:
            v += " ERR " + ",".join(errs)
        return mid, kind, v, det
    finally:
        shutil.rmtree(d)


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = [a[6:] for a in sys.argv[1:] if a.startswith("-only=")]
    only = only[0].split(",") if only else None
    verbose = "-v" in sys.argv
    es = [e for e in load() if not sel or any(re.search(s, e[0]) for s in sel)]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda e: one(e, only), es))
    bad = 0
    for mid, kind, v, det in res:
        flag = "MISSED" in v or "FALSE" in v or "ERR" in v or "EDIT" in v or "SYNTAX" in v
        bad += flag
        print(f"{'!!' if flag else '  '} {mid:34} {kind:5} {v}")
        if verbose or flag or (kind == "same" and det):
            print("\n".join("       " + l for l in det.splitlines()))
    print(f"{len(res)} entries, {bad} to look at")


if __name__ == "__main__":
    main()
