#!/usr/bin/env python3
"""mkseed.py FILE...: builds /verif/seeded/<id>/ from specs.

A spec: header lines `key: value` (id, property, backend, needs, breaks), then edits in the
corpus format (--- file / <<<< old ==== new >>>>), then `@@@@ demo.py` and the program.
With -t also runs the demonstration on the unchanged and on the changed tree."""
import json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Run with cwd = root of the repository.  Exit 0: the property holds for this scenario.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 RAY_USAGE_STATS_ENABLED=0 PYTHONPATH=$PWD UNIDIST_CPUS=4
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_tcp_if_include=lo OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated
S=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$S"' EXIT
R=$PWD; export DEMO_REPO=$R
cd "$S"
run() { # the program prints DEMO-OK as its last act when everything is as it should be
  timeout -k 5 120 "$@" > out 2> err; tail -n 15 err >&2; cat out
  grep -q DEMO-OK out
}
'''
RUN = {
    "py": 'run /opt/venv/bin/python "$D/demo.py"\n',
    "mpi": 'export UNIDIST_BACKEND=mpi UNIDIST_MPI_SHARED_OBJECT_STORE=False\nrun mpiexec -n 1 --oversubscribe /opt/venv/bin/python "$D/demo.py"\n',
    "mpis": 'export UNIDIST_BACKEND=mpi UNIDIST_MPI_SHARED_OBJECT_STORE=True\nrun mpiexec -n 1 --oversubscribe /opt/venv/bin/python "$D/demo.py"\n',
}


def parse(path):
    txt = open(path).read()
    head, rest = txt.split("--- ", 1)
    rest, demo = ("--- " + rest).split("@@@@ demo.py\n", 1)
    h = dict(re.match(r"(\w+): (.*)", l).groups() for l in head.strip().splitlines() if l.strip())
    edits = []
    for blk in re.split(r"^--- ", rest, flags=re.M)[1:]:
        f, body = blk.split("\n", 1)
        for m in re.finditer(r"<<<<\n(.*?)====\n(.*?)>>>>\n?", body, flags=re.S):
            edits.append((f.strip(), m.group(1), m.group(2)))
    return h, edits, demo


def build(path, test):
    h, edits, demo = parse(path)
    d = os.path.join(V, "seeded", h["id"])
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    c = os.path.join(w, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", c])
        for f, old, new in edits:
            p = os.path.join(c, "unidist", f)
            s = open(p).read()
            assert s.count(old) == 1, (h["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", c, "diff"], text=True)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(demo)
        b = h["backend"]
        open(os.path.join(d, "demo.sh"), "w").write(SH + (RUN[b] if b in RUN else f"export UNIDIST_BACKEND={b}\n" + RUN["py"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": h["property"], "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if test:
            if any(f.endswith((".cpp", ".pyx")) for f, *_ in edits):
                subprocess.call(["/opt/venv/bin/python", "setup.py", "-q", "build_ext", "--inplace"], cwd=c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
            z = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=c, capture_output=True, text=True)
            good = a.returncode == 0 and z.returncode != 0
            print(h["id"], "ok" if good else "BAD", a.returncode, z.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else "", "| with the change:", (z.stdout + z.stderr).strip()[-300:])
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    test = "-t" in sys.argv
    for p in [a for a in sys.argv[1:] if a != "-t"]:
        build(p, test)
