"""Development aid: write seeded/<id>/ from a seed description and check its demonstration.
Usage: mkseed.py SEEDFILE [filter]; SEEDFILE defines S = [dict(id, property, edits=[(file, old, new)], needs, breaks, cpp=..., [flags], [libs], [sh])].
The patched tree is a scratch copy; /repo is only read."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# exit 0: the property holds on the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
%s
"""
CC = """g++ -std=c++17 -w -O1 -Iinclude%s "$here/demo.cpp" -o "$tmp/demo" -llapack -lblas%s || exit 2
cd "$tmp" && timeout 60 ./demo
"""
MPI = " -DTAT_USE_MPI -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"


def one(s):
    sid = s["id"]
    d = os.path.join(here, "seeded", sid)
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + t, shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=t, check=True)
        for (f, o, n) in s["edits"]:
            x = open(t + "/" + f).read()
            if x.count(o) != s.get("count", 1) and x.count(o) != 1:
                return sid, "EDIT matches %d times in %s: %r" % (x.count(o), f, o[:60])
            open(t + "/" + f, "w").write(x.replace(o, n, 1))
        diff = subprocess.run(["git", "diff"], cwd=t, stdout=subprocess.PIPE, check=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(diff)
        if "cpp" in s:
            open(d + "/demo.cpp", "w").write(s["cpp"])
        for k, v in s.get("files", {}).items():
            open(d + "/" + k, "w").write(v)
        sh = s.get("sh")
        if sh is None:
            mpi = s.get("mpi", False)
            sh = CC % (s.get("flags", "") + (MPI if mpi else ""), " -lmpi_cxx -lmpi" if mpi else "")
        open(d + "/demo.sh", "w").write(SH % sh)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        out = "clean rc=%d patched rc=%d %s" % (a.returncode, b.returncode, "ok" if a.returncode == 0 and b.returncode not in (0, 2) else "*** BAD\n" + a.stdout[-1500:] + "\n---\n" + b.stdout[-1500:])
        if s.get("check"):
            r = subprocess.run(["python3", "checks/" + s["check"]], cwd=here, env=dict(os.environ, VERIF_REPO=t, VERIF_EVIDENCE=t + "/ev"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out += "\n   check rc=%d %s" % (r.returncode, "caught" if r.returncode == 1 else "*** MISSED" + r.stdout[-600:])
            if r.returncode == 1:
                out += " " + r.stdout.splitlines()[0][:200]
        return sid, out
    finally:
        shutil.rmtree(t)


g = runpy.run_path(sys.argv[1])
flt = sys.argv[2] if len(sys.argv) > 2 else ""
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [s for s in g["S"] if flt in s["id"]]):
        print("%-28s %s" % r, flush=True)
