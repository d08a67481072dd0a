"""Development aid: apply textual mutations to a scratch copy of the sources and run a check on it.
Usage: mut.py MUTFILE [name-filter].  MUTFILE defines CHECK and M = [(name, file, old, new, expected rc)]."""
import os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = runpy.run_path(sys.argv[1])
flt = sys.argv[2] if len(sys.argv) > 2 else ""


def one(m):
    name, file, old, new, exp = m[:5]
    check = m[5] if len(m) > 5 else g["CHECK"]
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        for s in ("include", "PyTAT", "square", "test", "examples"):
            shutil.copytree("/repo/" + s, d + "/" + s)
        for s in ("CMakeLists.txt", "FindTAT.cmake", "README.md"):
            shutil.copy("/repo/" + s, d)
        shutil.copytree("/repo/docs", d + "/docs")
        edits = [(file, old, new)] if not isinstance(file, list) else file
        for (f, o, n) in edits:
            s = open(d + "/" + f).read()
            if s.count(o) < 1:
                return name, "NOT-APPLICABLE", f
            s = s.replace(o, n, 1)
            open(d + "/" + f, "w").write(s)
        r = subprocess.run(["python3", "checks/" + check], cwd=here, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == exp
        return name, "ok" if ok else "*** WRONG rc=%d expected %d" % (r.returncode, exp), "\n".join(l[:330] for l in r.stdout.splitlines()[:3 if ok else 8])
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "3"))) as ex:
    for r in ex.map(one, [m for m in g["M"] if flt in m[0]]):
        print("%-30s %s\n      %s" % r, flush=True)
