"""Development aid: one tree with every behaviour-preserving edit (expected rc 0) of all mutation files that applies, for running all checks on it.
Usage: reftree.py DIR [extra.py ...]"""
import glob, os, runpy, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
d = sys.argv[1]
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
for s in ("include", "PyTAT", "square", "test", "examples", "docs"):
    shutil.copytree("/repo/" + s, d + "/" + s)
for s in ("CMakeLists.txt", "FindTAT.cmake", "README.md"):
    shutil.copy("/repo/" + s, d)
files = sys.argv[2:] or sorted(glob.glob(here + "/m[0-9]*.py"))
for mf in files:
    for m in runpy.run_path(mf)["M"]:
        name, file, old, new, exp = m[:5]
        if exp != 0:
            continue
        edits = [(file, old, new)] if not isinstance(file, list) else file
        if all(o in open(d + "/" + f).read() for f, o, n in edits):
            for f, o, n in edits:
                s = open(d + "/" + f).read().replace(o, n, 1)
                open(d + "/" + f, "w").write(s)
            print("applied", os.path.basename(mf), name)
        else:
            print("   skipped", os.path.basename(mf), name)
