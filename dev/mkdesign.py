"""DESIGN.md from dev/design/*.md, spec.py, known_findings.json and seeded/*/meta.json."""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import spec
D = H + "/dev/design/"
out = open(D + "head.md").read() + open(D + "props.md").read()
out += "\n## Properties that static analysis does not decide here\n\n"
for p in spec.PROPS:
    if p["na"]:
        out += "* **%s %s**: %s\n" % (p["id"], p["title"], p["na"])
kf = json.load(open(H + "/known_findings.json"))
out += "\n## Genuine defects found\n\nEach was first reproduced with a small program against the real code (several under AddressSanitizer) and then repaired by one minimal\ncommit; the list is `known_findings.json`. A `fixed` entry suppresses nothing.\n\n"
for k in kf:
    w = k["what"]
    if k["status"] == "fixed":
        w = w.split(" ", 3)[3]
        out += "* %s, fixed in `%s`: %s\n" % (k["property"], k["commit"], w)
    else:
        out += "* %s, **recorded, not repaired** (key `%s`): %s\n" % (k["property"], k["key"], w)
out += "\n## Planted bugs and what catches them\n\nAll compile, pass the repository's 61 tests and come with a demonstration. Each was caught by the check of its own property when this table\nwas written (`vcheck --bug ID`).\n\n| id | needs | breaks | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"], m["property"])
out += "\n" + open(D + "tail.md").read()
open(H + "/DESIGN.md", "w").write(out)
