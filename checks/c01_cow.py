import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import report
from ir import REPO
from own import Own, write_capable, HANDLE_RE
from targets import tensor_progs
import re


def short(info):
    return re.sub(r"<.*", "", info.q)


def body(c):
    c.rules.append("ownership dataflow: every write-capable access to shared tensor storage is dominated by proof that the handle is the only owner")
    c.rules.append("type rule: the storage class holds only values (no pointer, reference or shared handle), so copying it is deep")
    c.rules.append("type rule: const access through the handle yields const storage")
    c.assumptions += ["std:: containers and shared_ptr behave as specified", "references handed to the caller by block()/at() are used before the tensor is copied again"]
    for p in tensor_progs(c.thorough):
        o = Own(p)
        called, api = set(), set()
        for f in p.fns:
            inrepo = f.info.file.startswith(REPO + "/")
            for n in f.calls():
                r = p.resolve(n)
                if r is not None:
                    (called if inrepo else api).add(r.id)
            # functions referenced without being called (passed as pointers, lambdas)
        for f in p.repo_fns():
            if f.info.id in api or (f.info.id not in called and not f.info.is_lambda):
                c.count("entry functions")
                o.analyze(f, frozenset())
        c.count("functions", len(p.repo_fns()))
        for (n, u, path) in o.accesses.values():
            nonconst = not n.callee.ret.startswith("const")
            w = write_capable(o, n, not nonconst)
            c.count("storage accesses")
            if w is None:
                continue
            c.count("write-capable accesses")
            if u:
                c.sample("%s in %s: handle proved unique" % (p.rel(n.loc), short(n.fn.info)))
            else:
                c.violation("%s@%s" % (short(n.fn.info), w.k + (":" + w.callee.name if w.is_call() and w.callee else "")), n.loc, "write-to-possibly-shared-storage",
                            "%s modifies tensor storage (line %d) that another tensor may share: no path condition or fresh allocation makes the handle unique" % (n.fn.info.pretty, w.line))
        # type rules
        for r in p.records:
            if r["q"] in ("TAT::Core", "TAT::Singular") or r["q"].startswith("TAT::") and r["q"].endswith("Edge"):
                for fl in r["fields"]:
                    t = p.types[fl["t"]]
                    if "is_pointer" in p.types[r["t"]]:
                        continue
                    c.count("storage fields")
                    if r["q"] in ("TAT::Core", "TAT::Singular") and (t.endswith("*") or t.endswith("&") or "shared_ptr" in t or "weak_ptr" in t or "reference_wrapper" in t):
                        c.violation("field:%s::%s" % (r["q"], fl["n"]), "%s:%d" % (p.files[r["f"]], fl["l"]), "storage-holds-alias", "field %s of %s has aliasing type %s: copies of the storage share data" % (fl["n"], r["q"], t[:80]))
            t = p.types[r["t"]]
            if HANDLE_RE.match(t):
                for m in r["methods"]:
                    fi = p.fninfo[m["fn"]]
                    if fi.is_const and re.match(r"^TAT::Core<.*> ?[*&]$", fi.ret):
                        c.violation("handle:%s" % fi.name, fi.loc, "const-handle-gives-mutable-storage", "%s is const but returns mutable storage" % fi.pretty)
                c.count("handle types")
    c.need("write-capable accesses", 30)
    c.need("storage accesses", 300)
    c.need("storage fields", 4)
    c.need("handle types", 2)


report.main("C01", "interprocedural ownership dataflow over the clang CFG of instantiated templates", body)
