import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import re
import report
import pystate
from ir import REPO, Node, extract_many
from own import Own, write_capable
from targets import tensor_jobs, square_jobs, H, inst

# Reviewed process-wide state.  value: (reason, regex of functions through which it may be modified; None = anyone in its module)
STATE = {
    "TAT::fast_name_dataset": ("registry that interns edge names (append-only)", None),
    "TAT::pmr::default_resource": ("scratch memory resource, set and restored by a scope guard", None),
    "TAT::pmr::new_delete_resource_object": ("stateless", None),
    "TAT::timer_stack": ("timing only, no effect on results", None),
    "TAT::mpi": ("rank and size of the process, fixed at start", None),
    "square::random::engine": ("the random engine is the documented source of randomness", None),
    "lazy::default_graph": ("registry of lazy nodes", None),
    "lazy::active_graph": ("currently selected registry", None),
}
STATE_RE = [(re.compile(r"^TAT::\w+_guard$"), "timing only, no effect on results")]
# standard output belongs to the program: only the explicit printing helpers hand it out
STDOUT_OK = re.compile(r"^TAT::mpi_t::(out_one|out_rank)$")
STDOUT_FN = {"printf", "puts", "putchar", "vprintf", "fputs", "fwrite", "fprintf"}


def body(c):
    c.rules += [
        "every object with static storage that library code modifies is one of the reviewed registries; no function that takes arguments keeps a static local",
        "no container with static storage is keyed by an address it does not own",
        "no tensor operation writes to standard output",
        "Python package: no default argument and no table shared by objects is modified, except a memo whose entry keeps its key object alive",
    ]
    c.assumptions.append("what BLAS, LAPACK and MPI keep internally is outside the analysis")
    pystate.run(c)
    c.need("Python functions", 20)
    jobs = tensor_jobs(c.thorough) + square_jobs(c.thorough) + [(os.path.join(os.path.dirname(H), "lazy_all.cpp"), [], False)]
    for p in extract_many(jobs):
        o = Own(p)
        for r in p.records:
            if not re.match(r"^TAT::(Tensor|Core|Singular|Edge|\w*Symmetry|\w*[sS]ymmetry\w*|FastName|\w*[eE]dge\w*)$", re.sub("<.*", "", r["q"])):
                continue
            for fl in r["fields"]:
                c.count("fields of value types")
                if fl.get("mut"):
                    c.violation("mutable:%s::%s" % (r["q"], fl["n"]), "%s:%d" % (p.files[r["f"]], fl["l"]), "state-kept-in-const-object",
                                "mutable field %s of %s: a read-only operation can change what a later operation on the same object returns" % (fl["n"], r["q"]))
        for f in p.repo_fns():
            c.count("functions")
            if f.nocfg:
                continue
            declared = set()
            for n in f.nodes():
                if n.k == "DeclStmt":
                    for d in n.d["ds"]:
                        v = p.vars[d["v"]]
                        if v["k"] == "static":
                            t = p.types[v["t"]]
                            c.count("static locals")
                            if v.get("ce"):
                                continue
                            dep = False
                            if d.get("init", -1) >= 0:
                                for x in f.node(d["init"]).walk():
                                    if x.k == "CXXThisExpr" or (x.k == "DeclRefExpr" and x.var is not None and p.vars[x.var]["k"] not in ("global", "static") and x.var != d["v"]
                                                                and not p.types[p.vars[x.var]["t"]].startswith("const ") ):
                                        dep = True
                                    elif x.k == "DeclRefExpr" and x.var is not None and p.vars[x.var]["k"] in ("local", "param", "binding") and not p.vars[x.var].get("ce") and x.var != d["v"]:
                                        dep = True
                            if not dep and t.startswith("const "):
                                continue
                            if not dep and not f.info.params and (f.info.cls is None or f.info.d.get("static")):
                                continue  # memo of a constant: depends on nothing
                            c.violation("static:%s:%s" % (re.sub("<.*", "", f.info.q), v["n"]), n.loc, "state-kept-between-calls",
                                        "%s keeps the static local '%s', which depends on a call's arguments or is modifiable: a later call can observe an earlier one" % (f.info.pretty, v["n"]))
            for n in f.live_nodes():
                if n.k == "DeclRefExpr" or (n.k == "MemberExpr" and n.var is not None and "fn" not in n.d):
                    if n.var is None:
                        continue
                    v = p.vars[n.var]
                    if v["k"] != "global":
                        continue
                    q = v.get("q", v["n"])
                    if q in ("std::cout",):
                        c.count("uses of std::cout")
                        if f.info.file.startswith(REPO + "/include/TAT/") and not STDOUT_OK.match(re.sub(r"<[^<>]*>", "", f.info.q)):
                            c.violation("stdout:%s" % re.sub("<.*", "", f.info.q), n.loc, "writes-to-stdout", "%s uses standard output" % f.info.pretty)
                        continue
                    file = p.files[v["f"]]
                    if not file.startswith(REPO + "/"):
                        continue
                    t = p.types[v["t"]]
                    if t.startswith("const ") or v.get("ce"):
                        continue
                    c.count("uses of static objects")
                    w = write_capable(o, n)
                    if w is None:
                        continue
                    c.count("modifications of static objects")
                    base = re.sub(r"<.*?>(?=::)", "", q)
                    key = re.match(r"^(?:std::map|std::set|std::unordered_map|std::unordered_set)<([^,<>]*\*|unsigned long|long)[,>]", t)
                    m = re.match(r"^std::(?:unordered_)?(?:map|set)<((?:[^<>,]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*)", t)
                    if m and m.group(1).strip().endswith("*"):
                        c.violation("addrkey:" + base, n.loc, "table-keyed-by-address", "%s is indexed by the address of an object it does not keep alive: after the object is destroyed a new one at the same address gets the old entry" % q)
                        continue
                    if m and "shared_ptr" in m.group(1):
                        continue  # memo table that owns its keys
                    if q in STATE or any(r.match(q) for r, _ in STATE_RE):
                        c.sample("%s modified by %s: %s" % (q, re.sub("<.*", "", f.info.q), STATE.get(q, ("timing",))[0]))
                        continue
                    c.violation("state:" + base, n.loc, "hidden-state", "%s modifies %s, an object shared by all calls: results can depend on earlier calls" % (f.info.pretty, q))
                elif n.is_call():
                    cal = n.callee
                    if cal is not None and cal.name in STDOUT_FN and not cal.in_repo and f.info.file.startswith(REPO + "/include/TAT/"):
                        c.violation("stdout:%s" % re.sub("<.*", "", f.info.q), n.loc, "writes-to-stdout", "%s calls %s" % (f.info.pretty, cal.q))
    c.need("fields of value types", 20)
    c.need("functions", 2000)
    c.need("modifications of static objects", 5)
    c.need("uses of static objects", 20)
    c.need("uses of std::cout", 2)


report.main("C19", "effect analysis: who modifies objects with static storage", body)
