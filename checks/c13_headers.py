import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import report
from ir import REPO, VERIF, MPI_INC, extract_many, AnalysisBroken
from targets import H, SQ, SYMS, SCALARS, inst

CLANG = "/usr/bin/clang++-18"
LAZY = os.path.join(VERIF, "harness", "lazy_all.cpp")


def compile_only(src, flags):
    r = subprocess.run([CLANG, "-fsyntax-only", "-std=c++17", "-w", "-Wno-c++11-narrowing", "-ferror-limit=5", "-I" + REPO + "/include"] + MPI_INC + flags + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    errs = [l for l in r.stdout.splitlines() if "error:" in l]
    if r.returncode:
        # well-formedness is what both compilers agree on: the build uses gcc
        g = subprocess.run(["g++", "-S", "-o", "/dev/null", "-O0", "-std=c++17", "-w", "-fmax-errors=5", "-I" + REPO + "/include"] + MPI_INC + flags + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if g.returncode == 0:
            return 0, []
    return r.returncode, errs


def body(c):
    c.rules += [
        "linkage rule: a namespace-scope function or variable defined in a public header with external linkage is inline, a template or constexpr (otherwise a second translation unit cannot be linked)",
        "linkage rule: no mutable namespace-scope variable of a public header has internal linkage or thread storage (otherwise every translation unit or thread has its own copy of the shared registry)",
        "type checking: the complete public API instantiates for every scalar and symmetry in every documented compile-time configuration",
    ]
    c.assumptions += ["a configuration counts as ill-formed when both clang 18 and gcc 13 reject it; MKL configurations are type-checked against the declarations the headers themselves contain"]
    configs = [
        ("default", []), ("mpi", ["-DTAT_USE_MPI"]), ("simple-nosymmetry", ["-DTAT_USE_SIMPLE_NOSYMMETRY"]), ("singular-matrix", ["-DTAT_USE_SINGULAR_MATRIX"]),
        ("simple-name", ["-DTAT_USE_SIMPLE_NAME"]), ("mkl-transpose", ["-DTAT_USE_MKL_TRANSPOSE"]), ("mkl-gemm-batch", ["-DTAT_USE_MKL_GEMM_BATCH"]),
        ("timer", ["-DTAT_USE_TIMER", "-DTAT_USE_MPI"]), ("valid-default", ["-DTAT_USE_VALID_DEFAULT_TENSOR"]), ("error-bits", ["-DTAT_ERROR_BITS=7"]), ("nothing-bits", ["-DTAT_NOTHING_BITS=7"]),
        ("caches", ["-DTAT_L1_CACHE=4096", "-DTAT_L2_CACHE=65536", "-DTAT_L3_CACHE=1048576", "-DTAT_USE_L3_CACHE"]),
    ]
    jobs = []
    if c.thorough:
        for name, fl in configs:
            for s in SCALARS:
                for y in SYMS:
                    jobs.append((name, H, fl + [inst([(s, y)])]))
    else:
        for i, (name, fl) in enumerate(configs):
            # every symmetry is instantiated in every configuration; scalars alternate
            jobs.append((name, H, fl + [inst([("double" if i % 2 else "float", "NoSymmetry"), ("cdouble", "U1Symmetry")])]))
            jobs.append((name, H, fl + [inst([("double", "FermiU1Symmetry"), ("cfloat" if i % 2 else "cdouble", "FermiZ2Symmetry")])]))
        for s in SCALARS:
            jobs.append(("default", H, ["-DTAT_USE_MPI", inst([(s, "Z2Symmetry"), (s, "FermiSymmetry")])]))
    jobs.append(("square", SQ, ["-DTAT_USE_MPI"]))
    jobs.append(("square+names", SQ, ["-DTAT_USE_MPI", "-DTAT_USE_SIMPLE_NAME"]))
    jobs.append(("lazy", LAZY, []))
    # positive control: a construct that must not compile
    with tempfile.TemporaryDirectory() as d:
        bad = os.path.join(d, "bad.cpp")
        open(bad, "w").write("#include <TAT/TAT.hpp>\nint x = TAT::Tensor<double, TAT::U1Symmetry>().no_such_member;\n")
        rc, errs = compile_only(bad, [])
        c.require(rc != 0 and errs, "the compiler accepts an ill-formed program")
    with ThreadPoolExecutor(8) as ex:
        for (name, src, fl), (rc, errs) in zip(jobs, ex.map(lambda j: compile_only(j[1], j[2]), jobs)):
            c.count("instantiation jobs")
            c.sample("%s %s: %s" % (name, " ".join(f for f in fl if "INST" in f)[:80], "well-formed" if rc == 0 else "ill-formed"))
            if rc:
                e = errs[0] if errs else "?"
                c.violation("compile:" + name, e.split(": ")[0], "configuration-does-not-compile", "configuration '%s' (%s): %s" % (name, " ".join(fl), e.split("error:")[-1].strip()[:200]))
    c.cov["configurations"] = len(configs) + 3
    # linkage
    progs = []
    if not c.viol:
        progs = extract_many([
            (H, [inst([("double", "FermiU1Symmetry"), ("cdouble", "NoSymmetry")]), "-DTAT_USE_MKL_TRANSPOSE", "-DTAT_USE_MKL_GEMM_BATCH", "-DTAT_USE_TIMER"], True),
            (H, [inst([("double", "NoSymmetry")]), "-DTAT_USE_SIMPLE_NAME", "-DTAT_USE_SIMPLE_NOSYMMETRY"], True),
            (H, [inst([("double", "NoSymmetry")]), "-DTAT_L1_CACHE=1", "-DTAT_USE_VALID_DEFAULT_TENSOR"], False),
            (SQ, [], True), (LAZY, [], False)])
    for p in progs:
        for d in p.decls:
            f = p.files[d["f"]]
            if not f.startswith(REPO + "/include/"):
                continue
            where = "%s:%d" % (f, d["l"])
            if d.get("lambda"):
                continue
            c.count("namespace-scope definitions")
            nm = d["q"]
            if d["kind"] == "var":
                if d["def"] and d["extern_linkage"] and not d["inline"] and not d["local"] and d["tsk"] in (0, 2) and not d.get("member_decl"):
                    c.violation("odr:" + nm, where, "non-inline-definition", "variable %s is defined in a header without inline: two translation units that include it cannot be linked" % nm)
                if not d["const"] and d["local"] and not d["visible"] and not d["tls"]:
                    c.violation("internal:" + nm, where, "per-unit-copy", "mutable static variable %s belongs to a function with internal linkage: every translation unit works on its own copy" % nm)
                elif not d["const"] and d["local"] and d["tls"]:
                    c.violation("tls:" + nm, where, "per-thread-copy", "mutable static variable %s is thread_local: every thread works on its own copy" % nm)
                if not d["const"] and not d["local"] and d["def"]:
                    c.count("mutable namespace-scope variables")
                    if not d["extern_linkage"]:
                        c.violation("internal:" + nm, where, "per-unit-copy", "mutable variable %s has internal linkage: every translation unit works on its own copy" % nm)
                    elif d["tls"]:
                        c.violation("tls:" + nm, where, "per-thread-copy", "mutable variable %s is thread_local: every thread works on its own copy" % nm)
            else:
                if d["extern_linkage"] and not d["inline"] and d["tsk"] in (0, 2) and d.get("fn") is not None:
                    fi = p.fninfo[d["fn"]]
                    if fi.body is None and not d.get("def"):
                        continue
                    if fi.d.get("extc"):
                        continue
                    c.violation("odr:" + nm, where, "non-inline-definition", "function %s is defined in a header without inline: two translation units that include it cannot be linked" % fi.pretty)
    if not c.viol:
        c.need("namespace-scope definitions", 500)
        c.need("instantiation jobs", 20)
        c.need("mutable namespace-scope variables", 10)


report.main("C13", "linkage analysis of header definitions and type checking of all configurations", body)
