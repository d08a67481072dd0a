"""Which instantiations of the library the analyses look at."""
import os
from ir import VERIF, REPO, extract_many

H = os.path.join(VERIF, "harness", "tensor_all.cpp")
SYMS = ["NoSymmetry", "Z2Symmetry", "U1Symmetry", "FermiSymmetry", "FermiZ2Symmetry", "FermiU1Symmetry"]
SCALARS = ["float", "double", "cfloat", "cdouble"]


def inst(pairs):
    return "-DHARNESS_INST=" + " ".join("INST(%s,%s)" % p for p in pairs)


PY_MACROS = ["-DTAT_USE_SIMPLE_NOSYMMETRY", "-DTAT_USE_SINGULAR_MATRIX"]


def tensor_jobs(thorough):
    jobs = [
        (H, [inst([("double", "NoSymmetry"), ("cdouble", "NoSymmetry"), ("double", "U1Symmetry")])], True),
        (H, [inst([("double", "FermiU1Symmetry"), ("cdouble", "FermiSymmetry")])], True),
        (H, [inst([("double", "NoSymmetry"), ("cdouble", "FermiU1Symmetry")])] + PY_MACROS, True),
    ]
    if thorough:
        for s in SCALARS:
            for macros in ([], PY_MACROS):
                for grp in (SYMS[:3], SYMS[3:]):
                    jobs.append((H, [inst([(s, y) for y in grp])] + macros, True))
        jobs.append((H, [inst([("double", "NoSymmetry"), ("double", "FermiU1Symmetry")]), "-DTAT_USE_SIMPLE_NAME"], True))
    return jobs


def tensor_progs(thorough):
    return extract_many(tensor_jobs(thorough))


SQ = os.path.join(VERIF, "harness", "square_all.cpp")


def square_jobs(thorough):
    jobs = [(SQ, [], True)]
    if thorough:
        jobs.append((SQ, ["-DTAT_USE_SIMPLE_NAME"], True))
        jobs.append((SQ, PY_MACROS, True))
    return jobs


def all_progs(thorough):
    return extract_many(tensor_jobs(thorough) + square_jobs(thorough))
