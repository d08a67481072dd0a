"""C15: dimensions, element counts and offsets are never held in a type narrower than 64 bits.

Every conversion, arithmetic operation, loop bound and standard algorithm of the instantiated
library code is inspected.  A 64-bit quantity may become narrower only if it counts the entries of
a list of names, edges, labels or operators (a rank), or if it is a dimension handed to BLAS/LAPACK,
whose interface takes `int`; such an int may not be multiplied or added up before it is widened."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import report
from ir import Node, REPO, extract_many
from targets import tensor_jobs, square_jobs

W = {"unsigned long": 64, "long": 64, "unsigned long long": 64, "long long": 64, "int": 32, "unsigned int": 32, "short": 16,
     "unsigned short": 16, "signed char": 8, "unsigned char": 8, "char": 8, "__int128": 128, "unsigned __int128": 128}
CASTS = ("ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "InitListExpr")
KINDS = ("gesvd", "geqrf", "gelqf", "orgqr", "orglq", "ungqr", "unglq", "gesv", "gemm", "gemm_batch")
SCALAR_EL = re.compile(r"^(?:const )?(?:[\w]+::)*(vector|span|basic_string|initializer_list|deque|no_initialize\w*|array)<\s*(const )?(float|double|long double|std::complex<\w+>|char|std::byte|unsigned char)\b")
WIDE_IT = re.compile(r"(\b(unsigned )?long( long)?( const)? ?\*|__normal_iterator<(const )?(unsigned )?long\b)")
RANK_DIFF = ("std::distance",)


def base(t):
    return t.replace("const ", "").replace("volatile ", "").rstrip("& ").strip()


def width(t):
    return W.get(base(t))


def is_blas(c):
    return c is not None and c.name.endswith("_") and c.name[:1] in "sdcz" and c.name[1:-1] in KINDS


def reaching(p):
    direct, callers = set(), {}
    for f in p.repo_fns():
        if f.nocfg:
            continue
        for n in f.calls():
            c = p.resolve(n)
            if c is None:
                continue
            if is_blas(c):
                direct.add(f.info.id)
            if c.body is not None:
                callers.setdefault(c.id, set()).add(f.info.id)
    out, st = set(direct), list(direct)
    while st:
        for y in callers.get(st.pop(), ()):
            if y not in out:
                out.add(y)
                st.append(y)
    return out


class Prog15:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.blas = reaching(p)
        self.defs = {}      # variable -> expressions assigned to it (any function)
        self.opaque = set()  # variables written through a reference or address
        self.bound = set()   # second parts of (label, dimension) pairs
        for f in p.fns:
            for n in f.nodes():
                if n.k == "DeclStmt":
                    for d in n.d["ds"]:
                        if d.get("init", -1) is not None and d.get("init", -1) >= 0:
                            self.defs.setdefault(d["v"], []).append(f.node(d["init"]))
                        for b in d.get("bindings", []):
                            if b.get("e", -1) >= 0:
                                self.defs.setdefault(b["v"], []).append(f.node(b["e"]))
                        if d.get("bindings") and re.search(r"(pair|tuple)<(const )?TAT::\w*Symmetry\w*, (const )?(unsigned )?long", self.p.types[self.p.vars[d["v"]]["t"]]):
                            self.bound |= {b["v"] for b in d["bindings"] if width(self.p.types[self.p.vars[b["v"]]["t"]]) == 64}
                elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                    l = n.kids[0].strip()
                    if l.k == "DeclRefExpr" and l.var is not None:
                        self.defs.setdefault(l.var, []).append(n.kids[1])
                elif n.k == "UnaryOperator" and n.op in ("++", "--", "post++", "post--", "++pre"):
                    pass
        for f in p.fns:
            if f.nocfg:
                continue
            for n in f.calls():
                c = p.resolve(n)
                if c is None or c.body is None:
                    continue
                for v, a in zip(c.params, n.params_args):
                    self.defs.setdefault(v, []).append(a)
        self.memo = {}
        self.sized = set()   # variables that give the size of a list of scalars
        for f in p.fns:
            for n in f.nodes():
                if n.is_call() and n.args:
                    c = p.resolve(n)
                    t = n.obj.type if n.obj is not None else n.type
                    if c is not None and (c.name in ("resize", "reserve") or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr")) and SCALAR_EL.match(t):
                        a = n.args[0].strip()
                        if a.k == "DeclRefExpr" and a.var is not None:
                            self.sized.add(a.var)

    # ---- is a 64-bit expression only a rank (length of a list), a constant or a small bounded number?
    def rank(self, n, depth=0):
        n = n.strip()
        if n.iv is not None:
            return True
        w = width(n.type)
        if w is not None and w < 32:
            return True
        key = (n.fn.info.id, n.id)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True  # cycles (x = x + 1) do not add anything
        r = self._rank(n, depth)
        self.memo[key] = r
        return r

    def _rank(self, n, depth):
        if depth > 12:
            return False
        k = n.k
        if k.endswith("CallExpr"):
            c = self.p.resolve(n)
            if c is None:
                return False
            if c.name in ("size", "length", "count") and n.obj is not None:
                return not SCALAR_EL.match(n.obj.type)
            if c.q in ("std::size",) and n.args:
                return not SCALAR_EL.match(n.args[0].type)
            if c.q in ("std::distance", "std::count_if", "std::count"):
                return bool(n.args) and not re.search(r"(float|double|complex<\w+>|char) ?\*", n.args[0].type)
            if c.q in ("std::min", "std::max"):
                return all(self.rank(a, depth + 1) for a in n.args[:2])
            if c.name in ("operator-",) and len(n.args) == 2:  # iterator difference
                return not re.search(r"(float|double|complex<\w+>|char)( const)? ?\*", n.args[0].type)
            if c.name in ("operator[]", "at", "front", "back", "operator*", "operator->", "find", "second", "get"):
                return self.container_rank(n, depth)
            if c.body is not None and c.body.blocks:
                rets = [m for m in c.body.nodes() if m.k == "ReturnStmt" and m.kids]
                return bool(rets) and all(self.rank(m.kids[0], depth + 1) for m in rets)
            return False
        if k == "UnaryExprOrTypeTraitExpr":
            return True
        if k == "BinaryOperator":
            a, b = n.kids
            if n.op in ("%", "&"):
                return self.rank(a, depth + 1) or self.rank(b, depth + 1)
            if n.op == "/":
                return self.rank(a, depth + 1)
            if n.op in (",",):
                return self.rank(b, depth + 1)
            return self.rank(a, depth + 1) and self.rank(b, depth + 1)
        if k == "UnaryOperator":
            return self.rank(n.kids[0], depth + 1)
        if k == "ConditionalOperator":
            return self.rank(n.kids[1], depth + 1) and self.rank(n.kids[2], depth + 1)
        if k == "DeclRefExpr" and n.var is not None:
            v = self.p.vars[n.var]
            if v["k"] in ("param",) and n.var not in self.defs:
                return False
            ds = self.defs.get(n.var, [])
            if n.var in self.bound:
                return False
            if not ds:
                return False
            return all(self.rank(d, depth + 1) for d in ds)
        return False

    def container_rank(self, n, depth):
        """Elements of a list of small integers (ranks, counters) kept in a narrow container."""
        o = n.obj if n.obj is not None else (n.args[0] if n.args else None)
        if o is None:
            return False
        m = re.search(r"(?:vector|array|set|deque)<(?:const )?([a-z ]+?)\s*[,>]", o.type)
        return bool(m) and W.get(m.group(1).strip(), 64) < 64

    # ---- positive evidence that a 64-bit expression is an element count, dimension or offset
    def extent(self, n, depth=0):
        n = n.strip()
        if n.iv is not None or depth > 8:
            return False
        k = n.k
        if k.endswith("CallExpr"):
            c = self.p.resolve(n)
            o = n.obj
            if c is None:
                return False
            if c.name in ("size", "length") and o is not None:
                return bool(SCALAR_EL.match(o.type))
            if c.name in ("at", "operator[]") and o is not None:
                return bool(re.search(r"map<TAT::\w*Symmetry\w*, (unsigned )?long|vector<(const )?(unsigned )?long", o.type))
            if c.q in ("std::min", "std::max"):
                return any(self.extent(a, depth + 1) for a in n.args[:2])
            return False
        if k == "MemberExpr":
            return n.d.get("m") == "second" and bool(n.kids) and bool(re.search(r"pair<(const )?TAT::\w*Symmetry\w*, (unsigned )?long", n.kids[0].type))
        if k == "ArraySubscriptExpr":
            return True
        if k == "BinaryOperator":
            return any(self.extent(x, depth + 1) for x in n.kids)
        if k == "DeclRefExpr" and n.var is not None:
            if n.var in self.sized or n.var in self.bound:
                return True
            return any(self.extent(d, depth + 1) for d in self.defs.get(n.var, ()))
        return False

    # ---- is a narrow integer a dimension (made from a 64-bit extent)?
    def extent32(self, n, depth=0, seen=None):
        n = n.strip()
        if n.iv is not None or depth > 8:
            return False
        seen = seen if seen is not None else set()
        if n.k == "DeclRefExpr" and n.var is not None:
            if n.var in seen:
                return False
            seen.add(n.var)
            for d in self.defs.get(n.var, ()):
                if self.from_wide(d, depth, seen):
                    return True
            return False
        return self.from_wide(n, depth, seen)

    def from_wide(self, d, depth, seen):
        x = d
        while True:
            if x.k in CASTS and len(x.kids) == 1:
                a = x.kids[0]
                if width(a.type) == 64 and (width(x.type) or 64) < 64:
                    return not self.rank(a)
                x = a
                continue
            break
        s = d.strip()
        if s.iv is not None:
            return False
        if width(s.type) == 64:
            return not self.rank(s)
        if s.k == "DeclRefExpr":
            return self.extent32(s, depth + 1, seen)
        if s.k in ("BinaryOperator", "ConditionalOperator", "UnaryOperator"):
            if s.k == "BinaryOperator" and s.op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                return False
            return any(self.extent32(k, depth + 1, seen) for k in s.kids[(1 if s.k == "ConditionalOperator" else 0):])
        if s.k.endswith("CallExpr"):
            c = self.p.resolve(s)
            if c is not None and c.q in ("std::min", "std::max"):
                return any(self.extent32(a, depth + 1, seen) for a in s.args[:2])
        if s.k == "ArraySubscriptExpr":
            return False
        return False


def label(f):
    return re.sub(r"<.*", "", f.info.q) if not f.info.is_lambda else "lambda in " + f.info.file.split("/")[-1]


def run(c, p):
    P = Prog15(c, p)
    for f in p.repo_fns():
        if f.nocfg:
            continue
        c.count("functions")
        where = label(f)
        for n in f.nodes():
            t = n.type
            if n.k in CASTS and n.k != "InitListExpr" and len(n.kids) == 1:
                a, b = width(n.kids[0].type), width(t)
                if a and b and a >= 64 and b < 64 and n.iv is None and base(t) != "bool":
                    c.count("narrowing conversions")
                    src = n.kids[0]
                    if P.rank(src):
                        c.sample("%s: a list length becomes %s in %s" % (n.loc.replace(REPO + "/", ""), t, where))
                        continue
                    if b == 32 and f.info.id in P.blas:
                        c.count("dimensions handed to BLAS or LAPACK")
                        continue
                    c.violation("narrow:%s:%s" % (where, base(t)), n.loc, "narrowing",
                                "a 64-bit size, dimension or offset is converted to %s in %s" % (base(t), where))
            elif n.k == "CompoundAssignOperator" and n.op in ("+=", "-=", "*=", "<<=", "|="):
                l, r = n.kids
                wl, wr = width(l.type), width(r.type)
                if wl and wl < 64:
                    c.count("narrow arithmetic")
                    if (wr == 64 and not P.rank(r)) or (wl >= 16 and n.op in ("*=", "<<=", "+=") and P.extent32(r)):
                        c.violation("accumulate:%s:%s" % (where, base(l.type)), n.loc, "narrow-accumulator",
                                    "sizes or dimensions are accumulated in a variable of type %s in %s" % (base(l.type), where))
            elif n.k == "BinaryOperator" and n.op in ("*", "+", "<<"):
                w = width(t)
                if w and w <= 32 and n.iv is None:
                    c.count("narrow arithmetic")
                    if any(P.extent32(k) for k in n.kids):
                        c.violation("product:%s:%s" % (where, n.op), n.loc, "narrow-product",
                                    "dimensions are combined by %s in %s in %s: the result exceeds it for blocks of 2^31 elements" % (n.op, base(t), where))
            elif n.k == "BinaryOperator" and n.op in ("<", "<=", "!=", ">", ">="):
                a, b = n.kids
                for x, y in ((a, b), (b, a)):
                    xs = x.strip()
                    wx, wy = width(xs.type), width(y.strip().type)
                    if not (wx and wy and wx < 64 and wy == 64) or xs.iv is not None:
                        continue
                    if xs.k != "DeclRefExpr" or xs.var is None or not stepped(f, xs.var):
                        continue
                    c.count("loop bounds")
                    if P.extent(y) and not P.rank(y):
                        c.violation("counter:%s:%s" % (where, base(xs.type)), n.loc, "narrow-counter",
                                    "a counter of type %s runs to a 64-bit size in %s" % (base(xs.type), where))
            elif n.is_call():
                std_narrowing(c, p, f, n, where)
    for r in p.records:
        if not r["q"].startswith(("TAT::", "square::")):
            continue
        for fl in r["fields"]:
            ty = p.types[fl["t"]] if isinstance(fl.get("t"), int) else ""
            m = re.search(r"map<TAT::\w*Symmetry\w*, ([a-z ]+?)\s*[,>]", ty)
            if m:
                c.count("dimension tables")
                if W.get(m.group(1), 0) < 64:
                    c.violation("table:%s::%s" % (r["q"], fl["n"]), "%s:%d" % (p.files[r["f"]], fl["l"]), "narrow-table",
                                "the dimensions of %s are kept as %s" % (r["q"], m.group(1)))


def stepped(f, v):
    for n in f.nodes():
        if n.k == "UnaryOperator" and n.op and "++" in n.op and n.kids[0].strip().k == "DeclRefExpr" and n.kids[0].strip().var == v:
            return True
        if n.k == "CompoundAssignOperator" and n.op == "+=" and n.kids[0].strip().k == "DeclRefExpr" and n.kids[0].strip().var == v:
            return True
    return False


def std_narrowing(c, p, f, n, where):
    cal = p.resolve(n)
    if cal is None or not cal.q.startswith("std::"):
        return
    nm = cal.q
    if re.match(r"std::(accumulate|reduce|inner_product|transform_reduce)$", nm) and n.args:
        c.count("standard reductions")
        w = width(n.type)
        if w and w < 64 and WIDE_IT.search(n.args[0].type):
            c.violation("reduce:%s" % where, n.loc, "narrow-accumulator", "%s adds or multiplies 64-bit sizes in a value of type %s in %s" % (nm, base(n.type), where))
        return
    if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or cal.name in ("assign", "insert"):
        ty = n.type if n.k != "CXXMemberCallExpr" else (n.obj.type if n.obj is not None else "")
        m = re.match(r"(?:const )?std::(?:vector|deque|array|list|set|basic_string)<([a-z ]+?)\s*[,>]", ty)
        if m and m.group(1) in W and W[m.group(1)] < 64 and n.args and WIDE_IT.search(n.args[0].type):
            c.violation("copy:%s" % where, n.loc, "narrow-table", "64-bit sizes are copied into %s in %s" % (ty, where))


def body(c):
    c.rules += [
        "no 64-bit size, dimension or offset is converted to a narrower integer, except list lengths (ranks) and matrix dimensions handed to BLAS/LAPACK",
        "no dimension is multiplied, added up or shifted in a type narrower than 64 bits",
        "no loop counter narrower than its 64-bit bound, unless the bound is a list length",
        "tables of dimensions are 64 bit; standard reductions over sizes accumulate in 64 bits",
    ]
    c.assumptions += ["a tensor has fewer than 65536 edges and a single matrix dimension handed to BLAS or LAPACK is below 2^31"]
    for p in extract_many(tensor_jobs(c.thorough) + square_jobs(c.thorough)):
        run(c, p)
    c.need("functions", 300)
    c.need("narrowing conversions", 10)


report.main("C15", "static width analysis", body)
