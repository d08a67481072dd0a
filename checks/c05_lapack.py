"""C05: every BLAS/LAPACK call gets matrices, strides, flags and workspaces that fit the buffers.

From every function without raw-pointer parameters that reaches a BLAS/LAPACK routine the calls are
followed into the kernels.  All arguments are evaluated symbolically (polynomials in the matrix
dimensions) for every case of the branch conditions they depend on; the shapes a buffer is used
with must agree with each other and with its size."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import report
from ir import Node, REPO
from gate import *
from loops import loops
from targets import H, inst, PY_MACROS
from ir import extract_many
sys.setrecursionlimit(20000)

PREFIX = {"float": "s", "double": "d", "std::complex<float>": "c", "std::complex<double>": "z"}
KINDS = ("gesvd", "geqrf", "gelqf", "orgqr", "orglq", "ungqr", "unglq", "gesv", "gemm")
ERR = ("TAT_error", "TAT_warning")


def routine(p, n):
    c = p.resolve(n)
    if c is None:
        return None
    nm = c.name
    if nm.endswith("_") and nm[0] in "sdcz" and nm[1:-1] in KINDS:
        return nm
    return None


class Root:
    def __init__(self, c, p, fn):
        self.c, self.p, self.fn = c, p, fn
        self.cases = []


def reach(p):
    """Functions from which a routine is reachable by direct calls."""
    direct, callers = set(), {}
    for f in p.repo_fns():
        if f.nocfg:
            continue
        for n in f.calls():
            if routine(p, n):
                direct.add(f.info.id)
            c = p.resolve(n)
            if c is not None and c.body is not None:
                callers.setdefault(c.id, set()).add(f.info.id)
    out, st = set(direct), list(direct)
    while st:
        x = st.pop()
        for y in callers.get(x, ()):
            if y not in out:
                out.add(y)
                st.append(y)
    return direct, out, callers


def has_ptr(p, info):
    return any("*" in t and "(" not in t and "TAT::" not in t.replace("TAT::complex", "") for t in info.param_types)


def scalar_of(t):
    t = base_type(t)
    while t.endswith("*") or t.endswith("const") or t.endswith("__restrict"):
        t = t[:-1].strip() if t.endswith("*") else t[:-5].strip() if t.endswith("const") else t[:-10].strip()
    return t.replace("const ", "")


class Broken(Exception):
    pass


class Run:
    """Events of one root under one assignment."""

    def __init__(self, c, p, g, root, reachset, asg):
        self.c, self.p, self.g, self.asg, self.reachset = c, p, g, asg, reachset
        self.events = []
        self.frames = []
        self.undecided = 0
        self.walk(Frame(root))

    def walk(self, fr):
        g, asg = self.g, self.asg
        if len(fr.key) > 9:
            return
        self.frames.append(fr)
        fn = fr.fn
        live = g.reachable(fr, asg)
        for b in sorted(live, reverse=True):
            els, _ = fn.block_elems(fn.blocks[b])
            for e in els:
                if not isinstance(e, Node) or not e.is_call():
                    continue
                r = routine(self.p, e)
                if r:
                    self.events.append((r, e, fr))
                    continue
                c = self.p.resolve(e)
                if c is None:
                    continue
                if c.name == "matrix_transpose" and len(e.params_args) == 4:
                    self.events.append(("transpose", e, fr))
                elif c.q in ("std::copy", "std::fill", "std::copy_n", "std::fill_n"):
                    self.events.append((c.q, e, fr))
                elif c.body is not None and c.in_repo and not c.body.nocfg and c.id in self.reachset:
                    self.walk(g.frame(e, c, fr, asg))

    def d(self, n, fr):
        """integer an argument of type const int* points to"""
        v = self.g.ev(n, fr, self.asg)
        v = self.g.load(v, fr, self.asg, n, 0) if v[0] in ("addr", "ptr") else v
        return v if isP(v) else None

    def flag(self, n, fr):
        v = self.g.ev(n, fr, self.asg)
        if v[0] == "str":
            return v[1][:1]
        if v[0] in ("addr", "ptr"):
            w = self.g.load(v, fr, self.asg, n, 0)
            k = pconst(w) if isP(w) else None
            if k is not None and 0 < k < 128:
                return chr(k)
        return None

    def buf(self, n, fr):
        v = self.g.ev(n, fr, self.asg)
        if v[0] == "ptr":
            return v[1], v[2]
        if v[0] == "addr":
            return ("scalar", self.g.key(fr, n)), num(0)
        return None


def slack(v, asg):
    """Substitute the order facts of the assignment (x > y  ->  x = y + 1 + t)."""
    i = 0
    done = set()
    for a, t in sorted(asg.items(), key=repr):
        if a in done:
            continue
        if a[0] == "gt":
            co = dict(a[1][1])
            opp = ("gt", P({m: -k for m, k in a[1][1]}))
            if not t and asg.get(opp) is False and len(co) == 2 and all(len(m) == 1 for m in co):
                x, y = sorted((m[0] for m in co), key=repr)
                if sorted(co.values()) == [-1, 1]:
                    v = psub(v, x, atom(y))
                    done.add(opp)
                    continue
            pos = [m for m, k in co.items() if k == 1 and len(m) == 1]
            neg = [m for m, k in co.items() if k == -1 and len(m) == 1]
            if len(co) == 2 and len(pos) == 1 and len(neg) == 1:
                x, y = pos[0][0], neg[0][0]
                i += 1
                if t:
                    v = psub(v, x, padd(atom(y), padd(num(1), atom(("slack", i)))))
                else:
                    v = psub(v, y, padd(atom(x), atom(("slack", i))))
        elif a[0] == "eq" and not t:
            co = dict(a[1][1])
            if len(co) == 1 and len(next(iter(co))) == 1:
                x = next(iter(co))[0]
                i += 1
                v = psub(v, x, padd(num(1), atom(("pos", x))))
    return v


def nonneg(v, asg):
    v = slack(v, asg)
    return all(k >= 0 for _, k in v[1])


def minreq(kind, d, cplx, g, asg):
    """Smallest legal lwork as a list of polynomials (all must be covered)."""
    m, n = d["m"], d["n"]
    if kind == "gesvd":
        lo, hi = (m, n) if g.cmp("<", m, n, asg) else (n, m)
        return [padd(pmul(num(2), lo), hi)] if cplx else [padd(pmul(num(3), lo), hi), pmul(num(5), lo)]
    return [n if kind in ("geqrf", "orgqr", "ungqr") else m]


def analyse(c, p, roots, reachset):
    g = Gate(p)
    for root in roots:
        g.extra = {}
        short = root.info.q.split("::")[-1]

        def one(asg):
            g.extra = {}
            r = Run(c, p, g, root, reachset, asg)
            return judge(c, p, g, r, asg, short, root)
        res = g.cases(one, limit=400)
        if res is None:
            c.count("functions with too many cases")
            continue
        c.count("functions followed")
        c.count("cases", len(res))
        for a, (uses, viol) in res:
            for k, w, rule, t in viol:
                c.violation(k, w, rule, t)
        cross(c, g, p, root, short, res)
        zero_k(c, p, g, root, short, res, reachset)


def shown(p, v):
    def nm(a):
        a0 = a
        for _ in range(8):
            if a[0] == "v" and isinstance(a[2], int):
                return p.vname(a[2])
            if a[0] in ("lv", "m", "e", "d", "size", "bool"):
                a = a[1]
                continue
            break
        return str(a0[0])
    return pshow(v, nm)


def judge(c, p, g, run, asg, short, root):
    viol, uses, ins_only = [], {}, set()
    ev = run.events
    written = {}

    def bad(rule, n, text, extra=""):
        viol.append(("%s:%s:%s:%s" % (rule, short, n.fn.info.name, extra), n.loc, rule, "%s (reached from %s)" % (text, root.info.q)))

    query = False

    def use(b, rows, cols, n, role):
        """buffer b is used as a row-major rows x cols matrix"""
        if query:
            return
        if b is None or rows is None or cols is None:
            run.undecided += 1
            return
        uses.setdefault(b[0], []).append((b[1], rows, cols, n, role))

    queries = {}
    calls = [e for e in ev if e[0] not in ("transpose", "std::copy", "std::fill", "std::copy_n", "std::fill_n")]
    factor = {}
    for r, n, fr in calls:
        kind = r[1:-1]
        a = n.params_args
        if kind == "gesvd":
            f = dict(ju=a[0], jv=a[1], m=a[2], n=a[3], a=a[4], lda=a[5], s=a[6], u=a[7], ldu=a[8], vt=a[9], ldvt=a[10], work=a[11], lwork=a[12], info=a[-1])
            if len(a) == 15:
                f["rwork"] = a[13]
        elif kind in ("geqrf", "gelqf"):
            f = dict(zip(("m", "n", "a", "lda", "tau", "work", "lwork", "info"), a))
        elif kind in ("orgqr", "orglq", "ungqr", "unglq"):
            f = dict(zip(("m", "n", "k", "a", "lda", "tau", "work", "lwork", "info"), a))
        elif kind == "gesv":
            f = dict(zip(("n", "nrhs", "a", "lda", "ipiv", "b", "ldb", "info"), a))
        else:
            f = dict(zip(("ta", "tb", "m", "n", "k", "alpha", "a", "lda", "b", "ldb", "beta", "cc", "ldc"), a))
        g.extra["elems"] = []
        D = {k: run.d(f[k], fr) for k in ("m", "n", "k", "lda", "ldu", "ldvt", "nrhs", "ldb", "ldc", "lwork") if k in f}
        B = {k: run.buf(f[k], fr) for k in ("a", "s", "u", "vt", "tau", "work", "rwork", "ipiv", "b", "cc") if k in f}

        def eq(x, y, what, why):
            if x is None or y is None:
                run.undecided += 1
                return
            if slack(padd(x, y, -1), asg)[1]:
                if all(not patoms(z) or True for z in (x, y)):
                    bad("leading-dimension", n, "%s: %s is %s but must be %s (%s)" % (r, what, shown(p, x), shown(p, y), why), what)

        query = D.get("lwork") is not None and pconst(D["lwork"]) == -1
        cplx = r[0] in "cz"
        if kind == "gesvd":
            for j in ("ju", "jv"):
                fl = run.flag(f[j], fr)
                if fl is not None and fl not in "Ss":
                    bad("job", n, "%s asks for '%s' vectors, the result buffers hold the reduced factors ('S')" % (r, fl), j)
            if D["m"] is None or D["n"] is None:
                run.undecided += 1
                continue
            mn = D["m"] if g.cmp("<", D["m"], D["n"], asg) else D["n"]
            eq(D["lda"], D["m"], "lda", "rows of the matrix")
            eq(D["ldu"], D["m"], "ldu", "rows of the left factor")
            eq(D["ldvt"], mn, "ldvt", "number of singular values")
            use(B["a"], D["n"], D["m"], n, "matrix")
            use(B["u"], mn, D["m"], n, "left factor")
            use(B["vt"], D["n"], mn, n, "right factor")
            use(B["s"], num(1), mn, n, "singular values")
            if "rwork" in B and B["rwork"] is not None and not query:
                uses.setdefault(B["rwork"][0], []).append((B["rwork"][1], num(1), pmul(num(5), mn), n, "rwork"))
        elif kind in ("geqrf", "gelqf"):
            eq(D["lda"], D["m"], "lda", "rows of the matrix")
            use(B["a"], D["n"], D["m"], n, "matrix")
            if D["m"] is not None and D["n"] is not None:
                use(B["tau"], num(1), D["m"] if g.cmp("<", D["m"], D["n"], asg) else D["n"], n, "tau")
            if not query:
                factor.setdefault(fr.key, []).append((kind, n, B, D))
        elif kind in ("orgqr", "orglq", "ungqr", "unglq"):
            eq(D["lda"], D["m"], "lda", "rows of the matrix")
            use(B["a"], D["n"], D["m"], n, "matrix")
            use(B["tau"], num(1), D["k"], n, "tau")
            qr = kind.endswith("qr")
            if None not in (D["m"], D["n"], D["k"]):
                big, small = (D["m"], D["n"]) if qr else (D["n"], D["m"])
                for x, y, t in ((big, small, "%s >= %s" % (("m", "n") if qr else ("n", "m"))), (small, D["k"], "%s >= k" % ("n" if qr else "m"))):
                    if not nonneg(padd(x, y, -1), asg):
                        bad("shape", n, "%s needs %s, got %s and %s" % (r, t, shown(p, x), shown(p, y)), t)
            fs = factor.get(fr.key, [])
            if fs and B["tau"] is not None:
                same = [x for x in fs if x[2]["tau"] == B["tau"]]
                want = "geqrf" if qr else "gelqf"
                if not same:
                    bad("reflectors", n, "%s uses reflectors (tau) that no factorisation in this function produced" % r)
                elif all(x[0] != want for x in same):
                    bad("reflectors", n, "%s is applied to the reflectors of %s" % (r, same[0][0]))
                elif B["a"] is not None and same[0][2]["a"] is not None and B["a"][0] != same[0][2]["a"][0]:
                    src = same[0][2]["a"][0]
                    if not any(e[0] == "std::copy" and e[2].key == fr.key and (run.buf(e[1].params_args[2], fr) or (None,))[0] == B["a"][0] and (run.buf(e[1].params_args[0], fr) or (None,))[0] == src for e in ev):
                        if not any(e[0] == "std::copy_n" for e in ev):
                            bad("reflectors", n, "%s works on a buffer that does not hold the factorised matrix" % r)
        elif kind == "gesv":
            eq(D["lda"], D["n"], "lda", "order of the matrix")
            eq(D["ldb"], D["n"], "ldb", "order of the matrix")
            use(B["a"], D["n"], D["n"], n, "matrix")
            use(B["b"], D["nrhs"], D["n"], n, "right hand side")
            use(B["ipiv"], num(1), D["n"], n, "pivots")
        else:
            ta, tb = run.flag(f["ta"], fr), run.flag(f["tb"], fr)
            if ta is None or tb is None:
                run.undecided += 1
            else:
                for x, t in (("transa", ta), ("transb", tb)):
                    if t not in "NTntCc":
                        bad("flag", n, "%s: %s is '%s'" % (r, x, t), x)
                    elif cplx and t in "Cc":
                        bad("flag", n, "%s: %s asks for the conjugate, contraction never conjugates" % (r, x), x)
                ra, ca = (D["m"], D["k"]) if ta in "Nn" else (D["k"], D["m"])
                rb, cb = (D["k"], D["n"]) if tb in "Nn" else (D["n"], D["k"])
                eq(D["lda"], ra, "lda", "rows of A, transa is '%s'" % ta)
                eq(D["ldb"], rb, "ldb", "rows of B, transb is '%s'" % tb)
                eq(D["ldc"], D["m"], "ldc", "rows of C")
                use(B["a"], ca, ra, n, "A")
                use(B["b"], cb, rb, n, "B")
                use(B["cc"], D["n"], D["m"], n, "C")
            if B["cc"] is not None:
                for k in ("a", "b"):
                    if B[k] is not None and B[k][0] == B["cc"][0]:
                        bad("alias", n, "%s writes its result over its operand" % r, k)
            be = g.load(g.ev(f["beta"], fr, asg), fr, asg, f["beta"], 0)
            bn = beta_zero(p, g, f["beta"], fr, asg)
            if bn is False:
                bad("beta", n, "%s adds to the previous contents of its result, which are not initialised (beta is not 0)" % r)
            c.count("gemm calls evaluated")
            el = g.extra["elems"]
            if len({x[3] for x in el}) > 1:
                bad("batch", n, "%s takes its arguments from different entries of the batch" % r)
            si = {}
            for x in el:
                if x[2] is not None:
                    si.setdefault(g.ev(x[2], x[4], asg), x)
            if len(si) > 1:
                bad("batch", n, "the arguments of one %s call are stored at different entries of the batch" % r, "store")
        # distinct buffers
        bs = [(k, B[k][0]) for k in B if B[k] is not None]
        if kind != "gemm" and not query:
            for i, (k1, b1) in enumerate(bs):
                for k2, b2 in bs[i + 1:]:
                    if b1 == b2 and {k1, k2} != {"a", "b"}:
                        bad("alias", n, "%s gets the same buffer as %s and %s" % (r, k1, k2), k1 + k2)
        # scalar type
        want = None
        for k in ("a", "b", "u", "cc"):
            if k in f:
                want = PREFIX.get(scalar_of(p.types[n.fn.prog.fninfo[0].d["ret"]]) if False else scalar_of(f[k].type))
                break
        if want and want != r[0]:
            bad("scalar", n, "%s is called with %s data" % (r, f[k].type))
        # workspace
        if "lwork" in f:
            if query:
                queries.setdefault(fr.key, []).append((kind, n, f, D, cplx))
            elif D["lwork"] is not None:
                cap = g.capacity(B["work"][0], fr, asg) if B["work"] is not None else None
                if cap is not None:
                    if not nonneg(padd(cap, D["lwork"], -1), asg):
                        bad("workspace", n, "%s: the workspace holds %s elements, lwork says %s" % (r, shown(p, cap), shown(p, D["lwork"])), "size")
                    else:
                        c.count("workspaces")
                if D["m"] is not None and D["n"] is not None:
                    req = minreq(kind, D, cplx, g, asg)
                    src = query_of(p, g, f["lwork"], fr, queries.get(fr.key, []))
                    if src is None:
                        ok = all(nonneg(padd(D["lwork"], x, -1), asg) for x in req)
                        if not ok:
                            if not any(x[0] == "v" or x[0] == "n" for x in patoms(D["lwork"])) or set(patoms(D["lwork"])) <= dims_atoms(D):
                                bad("workspace", n, "%s: lwork %s is less than the required %s" % (r, shown(p, D["lwork"]), " and ".join(shown(p, x) for x in req)), "lwork")
                            else:
                                run.undecided += 1
                    else:
                        have = minreq(src[0], src[3], src[4], g, asg)
                        if not all(any(nonneg(padd(h, x, -1), asg) for h in have) for x in req):
                            bad("workspace", n, "%s: the workspace was queried for %s with other dimensions (at least %s, required %s)" % (r, src[0], shown(p, have[0]), shown(p, req[0])), "query")
        c.count("routine calls evaluated")
        if "info" in f:
            t = info_checked(p, g, n, f["info"], fr, asg)
            if t is False:
                bad("info", n, "%s: on some path the status is not examined before it is lost" % r)
            elif t is None:
                run.undecided += 1
    query = False
    # transposes
    for r, n, fr in ev:
        if r != "transpose":
            continue
        a = n.params_args
        m_, n_ = g.ev(a[0], fr, asg), g.ev(a[1], fr, asg)
        s, d = run.buf(a[2], fr), run.buf(a[3], fr)
        if isP(m_) and isP(n_):
            use(s, m_, n_, n, "source of transpose")
            use(d, n_, m_, n, "destination of transpose")
            if d is not None:
                written.setdefault(d[0], []).append("all")
            c.count("transposes evaluated")
    # shapes agree
    for b, us in uses.items():
        if b[0] == "scalar":
            continue
        fr0 = run.frames[0]
        cap = None
        for f in run.frames:
            cap = g.capacity(b, f, asg)
            if cap is not None:
                break
        first = None
        for off, rows, cols, n, role in us:
            size = pmul(rows, cols)
            if cap is not None:
                c.count("buffers with known size")
                if not nonneg(padd(cap, padd(off, size), -1), asg) and not patoms(off):
                    bad("size", n, "the %s needs %s elements, the buffer has %s" % (role, shown(p, size), shown(p, cap)), role)
            if role in ("rwork", "tau", "pivots", "singular values"):
                continue
            if patoms(off) or pconst(off):
                # one of several matrices in a buffer: consecutive offsets differ by the matrix size
                vs = [x for x in patoms(off) if loopvar(p, x)]
                if len(vs) == 1:
                    st = padd(psub(off, vs[0], padd(atom(vs[0]), num(1))), off, -1)
                    if slack(padd(st, size, -1), asg)[1]:
                        bad("stride", n, "matrices of %s elements (%s) are taken %s elements apart" % (shown(p, size), role, shown(p, st)), role)
                    else:
                        c.count("batch strides")
                continue
            sh = (slack(rows, asg), slack(cols, asg))
            if first is None:
                first = (sh, rows, cols, n, role)
            elif sh != first[0] and num(1) not in sh and num(1) not in first[0]:
                bad("shape", n, "a buffer used as %s x %s matrix (%s) is used as %s x %s matrix (%s at %s)" % (shown(p, rows), shown(p, cols), role, shown(p, first[1]), shown(p, first[2]), first[4], first[3].loc.replace(REPO + "/", "")), role)
            else:
                c.count("shape agreements")
    coverage(c, p, g, run, asg, uses, bad)
    c.count("obligations not decided", run.undecided)
    return uses, viol


def dims_atoms(D):
    out = set()
    for k in ("m", "n", "k"):
        if D.get(k) is not None:
            out |= patoms(D[k])
    return out


def loopvar(p, a):
    return a[0] == "v" and len(a) > 3 and isinstance(a[3], tuple) and len(a[3]) > 1


def beta_zero(p, g, n, fr, asg):
    """Is the beta argument the constant 0?  True / False / None"""
    v = g.ev(n, fr, asg)
    w = g.load(v, fr, asg, n, 0) if v[0] in ("addr", "ptr") else v
    if isP(w):
        k = pconst(w)
        return None if k is None else k == 0
    return None


def query_of(p, g, lw, fr, queries):
    """The workspace query whose answer the lwork argument comes from."""
    s = lw.strip()
    if s.k == "UnaryOperator" and s.op == "&":
        s = s.kids[0].strip()
    seen = set()
    work = [s]
    while work:
        x = work.pop()
        for y in x.walk():
            if y.k == "DeclRefExpr" and y.var is not None and y.var not in seen:
                seen.add(y.var)
                for q in queries:
                    for z in q[2]["work"].walk():
                        if z.k == "DeclRefExpr" and z.var == y.var:
                            return q
                for d, rhs in g.defs(fr.fn).get(y.var, []):
                    if rhs is not None:
                        work.append(rhs)
    return None


def var_of(n):
    s = n.strip()
    if s.k == "UnaryOperator" and s.op == "&":
        s = s.kids[0].strip()
    return s.var if s.k == "DeclRefExpr" else None


def reports(p, fn, bid, stop=None):
    """Does every path... some block reachable from bid report an error?"""
    seen, st = set(), [bid]
    while st:
        b = st.pop()
        if b in seen or b == stop:
            continue
        seen.add(b)
        els, dead = fn.block_elems(fn.blocks[b])
        for e in els:
            if isinstance(e, Node):
                if e.k == "CXXThrowExpr":
                    return True
                if e.is_call():
                    c = p.resolve(e)
                    if c is not None and c.name.startswith(ERR):
                        return True
        st += [s for s, _ in fn.succs(fn.blocks[b])]
    return False


def info_checked(p, g, n, arg, fr, asg):
    fn = n.fn
    v = var_of(arg)
    if v is None or v not in g.declared(fn) or v in fn.info.params:
        return None
    pos = g.nodepos(fn, n)
    if pos is None:
        return None
    # post-dominating block after the check, to confine `reports` to the branch
    seen = set()
    st = [(pos[0], pos[1] + 1)]
    ok = True
    while st:
        b, i = st.pop()
        if (b, i > 0) in seen:
            continue
        seen.add((b, i > 0))
        blk = fn.blocks[b]
        els, dead = fn.block_elems(blk)
        done = False
        for e in els[i:]:
            if not isinstance(e, Node) or not e.is_call():
                if isinstance(e, Node) and e.k == "ReturnStmt" and any(x.k == "DeclRefExpr" and x.var == v for x in e.walk()):
                    return None
                continue
            if routine(p, e) and any(var_of(x) == v for x in e.params_args):
                return False
            c = p.resolve(e)
            if c is not None and any(x.strip().k == "DeclRefExpr" and x.strip().var == v for x in e.params_args):
                if c.name.startswith(ERR) or (c.in_repo and c.body is not None):
                    if c.body is not None and not any(b2.d.get("cond", -1) is not None and b2.d.get("cond", -1) >= 0 for b2 in c.body.blocks.values()):
                        continue
                    done = True
                    break
        if done or dead:
            continue
        cnd = blk.d.get("lcond", blk.d.get("cond", -1))
        if cnd is not None and cnd >= 0:
            cn = fn.node(cnd)
            if mentions(g, fn, cn, v):
                # branch taken for a positive status
                br = positive(cn, v, fn, g)
                if br is None:
                    return None
                tgt = [s for s, x in fn.succs(blk) if x == br]
                oth = [s for s, x in fn.succs(blk) if x is not None and x != br]
                if not tgt or not reports(p, fn, tgt[0], oth[0] if oth else None):
                    return False
                continue
        if b == fn.exit:
            ok = False
            continue
        ss = fn.succs(blk)
        if not ss and b != fn.exit:
            continue
        for s, _ in ss:
            st.append((s, 0))
    return ok


def mentions(g, fn, n, v):
    for x in n.walk():
        if x.k == "DeclRefExpr" and x.var == v:
            return True
        if x.k == "DeclRefExpr" and x.var is not None and x.var != v:
            for d, rhs in g.defs(fn).get(x.var, []):
                if rhs is not None and base_type(rhs.type) in ("bool", "int") and any(y.k == "DeclRefExpr" and y.var == v for y in rhs.walk()) and not any(y.is_call() for y in rhs.walk()):
                    return True
    return False


def positive(n, v, fn, g):
    """Branch of condition n taken when variable v is positive, None if not understood."""
    n = n.strip() if n.strip().k != n.k else n
    s = n
    while s.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
        s = s.kids[0]
    if s.k == "UnaryOperator" and s.op == "!":
        r = positive(s.kids[0], v, fn, g)
        return None if r is None else not r
    if s.k == "DeclRefExpr":
        if s.var == v:
            return True
        ds = g.defs(fn).get(s.var, [])
        if len(ds) == 1 and ds[0][1] is not None:
            return positive(ds[0][1], v, fn, g)
        return None
    if s.k == "BinaryOperator" and s.op in ("==", "!=", "<", ">", "<=", ">="):
        l, r = s.kids[0].strip(), s.kids[1].strip()
        op = s.op
        if r.k == "DeclRefExpr" and r.var == v:
            l, r = r, l
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if l.k == "DeclRefExpr" and l.var == v and r.iv is not None:
            k = r.iv
            # truth for all positive values
            t = [{"==": x == k, "!=": x != k, "<": x < k, ">": x > k, "<=": x <= k, ">=": x >= k}[op] for x in (1, 2, 1000000)]
            if all(t):
                return True
            if not any(t):
                return False
            # some positive values are let through
            return False if op in ("==", ">", ">=") else True
    return None


def coverage(c, p, g, run, asg, uses, bad):
    """Copies and fills in kernels stay inside the buffers and leave no gap."""
    seg = {}
    where = {}
    for r, n, fr in run.events:
        if r not in ("std::copy", "std::fill") or not has_ptr(p, fr.fn.info):
            continue
        a = n.params_args
        x, y = run.buf(a[0], fr), run.buf(a[1], fr)
        if x is None or y is None or x[0] != y[0]:
            continue
        ln = padd(y[1], x[1], -1)
        if r == "std::copy":
            z = run.buf(a[2], fr)
            if z is None:
                continue
            segs = [("r", x[0], x[1], y[1]), ("w", z[0], z[1], padd(z[1], ln))]
        else:
            segs = [("w", x[0], x[1], y[1])]
        lp = None
        for l in loops(fr.fn):
            q = g.nodepos(fr.fn, n)
            if q and q[0] in l.body:
                if lp is None or len(l.body) < len(lp.body):
                    lp = l
        rng = loop_range(g, fr, lp, asg) if lp is not None else ()
        if rng is None:
            run.undecided += 1
            continue
        c.count("copies and fills in kernels")
        for kind, b, lo, hi in segs:
            size = None
            for f in run.frames:
                size = g.capacity(b, f, asg)
                if size is not None:
                    break
            if size is None and b in uses:
                ss = [pmul(u[1], u[2]) for u in uses[b] if not patoms(u[0]) and u[4] not in ("tau", "rwork", "pivots")]
                size = ss[0] if ss else None
            if rng:
                iv, N = rng
                top = psub(hi, iv, padd(N, num(1), -1))
                low = psub(lo, iv, num(0))
                stride_ok = all(iv not in m or m.count(iv) == 1 for m, _ in hi[1])
                if not stride_ok:
                    continue
            else:
                top, low = hi, lo
            asg2 = asg
            if size is not None:
                d = padd(size, top, -1)
                if rng:
                    # N >= 1 inside the loop
                    pass
                if not nonneg(d, asg2) and not nonneg(padd(size, hi, -1), asg2):
                    if not upper_ok(size, hi, rng, asg2):
                        bad("bounds", n, "%s %s elements up to %s of a buffer with %s elements" % ("writes" if kind == "w" else "reads", "the", shown(p, top), shown(p, size)), kind)
            if kind == "w":
                seg.setdefault((fr.key, b), []).append((lo, hi, rng, n))
                where[(fr.key, b)] = (fr, n, size)
    for (fk, b), ss in seg.items():
        fr, n, size = where[(fk, b)]
        if size is None:
            continue
        if not gapless(ss, size, asg):
            bad("gap", n, "the copies and fills do not write every element of a result buffer with %s elements (its memory is not initialised)" % shown(p, size))
        else:
            c.count("result buffers fully written")


def upper_ok(size, hi, rng, asg):
    """hi(i) <= size for all 0 <= i <= N-1: substitute N = i + 1 + t."""
    if not rng:
        return False
    iv, N = rng
    d = padd(size, hi, -1)
    at = patoms(N)
    if len(at) == 1 and N == atom(next(iter(at))):
        x = next(iter(at))
        d = slack(d, asg)
        ns = slack(N, asg)
        # N may have been rewritten by slack; use its remaining plain atom
        if ns == N:
            d = psub(d, x, padd(atom(iv), padd(num(1), atom(("slack", "i")))))
            return all(k >= 0 for _, k in d[1])
        cand = [y for y in patoms(ns) if y[0] not in ("slack", "pos")]
        if len(cand) == 1:
            # i <= cand + ... - 1 ; sufficient: treat i = cand-part first
            e = psub(d, iv, padd(ns, padd(num(1), atom(("slack", "i"))), -1))
            # now variables are dimension atoms and slacks; only i's slack has negative meaning
            return all(k >= 0 for _, k in e[1])
    return False


def loop_range(g, fr, lp, asg):
    """(loop variable atom, N) for `for (i = 0; i < N; i++)`."""
    fn = fr.fn
    for b in lp.body:
        for s, br in fn.succs(fn.blocks[b]):
            if s in lp.body:
                continue
            cnd = fn.blocks[b].d.get("lcond", fn.blocks[b].d.get("cond", -1))
            if cnd is None or cnd < 0:
                return None
            n = fn.node(cnd).strip()
            if n.k != "BinaryOperator" or n.op not in ("<", "!=", "<=", ">", ">="):
                return None
            l, r = n.kids[0], n.kids[1]
            op = n.op
            if not (l.strip().k == "DeclRefExpr" and loopvar(None, next(iter(patoms(g.ev(l, fr, asg))), ("x",)) if isP(g.ev(l, fr, asg)) else ("x",))):
                l, r = r, l
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            lv, N = g.ev(l, fr, asg), g.ev(r, fr, asg)
            if not isP(lv) or not isP(N) or len(patoms(lv)) != 1 or lv != atom(next(iter(patoms(lv)))):
                return None
            v = l.strip().var
            ds = g.defs(fn).get(v, [])
            ini = [d for d in ds if d[0].k == "DeclStmt" or (d[0].k == "BinaryOperator" and d[0].op == "=")]
            inc = [d for d in ds if d[0].k == "UnaryOperator" and d[0].op == "++"]
            if len(ini) != 1 or len(inc) != 1 or len(ds) != 2 or ini[0][1] is None:
                return None
            z = g.ev(ini[0][1], fr, asg)
            if not isP(z) or pconst(z) != 0:
                return None
            if op == "<=":
                N = padd(N, num(1))
            elif op not in ("<", "!="):
                return None
            return next(iter(patoms(lv))), N
    return None


def gapless(ss, size, asg):
    """Do the segments (lo, hi, loop) cover [0, size)?"""
    groups = {}
    flat = []
    for lo, hi, rng, n in ss:
        if rng:
            groups.setdefault(rng, []).append((lo, hi))
        else:
            flat.append((slack(lo, asg), slack(hi, asg)))
    for (iv, N), gs in groups.items():
        # chains lo -> hi inside one iteration, closed when it reaches the start of the next
        for lo, hi in gs:
            cur, n = hi, 0
            nxt = psub(lo, iv, padd(atom(iv), num(1)))
            while n < 6:
                n += 1
                if not slack(padd(cur, nxt, -1), asg)[1]:
                    flat.append((slack(psub(lo, iv, num(0)), asg), slack(psub(lo, iv, N), asg)))
                    break
                step = [h for l, h in gs if not slack(padd(l, cur, -1), asg)[1] and h != cur]
                if not step:
                    break
                cur = step[0]
    cur, n = num(0), 0
    size = slack(size, asg)
    while n < 10:
        n += 1
        if cur == size:
            return True
        step = [h for l, h in flat if l == cur and h != cur]
        if not step:
            return False
        cur = step[0]
    return False


def cross(c, g, p, root, short, res):
    """Buffers of unknown size have one shape formula in m, n, min(m, n) that fits all cases."""
    per = {}
    for asg, (uses, _) in res:
        for b, us in uses.items():
            if b[0] in ("scalar",) or (b[0] == "v" and b[1] is not None and len(b[1]) > 1):
                continue
            for off, rows, cols, n, role in us:
                if role in ("tau", "rwork", "pivots") or patoms(off):
                    continue
                per.setdefault(b, []).append((asg, rows, cols, n, role))
    for b, us in per.items():
        pairs = set()
        for asg, *_ in us:
            for a in asg:
                if a[0] == "gt" and len(a[1][1]) == 2 and all(len(m) == 1 for m, _ in a[1][1]) and sorted(k for _, k in a[1][1]) == [-1, 1]:
                    pairs.add(frozenset(m[0] for m, _ in a[1][1]))
        if len(pairs) != 1:
            continue
        x, y = sorted(next(iter(pairs)), key=repr)
        gxy, gyx = ("gt", padd(atom(x), atom(y), -1)), ("gt", padd(atom(y), atom(x), -1))

        def big(asg):
            """is x > y?"""
            if gxy in asg:
                return asg[gxy]
            if gyx in asg:
                return not asg[gyx]
            return None

        def vals(asg):
            return {"m": atom(x), "n": atom(y), "min": atom(y) if big(asg) else atom(x), "1": num(1)}
        # a factor keeps one full side: min x min is no factor of a decomposition
        cand = [(r, s) for r in ("m", "n", "min", "1") for s in ("m", "n", "min") if (r, s) != ("min", "min")]
        ok = [f for f in cand if all(slack(rows, asg) == slack(vals(asg)[f[0]], asg) and slack(cols, asg) == slack(vals(asg)[f[1]], asg) for asg, rows, cols, n, role in us if big(asg) is not None)]
        n = us[0][3]
        if not ok and all(len(patoms(r) - {x, y}) == 0 and len(patoms(s) - {x, y}) == 0 for _, r, s, _, _ in us):
            sh = sorted({"%s x %s (%s)" % (shown(p, r), shown(p, s), "%s > %s" % (shown(p, atom(x)), shown(p, atom(y))) if big(asg) else "otherwise") for asg, r, s, _, _ in us})
            c.violation("cross:%s:%s" % (short, us[0][4]), n.loc, "case-shape", "a buffer of %s is used with shapes that no single allocation has: %s" % (root.info.q, "; ".join(sh)))
        elif ok:
            c.count("shape formulas over all cases")


def zero_k(c, p, g, root, short, res, reachset):
    """A product over an empty common dimension is zero: it is written, and gemm (whose leading
    dimension would be 0) is not called for it."""
    done, noguard = set(), {}
    for asg, (uses, _) in res:
        r = Run(c, p, g, root, reachset, asg)
        for rt, n, fr in r.events:
            if rt[1:-1] != "gemm":
                continue
            a = n.params_args
            D = [r.d(a[i], fr) for i in (2, 3, 4)]
            if any(d is None or len(patoms(d)) != 1 or d != atom(next(iter(patoms(d)))) for d in D) or len(set(D)) != 3:
                continue
            key = tuple(D)
            if key in done:
                continue
            base = dict(asg)
            for d in D[:2]:
                base[g.eq_atom(d)] = False
            A, Z = dict(base), dict(base)
            A[g.eq_atom(D[2])] = False
            Z[g.eq_atom(D[2])] = True
            f0 = Frame(root)
            ra, rz = g.reachable(f0, A), g.reachable(f0, Z)
            if not (ra - rz):
                noguard.setdefault(key, n)
                continue
            done.add(key)
            c.count("products over an empty dimension")
            only = rz - ra
            wr = False
            for b in rz:
                els, _ = root.block_elems(root.blocks[b])
                for e in els:
                    if not isinstance(e, Node):
                        continue
                    if e.is_call() and e.callee is not None and e.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and e.callee.name in ("fill", "fill_n", "zero", "set", "transform", "memset", "generate"):
                        wr = True
                    if b in only and ((e.is_call() and e.callee is not None and (e.callee.name in ("operator=", "assign", "for_each") or (e.callee.in_repo and not e.callee.name.startswith("TAT_") and e.callee.ret == "void"))) or (e.k == "BinaryOperator" and e.op == "=")):
                        wr = True
            if not wr:
                c.violation("zero-dim:" + short, n.loc, "empty-dimension", "%s leaves blocks whose contracted dimension is 0 unwritten (their memory is not initialised)" % root.info.q)
    for key, n in noguard.items():
        if key not in done:
            c.violation("zero-dim:" + short, n.loc, "empty-dimension", "%s calls gemm for blocks whose contracted dimension is 0" % root.info.q)


def body(c):
    jobs = [
        (H, [inst([("double", "NoSymmetry"), ("cdouble", "U1Symmetry")])], False),
        (H, [inst([("float", "FermiU1Symmetry"), ("cfloat", "NoSymmetry")])] + (PY_MACROS if c.thorough else []), False),
    ]
    if c.thorough:
        jobs += [(H, [inst([("float", "NoSymmetry"), ("double", "FermiSymmetry")])] + PY_MACROS, False), (H, [inst([("cdouble", "NoSymmetry"), ("cfloat", "Z2Symmetry")])], False)]
    for p in extract_many(jobs):
        direct, rs, callers = reach(p)
        roots = [f for f in p.repo_fns() if f.info.id in rs and f.info.file.startswith(REPO + "/include/TAT") and not has_ptr(p, f.info) and any(has_ptr(p, c2) or c2.id in direct for c2 in [x for x in (p.resolve(n) for n in f.calls()) if x is not None and x.id in rs] + ([f.info] if f.info.id in direct else []))]
        c.count("routine call sites", sum(1 for f in p.repo_fns() if f.info.id in direct for n in f.calls() if routine(p, n)))
        c.count("functions reaching a routine", len(rs))
        if os.environ.get("DBG"):
            for f in roots:
                print("ROOT", f.info.pretty[:150])
        analyse(c, p, roots, rs)
    c.rules.append("shape typing of matrix buffers over symbolic dimensions, workspace and status typestate of every BLAS/LAPACK call")
    c.assumptions.append("blocks have fewer than 2^31 elements; the routines behave as documented")
    c.need("routine call sites", 8)
    c.need("routine calls evaluated", 8)


report.main("C05", "symbolic shape analysis of BLAS/LAPACK call arguments over the clang CFG", body)
