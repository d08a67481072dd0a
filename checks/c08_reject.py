"""C08: requests that do not fit a tensor are rejected before memory is touched.

Four rules over the CFG of every instantiated function: results of lookups are used only where they
are known to be found; offsets are computed only from indices known to be below the dimension; the
first block of a tensor is used only where one is known to exist; the operations that combine edges
compare their dimensions and reject what differs."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import report
import targets
from ir import Node, REPO
from sym import Sym, is_iter
from flow import forward, dominators
from loops import loops, block_of
from cond import edge_guards, atoms, relation, control_conditions, NEG, FLIP

FIND = {"find", "lower_bound", "upper_bound"}
STD_FIND = {"std::find", "std::find_if", "std::find_if_not", "std::lower_bound", "std::upper_bound", "std::search", "std::adjacent_find"}
ENDS = {"end", "cend", "rend", "crend"}


def bare(t):
    return t.replace("const ", "").rstrip("& ").strip()


def is_find(p, n, depth=0):
    """n evaluates to an iterator that may be the end."""
    n = n.strip()
    while n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.args) == 1:
        n = n.args[0].strip()
    if not n.is_call() or n.callee is None:
        return False
    c = n.callee
    if c.q in STD_FIND:
        return True
    if n.obj is not None and c.name in FIND and not c.in_repo:
        return True
    c = p.resolve(n)
    if c is not None and c.in_repo and c.body is not None and not c.body.nocfg and depth < 4 and (is_iter(c.ret)):
        if "fake_map" in c.q:
            return False
        for r in c.body.live_nodes():
            if r.k == "ReturnStmt" and r.kids:
                e = r.kids[0].strip()
                while e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(e.args) == 1:
                    e = e.args[0].strip()
                if is_find(p, e, depth + 1) or is_end(e):
                    return True
    return False


def is_end(n):
    n = n.strip()
    while n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.args) == 1:
        n = n.args[0].strip()
    return n.is_call() and n.callee is not None and (n.callee.name in ENDS) and (n.obj is not None or n.callee.q.startswith("std::"))


def is_null(n):
    n = n.strip()
    return n.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or (n.k == "IntegerLiteral" and n.iv == 0)


def lvar(n):
    n = n.strip()
    while n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.args) == 1:
        n = n.args[0].strip()
    return n.var if n.k == "DeclRefExpr" and n.var is not None else None


def deref_of(n):
    """The expression whose pointee n accesses, or None."""
    if n.k == "CXXOperatorCallExpr" and n.callee is not None and n.callee.name in ("operator->", "operator*") and len(n.args) == 1:
        return n.args[0]
    if n.k == "UnaryOperator" and n.op == "*" and n.kids:
        return n.kids[0]
    if n.k == "MemberExpr" and n.kids and n.kids[0].type.rstrip("const ").endswith("*"):
        return n.kids[0]
    return None


def never_returns(fn, bid):
    """No path from the block reaches the normal exit."""
    cache = fn.__dict__.setdefault("_noret", {})
    if bid not in cache:
        seen, st = set(), [bid]
        r = True
        while st:
            x = st.pop()
            if x == fn.exit:
                r = False
                break
            if x in seen:
                continue
            seen.add(x)
            if fn.prog.throws_in_block(fn, fn.blocks[x]):
                continue
            st += [s for s, _ in fn.succs(fn.blocks[x])]
        cache[bid] = r
    return cache[bid]


# ---------------------------------------------------------------- rule 1: lookups
def lookups(c, p, sy):
    for f in p.repo_fns():
        if f.nocfg:
            continue
        tracked = {}
        chained = []
        for n in f.live_nodes():
            if n.k == "DeclStmt":
                for d in n.d["ds"]:
                    if d.get("init", -1) >= 0:
                        e = f.node(d["init"])
                        t = p.vtype(d["v"])
                        if is_find(p, e):
                            tracked[d["v"]] = n
                        elif t.rstrip("const ").endswith("*") and is_null(e):
                            tracked[d["v"]] = n
            elif n.is_call() and n.callee is not None and n.callee.name == "operator=" and len(n.args) == 2:
                v = lvar(n.args[0])
                if v is not None and is_find(p, n.args[1]):
                    tracked[v] = n
            elif n.k == "BinaryOperator" and n.op == "=":
                v = lvar(n.kids[0])
                if v is not None and is_find(p, n.kids[1]):
                    tracked[v] = n
            b = deref_of(n)
            if b is not None and is_find(p, b):
                chained.append((n, b))
        for n, b in chained:
            c.count("lookups used at once")
            s = b.strip()
            key = sy.path(s.obj) if s.obj is not None else None
            ok = False
            for cn, br in edge_guards(f, block_of(f, n)) if block_of(f, n) is not None else []:
                for a, tr, env in atoms(sy, cn, br):
                    for m in a.strip().walk():
                        if m.is_call() and m.callee is not None and m.obj is not None and m.callee.name in ("count", "contains", "find") and (key is None or sy.path(m.obj, env) == key):
                            ok = True
            if not ok:
                c.violation("find:%s" % f.info.q, n.loc, "lookup-not-checked", "%s uses the result of %s without knowing that it was found" % (f.info.q, s.callee.name))
        if not tracked:
            continue
        c.count("lookup results followed", len(tracked))
        caps = set()
        for n in f.nodes():
            if n.k == "LambdaExpr":
                for m in n.walk():
                    if m.k == "DeclRefExpr" and m.var is not None:
                        caps.add(m.var)
            if n.k == "UnaryOperator" and n.op == "&" and lvar(n.kids[0]) is not None:
                caps.add(lvar(n.kids[0]))
        maybe, good, no = frozenset(["maybe"]), frozenset(["ok"]), frozenset(["end"])

        def status(e, st):
            if is_find(p, e):
                return maybe
            if is_end(e) or is_null(e):
                return no
            v = lvar(e)
            if v is not None and v in tracked:
                return st.get(v, good)
            return good

        def transfer(e, st):
            if not isinstance(e, Node):
                return st
            if e.k == "DeclStmt":
                for d in e.d["ds"]:
                    if d["v"] in tracked and d.get("init", -1) >= 0:
                        st = dict(st)
                        st[d["v"]] = status(f.node(d["init"]), st)
                return st
            v = None
            if e.is_call() and e.callee is not None and e.callee.name == "operator=" and len(e.args) == 2:
                v, r = lvar(e.args[0]), e.args[1]
            elif e.k == "BinaryOperator" and e.op == "=":
                v, r = lvar(e.kids[0]), e.kids[1]
            if v is not None and v in tracked:
                st = dict(st)
                st[v] = status(r, st)
                return st
            if e.is_call() and e.callee is not None:
                # handed out by reference, advanced
                for t, a in zip(e.callee.param_types, e.params_args):
                    if t.endswith("&") and not t.startswith("const ") and not t.endswith("&&"):
                        w = lvar(a)
                        if w in tracked:
                            st = dict(st)
                            st[w] = good
                if e.obj is not None and e.callee.name in ("operator++", "operator--", "operator+=", "operator-="):
                    w = lvar(e.obj)
                    if w in tracked:
                        st = dict(st)
                        st[w] = good
            if e.k == "UnaryOperator" and e.op in ("++", "--"):
                w = lvar(e.kids[0])
                if w in tracked:
                    st = dict(st)
                    st[w] = good
            return st

        def refine(b, cn, br, st):
            for a, tr, env in atoms(sy, cn, br):
                a2 = a.strip()
                if a2.k == "DeclRefExpr" and a2.var in tracked and not p.vtype(a2.var).endswith("bool"):
                    st = dict(st)
                    st[a2.var] = good if tr else no
                    continue
                rel = relation(a2, tr)
                if rel is None:
                    # mentioned in a condition that is not understood
                    if a2.k == "BinaryOperator" and a2.op in ("&&", "||"):
                        continue
                    for m in a2.walk():
                        if m.k == "DeclRefExpr" and m.var in tracked and a2.k != "DeclRefExpr" and not any(deref_of(x) is not None and lvar(deref_of(x)) == m.var for x in a2.walk()):
                            st = dict(st)
                            st[m.var] = good
                    continue
                op, l, r = rel
                for x, y in ((l, r), (r, l)):
                    v = lvar(x)
                    if v is None or v not in tracked:
                        continue
                    init = sy.tables(f)[0]
                    yv = lvar(y)
                    endlike = is_end(y) or is_null(y) or (yv is not None and yv in init and (is_end(init[yv])))
                    st = dict(st)
                    if endlike and op == "!=":
                        st[v] = good
                    elif endlike and op == "==":
                        st[v] = no
                    else:
                        st[v] = good
            return st

        def join(a, b):
            return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}
        ins, _ = forward(f, {}, transfer, join, refine)
        for bid, st in ins.items():
            els, _ = f.block_elems(f.blocks[bid])
            for e in els:
                if isinstance(e, Node):
                    b = deref_of(e)
                    v = lvar(b) if b is not None else None
                    if v is None and e.is_call() and e.callee is not None and e.callee.name == "erase" and e.obj is not None and len(e.params_args) == 1 and is_iter(e.params_args[0].type):
                        v = lvar(e.params_args[0])
                    if v is not None and v in tracked and v not in caps:
                        s = st.get(v, good)
                        if "bool" in p.vtype(v):
                            continue
                        c.count("uses of lookup results")
                        if "maybe" in s or "end" in s:
                            c.violation("find:%s:%s" % (f.info.q, p.vname(v)), e.loc, "lookup-not-checked", "%s uses %s, which may be the end or null, on some path" % (f.info.q, p.vname(v)))
                st = transfer(e, st)


# ---------------------------------------------------------------- rule 2: offsets
class Vals:
    """Values with vector elements and tuple parts named by path, locals followed to their initialisers."""

    def __init__(self, p, sy):
        self.p, self.sy = p, sy

    def same(self, a, b, env=None):
        x, y = self.sy.value(a, env), self.sy.value(b)
        return x is not None and x == y

    def origins(self, f, n, depth=0, seen=None):
        """Parameters that n is taken from (through locals and lists)."""
        seen = set() if seen is None else seen
        out = set()
        if depth > 12:
            return out
        pt = self.sy.path(n)
        if pt is None:
            for k in n.strip().kids:
                out |= self.origins(f, k, depth + 1, seen)
            return out
        r = pt[0]
        if r == ("this",):
            out.add("this")
            return out
        if r[0] != "v":
            for k in n.strip().kids:
                out |= self.origins(f, k, depth + 1, seen)
            return out
        v = r[1]
        if v in seen:
            return out
        seen.add(v)
        if v in f.info.params:
            out.add(v)
            return out
        init, bind, assigned = self.sy.tables(f)
        for e in [init.get(v), bind.get(v)]:
            if e is not None:
                out |= self.origins(f, e, depth + 1, seen)
        for a in assigned.get(v, []):
            if a.k == "BinaryOperator":
                out |= self.origins(f, a.kids[1], depth + 1, seen)
        for m in pushes(f, v):
            for a in m.params_args:
                out |= self.origins(f, a, depth + 1, seen)
        return out


def pushes(f, v):
    return [m for m in f.nodes() if m.is_call() and m.callee is not None and m.obj is not None and m.callee.name in ("push_back", "emplace_back") and lvar(m.obj) == v]


def known(sy, p, f, bid, idx, dim, depth=0):
    """'yes' if idx < dim is known in block bid, 'weak' if only idx <= dim or reversed, None."""
    res = None
    got = []
    for cn, br in edge_guards(f, bid):
        got += [(a, tr, env) for a, tr, env in atoms(sy, cn, br)]
    # calls that return only if the index is in range
    dom = dominators(f).get(bid) or set()
    for d in dom:
        els, _ = f.block_elems(f.blocks[d])
        for e in els:
            if isinstance(e, Node) and e.is_call() and e.callee is not None:
                k = p.resolve(e)
                if k is None or not k.in_repo or k.body is None or k.body.nocfg or k.d.get("ctor") or k.body.exit not in k.body.live():
                    continue
                if len(k.params) < 2:
                    continue
                env = sy.call_env(e, k, None)
                for i, a in enumerate(e.params_args):
                    if i < len(k.params):
                        v = sy.value(a)
                        if v is not None:
                            env[("val", k.params[i])] = v
                for cn, br in edge_guards(k.body, k.body.exit):
                    got += [(a, tr, env) for a, tr, _ in atoms(sy, cn, br, env)]
    for a, tr, env in got:
        rel = relation(a, tr)
        if rel is None:
            continue
        op, l, r = rel
        lv, rv = sy.value(l, env), sy.value(r, env)
        if lv is None or rv is None:
            continue
        if lv == idx and rv == dim:
            o = op
        elif lv == dim and rv == idx:
            o = FLIP[op]
        else:
            continue
        if o == "<":
            return "yes"
        res = res or "weak"
    return res


def offsets(c, p, sy):
    V = Vals(p, sy)
    for f in p.repo_fns():
        if f.nocfg or f.info.is_lambda and False:
            continue
        # accumulators: acc *= d and acc += i, or acc = acc * d + i
        mul, add = {}, {}
        for n in f.live_nodes():
            if n.k == "CompoundAssignOperator" and n.op in ("*=", "+="):
                v = lvar(n.kids[0])
                if v is not None and p.vars[v]["k"] == "local" and not p.vtype(v).endswith("&"):
                    (mul if n.op == "*=" else add).setdefault(v, []).append((n, n.kids[1]))
            if n.k == "BinaryOperator" and n.op == "=":
                v = lvar(n.kids[0])
                r = n.kids[1].strip()
                if v is not None and r.k == "BinaryOperator" and r.op == "+":
                    for x, y in (r.kids[:2], r.kids[:2][::-1]):
                        x = x.strip()
                        if x.k == "BinaryOperator" and x.op == "*" and len(x.kids) == 2:
                            for a, b in (x.kids, x.kids[::-1]):
                                if lvar(a) == v:
                                    mul.setdefault(v, []).append((n, b))
                                    add.setdefault(v, []).append((n, y))
        for v in set(mul) & set(add):
            for n, i in add[v]:
                ds = [d for m, d in mul[v] if block_of(f, m) == block_of(f, n)]
                if len(ds) != 1:
                    continue
                o = V.origins(f, i)
                if not o or "this" in o or any(re.search(r"\b(Tensor|Core)<", p.vtype(x)) for x in o if x != "this") and len(o) == 1:
                    continue
                if (f.info.is_lambda or f.info.cls is None) and known(sy, p, f, block_of(f, n), sy.value(i), sy.value(ds[0])) != "yes":
                    # a helper: where do the indices handed to it come from?
                    w = handed(p, sy, V, f, o)
                    if w == "own":
                        c.count("offsets computed from indices of the tensor itself")
                        continue
                    if w == "checked elsewhere":
                        c.count("offsets not decided")
                        continue
                judge_offset(c, p, sy, f, n, i, ds[0])


def handed(p, sy, V, f, params):
    """Of the arguments for these parameters at all calls of the helper: 'own' (no caller hands on a parameter of its own),
    'checked elsewhere' (a caller that does compares before and rejects), 'caller'."""
    pos = [f.info.params.index(v) for v in params if v in f.info.params]
    if not pos:
        return "caller"
    sites = 0
    res = "own"
    for g in p.repo_fns():
        if g.nocfg:
            continue
        for m in g.calls():
            k = p.resolve(m)
            if k is None or k.body is not f:
                continue
            sites += 1
            for q in pos:
                a = m.params_args
                if q >= len(a):
                    return "caller"
                o = V.origins(g, a[q])
                if not o or "this" in o:
                    continue
                if any(never_returns(g, x) for x in g.live()):
                    res = "checked elsewhere" if res != "caller" else res
                else:
                    res = "caller"
    return res if sites else "caller"


def judge_offset(c, p, sy, f, n, i, d):
    c.count("offsets computed from indices of the caller")
    vi, vd = sy.value(i), sy.value(d)
    b = block_of(f, n)
    if vi is None or vd is None or b is None:
        c.count("offsets not decided")
        return
    res = known(sy, p, f, b, vi, vd)
    if res == "yes":
        return
    pi, pd = sy.path(i), sy.path(d)
    # elements of lists filled before
    if res is None and pi and pd and len(pi) == 2 and len(pd) == 2 and pi[1] == pd[1] == "[]" and pi[0][0] == "v" and pd[0][0] == "v":
        ps, qs = pushes(f, pi[0][1]), pushes(f, pd[0][1])
        if not ps or not qs:
            c.count("offsets not decided")
            return
        allok = True
        for m in ps:
            mb = block_of(f, m)
            lp = [l for l in loops(f) if mb in l.body]
            if not lp:
                c.count("offsets not decided")
                return
            lp = min(lp, key=lambda l: len(l.body))
            latches = [x for x in lp.body if any(s == lp.header for s, _ in f.succs(f.blocks[x]))]
            r = [known(sy, p, f, x, vi, vd) for x in latches]
            if all(x == "yes" for x in r):
                # the comparison comes after both lists were extended
                continue
            # or the values themselves were compared
            a = m.params_args[0] if m.params_args else None
            q = [x for x in qs if block_of(f, x) in lp.body]
            if a is not None and len(q) == 1 and q[0].params_args:
                va, vq = sy.value(a), sy.value(q[0].params_args[0])
                if va is not None and vq is not None:
                    if known(sy, p, f, mb, va, vq) == "yes" or all(known(sy, p, f, x, va, vq) == "yes" for x in latches):
                        continue
            allok = False
            res = "weak" if "weak" in r else None
        if allok:
            return
        # checked in another loop over the same lists
        for lp in loops(f):
            latches = [x for x in lp.body if any(s == lp.header for s, _ in f.succs(f.blocks[x]))]
            if latches and all(known(sy, p, f, x, vi, vd) == "yes" for x in latches) and lp.header in (dominators(f).get(b) or ()):
                return
    # a comparison of the two that could not be placed?
    for m in f.live_nodes():
        if m.is_call() and m.callee is not None:
            k = p.resolve(m)
            if k is not None and k.in_repo and k.body is not None and not k.is_ctor and any(sy.value(a) in (vi,) for a in m.params_args) and k.name not in ("push_back", "operator+="):
                if any(never_returns(k.body, x) for x in k.body.live()):
                    c.count("offsets not decided")
                    return
    c.violation("offset:%s" % f.info.q, n.loc, "index-not-checked", "%s computes an offset from an index of the caller that is not known to be below the dimension%s" % (f.info.q, " (only a weaker comparison is made)" if res == "weak" else ""))


# ---------------------------------------------------------------- rule 3: dimensions compared
def error_guards(p, sy, f, env=None, depth=0, stack=()):
    """[(function, condition node, truth on the error side, env, call chain)]"""
    out = []
    und = False
    for bid in f.live():
        blk = f.blocks[bid]
        cn = blk.d.get("lcond", blk.d.get("cond", -1))
        if cn is None or cn < 0:
            continue
        ss = f.succs(blk)
        if len(ss) != 2:
            continue
        for s, br in ss:
            if br is not None and never_returns(f, s) and not all(never_returns(f, t) for t, _ in ss):
                out.append((f, bid, f.node(cn), br, env, stack))
    if depth < 3:
        for n in f.calls():
            k = p.resolve(n)
            if k is None or not k.in_repo or k.body is None or k.body.nocfg or k.is_ctor:
                continue
            if not k.is_lambda and any(re.search(r"\bTensor<", t) for t in k.param_types):
                continue
            if k.clsn and "Tensor" in k.clsn and not k.is_lambda:
                continue
            e2 = sy.call_env(n, k, env)
            for i, a in enumerate(n.params_args):
                if i < len(k.params) and k.params[i] is not None and k.params[i] not in e2:
                    pt = sy.path(a, env)
                    if pt is not None:
                        e2[k.params[i]] = pt
            out += error_guards(p, sy, k.body, e2, depth + 1, stack + ((f, n),))
    return out


def expand(p, sy, fns, pt, env=None, depth=0):
    """Follow by-value locals to what they were initialised from."""
    while pt is not None and depth < 12:
        depth += 1
        r = pt[0]
        if r[0] != "v":
            return pt
        v = r[1]
        e = None
        for f in fns:
            init, bind, assigned = sy.tables(f)
            if v in init:
                e = init[v]
            elif v in bind:
                e = bind[v]
            if e is not None:
                break
        if e is None:
            return pt
        en = env if e.fn is fns[0] else None
        q = sy.path(e, en)
        if q is None or q[0] == r:
            q2 = None
            for m in e.strip().walk():
                if m.k in ("MemberExpr", "DeclRefExpr") or m.is_call():
                    q2 = sy.path(m, en)
                    if q2 is not None and q2[0][0] in ("v", "this") and q2[0] != r:
                        break
                    q2 = None
            q = q2
            if q is None:
                return pt
        pt = q + pt[1:]
    return pt


def is_dim(p, pt, n):
    t = bare(n.type)
    if pt is not None and (pt[-1] in ("arrow", "first") or (n.strip().is_call() and n.strip().callee is not None and n.strip().callee.name == "size" and pt[-1] in ("edges", "map", "names", "blocks"))):
        return False
    return pt is not None and ("edges" in pt or "map" in pt or "blocks" in pt or "value" in pt or re.search(r"\bEdge<", t) is not None)


ENTRY = {
    # name: (class or namespace pattern, minimum number of places that compare, operands must differ)
    "contract_without_fuse": (1, True),
    "contract_with_fuse": (2, True),
    "trace": (1, False),
    "exponential": (1, False),
    "multiple": (1, True),
    "operator+": (1, True), "operator-": (1, True), "operator*": (1, True), "operator/": (1, True),
    "operator+=": (1, True), "operator-=": (1, True), "operator*=": (1, True), "operator/=": (1, True),
}


def dimensions(c, p, sy):
    for f in p.repo_fns():
        i = f.info
        if f.nocfg or i.is_lambda or (i.name not in ENTRY and not i.name.startswith("contract")):
            continue
        tens = [t for t in i.param_types if re.search(r"\bTensor<", t) and "vector<" not in t.split("Tensor<")[0]]
        member = bool(i.clsn) and re.search(r"\bTensor\b", i.clsn)
        sing = [t for t in i.param_types if "Singular" in t]
        if i.name.startswith("operator") and len(tens) != 2:
            continue
        if i.name.startswith("contract") and (len(tens) != 2 or member or sum(1 for n in f.calls() if n.callee is not None and n.callee.name == "edge_operator") < 2):
            continue
        if i.name in ("trace", "exponential", "multiple") and not member:
            continue
        if i.name == "multiple" and not sing:
            continue
        if not any(n.is_call() and n.callee is not None and n.callee.name in ("edge_operator", "same_shape", "data", "transpose") for n in f.calls()):
            continue
        need, differ = ENTRY.get(i.name, (1, True))
        if i.name == "contract_without_fuse" and re.search(r"NoSymmetry", tens[0]):
            # without symmetry every call goes to contract_with_fuse
            continue
        judge_dims(c, p, sy, f, need, differ)


def loop_cond(f, bid):
    return any(l.header == bid for l in loops(f)) or f.blocks[bid].d.get("term") in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt")


def judge_dims(c, p, sy, f, need, differ):
    c.count("operations that combine edges")
    found, onesided, und, skipped = [], [], False, []
    for g, bid, cn, br, env, stack in error_guards(p, sy, f):
        fns = [g] + [x for x, _ in stack]
        for a, tr, e2 in atoms(sy, cn, br, env):
            rel = relation(a, tr)
            if rel is None:
                s = a.strip()
                if s.k == "DeclRefExpr" and sy.tables(g)[2].get(s.var):
                    und = True
                if s.is_call() and s.callee is not None and not s.callee.in_repo and s.callee.name in ("equal", "operator()", "any_of", "all_of", "none_of"):
                    und = True
                continue
            op, l, r = rel
            lp, rp = sy.path(l, e2), sy.path(r, e2)
            if lp is None and l.strip().is_call():
                lp = size_path(sy, l, e2)
            if rp is None and r.strip().is_call():
                rp = size_path(sy, r, e2)
            lp, rp = expand(p, sy, fns, lp, e2), expand(p, sy, fns, rp, e2)
            ld, rd = is_dim(p, lp, l), is_dim(p, rp, r)
            if not differ:
                # products of dimensions count too
                ld = ld or any(is_dim(p, expand(p, sy, fns, sy.path(m, e2), e2), m) for m in l.walk() if m.k in ("DeclRefExpr", "MemberExpr") or m.is_call())
                rd = rd or any(is_dim(p, expand(p, sy, fns, sy.path(m, e2), e2), m) for m in r.walk() if m.k in ("DeclRefExpr", "MemberExpr") or m.is_call())
            if not (ld and rd):
                if (ld or rd) and (l.iv is None and r.iv is None):
                    und = True
                continue
            if differ and lp[0] == rp[0]:
                continue
            if op not in ("!=",):
                onesided.append((op, lp, rp, a))
                continue
            cc = skip_conditions(sy, g, bid) + [x for h, n in stack for x in skip_conditions(sy, h, block_of(h, n))]
            if cc:
                skipped.append((a, cc[0]))
                continue
            found.append((g.info.id, bid, tuple(n.id for _, n in stack)))
    if os.environ.get("C08_DEBUG"):
        print(f.info.q, f.info.param_types[:1], found, onesided, skipped, und)
    # both directions of an ordering are as good as inequality
    ups = [(x[1], x[2]) for x in onesided if x[0] in ("<", ">")]
    for op, l, r, a in onesided:
        l, r = (l[0], r[0]) if differ else (l, r)
        if op in ("<", ">") and any((FLIP[o] == op and (x, y) == (l, r)) or (o == op and (x, y) == (r, l)) for o, x, y in [(o, x[0], y[0]) if differ else (o, x, y) for o, x, y, _ in onesided]):
            found.append(("both", l, r))
    c.count("comparisons of dimensions that reject", len(set(found)))
    if len(set(found)) >= need:
        return
    if und:
        c.count("combining operations not decided")
        return
    what = "does not compare the dimensions it combines"
    if onesided:
        what = "only compares the dimensions one way (%s)" % onesided[0][3].loc
    elif skipped:
        what = "compares the dimensions (%s) only if a condition on sizes holds (%s)" % (skipped[0][0].loc, skipped[0][1].loc)
    elif found:
        what = "compares the dimensions at %d of %d places" % (len(set(found)), need)
    loc = "%s:%d" % (p.rel(f.info.file) if hasattr(f.info, "file") else "", f.info.d.get("l", 0))
    c.violation("dims:%s" % f.info.q, where(f), "dimensions-not-compared", "%s %s" % (f.info.q, what))


def where(f):
    for n in f.live_nodes():
        return n.loc
    return "?"


def size_path(sy, n, env):
    n = n.strip()
    if n.is_call() and n.obj is not None and n.callee is not None and n.callee.name == "size":
        return sy.path(n.obj, env)
    return None


def skip_conditions(sy, f, bid):
    """Conditions on counts, other than loops, that decide whether the block runs."""
    out = []
    if bid is None:
        return out
    conds = control_conditions(f, bid)
    heads = set()
    for l in loops(f):
        for b in l.body:
            for s, _ in f.succs(f.blocks[b]):
                if s not in l.body or b == l.header:
                    cn = f.blocks[b].d.get("lcond", f.blocks[b].d.get("cond", -1))
                    if cn is not None and cn >= 0 and loop_cond(f, b):
                        heads.add(cn)
    for cn in conds:
        if cn.id in heads:
            continue
        rel = relation(cn)
        if rel is None:
            continue
        op, l, r = rel
        if op in ("==", "!=") and not any(x.iv is not None and x.iv > 1 for x in (l, r)):
            continue
        k = [x.iv for x in (l, r) if x.iv is not None]
        if not k:
            continue
        o = op if r.iv is not None else FLIP[op]
        if (o, k[0]) in ((">", 0), (">=", 1), ("<", 1), ("<=", 0)):
            continue
        out.append(cn)
    return out


# ---------------------------------------------------------------- rule 3b: names of a transpose
def transposes(c, p, sy):
    """edge_operator rejects name lists of another length and names that do not exist."""
    for f in p.repo_fns():
        if f.nocfg or f.info.name != "edge_operator" or f.info.is_lambda or sum(1 for _ in f.live()) < 40:
            continue
        c.count("transpose plans")
        size, miss, und = set(), set(), False
        for g, bid, cn, br, env, stack in error_guards(p, sy, f):
            for a, tr, e2 in atoms(sy, cn, br, env):
                rel = relation(a, tr)
                if rel is None:
                    s = a.strip()
                    und = und or (s.k == "DeclRefExpr" and bool(sy.tables(g)[2].get(s.var))) or s.is_call()
                    continue
                op, l, r = rel
                if is_end(l) or is_end(r):
                    if op == "==":
                        miss.add(block_of(stack[0][0], stack[0][1]) if stack else bid)
                    continue
                if l.iv is not None or r.iv is not None:
                    continue
                lv, rv = sy.value(l, e2), sy.value(r, e2)
                if op == "!=" and "size" in (flat(lv) | flat(rv)):
                    size.add(block_of(stack[0][0], stack[0][1]) if stack else bid)
        # at() on the name table rejects as well
        if not miss:
            miss = {block_of(f, n) for n in f.live_nodes() if n.is_call() and n.callee is not None and n.callee.name == "at" and n.obj is not None and re.search(r"map<.*(Name|basic_string).*,\s*(unsigned short|TAT::Rank)", n.obj.type)}
        if und:
            c.count("transpose plans not decided")
            continue
        dom = dominators(f)
        if not size or miss and not any(x in (dom.get(m) or ()) for x in size for m in miss):
            c.violation("transpose-rank:%s" % f.info.q.split("(")[0], where(f), "length-not-compared", "edge_operator does not reject a list of names of another length than the edges to transpose")
        if not miss:
            c.violation("transpose-name:%s" % f.info.q.split("(")[0], where(f), "missing-name-accepted", "edge_operator does not reject a name that no edge has")


def flat(v):
    out = set()
    if isinstance(v, tuple):
        for x in v:
            out |= flat(x)
    elif isinstance(v, str):
        out.add(v)
    return out


# ---------------------------------------------------------------- rule 4: first block
def first_block(c, p, sy):
    for f in p.repo_fns():
        if f.nocfg:
            continue
        for n in f.live_nodes():
            b = deref_of(n)
            if b is None:
                continue
            s = b.strip()
            while s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(s.args) == 1:
                s = s.args[0].strip()
            if not (s.is_call() and s.callee is not None and s.callee.name in ("begin", "cbegin") and s.obj is not None):
                continue
            o = s.obj.strip()
            if o.k != "MemberExpr" or o.d.get("m") != "blocks" or "NoSymmetry" in o.type or "fake_map" in o.type:
                continue
            c.count("uses of the first block")
            pt = sy.path(o)
            ok = False
            bid = block_of(f, n)
            for cn, br in (edge_guards(f, bid) if bid is not None else []):
                for a, tr, env in atoms(sy, cn, br):
                    for m in a.strip().walk():
                        if m.is_call() and m.callee is not None and m.obj is not None and m.callee.name in ("size", "empty", "begin", "end") and sy.path(m.obj, env) == pt:
                            ok = True
            if ok or pt is None:
                continue
            # tensors made here from lists of edges are not decided; rank 0 has exactly one block
            if pt[0][0] == "v" and p.vars[pt[0][1]]["k"] == "local":
                init = sy.tables(f)[0].get(pt[0][1])
                ctor = None
                if init is not None:
                    for m in init.walk():
                        if m.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and re.search(r"\bTensor<", m.type) and len(m.args) >= 2:
                            ctor = m
                            break
                if ctor is None or not any(x.k == "MemberExpr" and x.d.get("m") == "edges" for x in ctor.args[1].walk()):
                    c.count("uses of the first block of a tensor made here, not decided")
                    continue
            elif f.info.is_ctor:
                continue
            c.violation("block:%s" % f.info.q, n.loc, "first-block-not-checked", "%s uses the first block of a tensor that may have none" % f.info.q)


def body(c):
    c.rules += [
        "the result of find, lower_bound, std::find and of functions returning such results, and pointers that start as null, are used only where a comparison with the end or null shows that something was found",
        "an offset is accumulated only from indices of the caller that are known to be below the dimension they are combined with",
        "every operation that combines edges (contraction, trace, exponential, multiple, element-wise operators) compares their dimensions and rejects any difference, for every rank",
        "the plan of a transposition rejects lists of names of another length and names that do not exist",
        "the first block of a tensor with symmetry is used only where one is known to exist",
    ]
    c.assumptions += ["at() of the standard containers rejects missing keys", "lists of edges given to split_edge fit the edge, as its documentation asks of the caller"]
    for p in targets.all_progs(c.thorough):
        sy = Sym(p)
        lookups(c, p, sy)
        offsets(c, p, sy)
        dimensions(c, p, sy)
        transposes(c, p, sy)
        first_block(c, p, sy)
    c.need("lookup results followed", 5)
    c.need("offsets computed from indices of the caller", 1)


report.main("C08", "dataflow of lookup results and control dependence of rejections", body)
