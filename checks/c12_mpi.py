"""C12: collective communication matches on all processes."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ir import Node, REPO, extract_many
from report import main
from sym import Sym
from cond import edge_guards, atoms, control_conditions
from loops import loops, exits, block_of, trip
import targets

TOP = ("top",)
CMP = {"<": ("<", False), ">": ("<", True), "<=": ("<=", False), ">=": ("<=", True), "==": ("==", False), "!=": ("!=", False)}


# ---------------------------------------------------------------- linear forms
def lin(d=None, c=0):
    return ("lin", frozenset((k, v) for k, v in (d or {}).items() if v), c)


def ladd(a, b, s=1):
    if a[0] != "lin" or b[0] != "lin":
        return TOP
    d = dict(a[1])
    for k, v in b[1]:
        d[k] = d.get(k, 0) + s * v
    return lin(d, a[2] + s * b[2])


def lmul(a, b):
    if a[0] != "lin" or b[0] != "lin":
        return TOP
    if a[1] and b[1]:
        return TOP
    if a[1]:
        a, b = b, a
    return lin({k: v * a[2] for k, v in b[1]}, a[2] * b[2])


SIZE, RANK, ROOT = "size", "rank", "root"
F = ("F",)


def lmod(a, b):
    if a[0] != "lin" or b != lin({SIZE: 1}):
        return TOP
    d = dict(a[1])
    s = d.pop(SIZE, 0)
    if d == {RANK: 1, ROOT: -1} and a[2] == 0:
        return lin({F: 1}) if s >= 1 else lin({("badF", "the remainder of a possibly negative number"): 1})
    if d == {RANK: -1, ROOT: 1} and a[2] == 0:
        return lin({("badF", "the distance is taken in the opposite direction"): 1})
    if s < 0:
        return TOP
    r = d.pop(ROOT, 0)
    if any(k in (RANK,) or (isinstance(k, tuple) and k[0] in ("mod", "badF")) for k in d):
        return lin({("mod", r, lin(d, a[2])): 1}) if RANK in d else lin({("mod", r, a): 1})
    return lin({("mod", r, lin(d, a[2])): 1})


def ldiv(a, b):
    if a[0] != "lin" or b[0] != "lin" or b[1] or b[2] <= 0:
        return TOP
    if not a[1]:
        return lin({}, a[2] // b[2]) if a[2] >= 0 else TOP
    if b[2] == 1:
        return a
    return lin({("div", a, b[2]): 1})


def show(v):
    if v[0] != "lin":
        return "?"
    t = []
    for k, c in sorted(v[1], key=repr):
        n = {SIZE: "size", RANK: "rank", ROOT: "root", F: "fake_rank"}.get(k)
        if n is None:
            n = "(%s)/%d" % (show(k[1]), k[2]) if k[0] == "div" else "(%s%s)%%size" % (show(k[2]), "+root" if k[1] == 1 else "") if k[0] == "mod" else "bad fake rank"
        t.append(n if c == 1 else "%d*%s" % (c, n))
    if v[2] or not t:
        t.append(str(v[2]))
    return "+".join(t)


class NotUnderstood(Exception):
    pass


class Tree:
    """All paths of broadcast/reduce with their messages, in the domain of linear forms of (size, rank, root)."""

    def __init__(self, prog, sy):
        self.p, self.sy = prog, sy
        self.uid = 0

    def run(self, fn, args, depth=0, env0=None):
        if fn is None or fn.nocfg or depth > 4:
            raise NotUnderstood("no body")
        if loops(fn):
            raise NotUnderstood("loop in " + fn.info.name)
        env = dict(env0 or {})
        for i, v in enumerate(fn.info.params):
            env[v] = args[i] if i < len(args) else TOP
        out = []
        work = [(fn.entry, env, {}, [], [])]
        n = 0
        while work:
            bid, env, vals, cons, evs = work.pop()
            n += 1
            if n > 600:
                raise NotUnderstood("too many paths")
            b = fn.blocks[bid]
            els, dead = fn.block_elems(b)
            states = [(dict(env), dict(vals), list(cons), list(evs), None)]
            thrown = False
            for e in els:
                if not isinstance(e, Node):
                    continue
                if e.k == "CXXThrowExpr":
                    thrown = True
                    break
                new = []
                for st in states:
                    if st[4] is not None:
                        new.append(st)
                        continue
                    new += self.elem(e, st, depth)
                states = new
            if thrown or dead:
                continue
            for env, vals, cons, evs, ret in states:
                if ret is not None:
                    out.append((ret[0], cons, evs, env))
                    continue
                succ = fn.succs(b)
                if bid == fn.exit or not succ:
                    out.append((("void",), cons, evs, env))
                    continue
                for s, br in succ:
                    if s == fn.exit and br is None:
                        out.append((("void",), cons, evs, env))
                        continue
                    c2 = cons
                    if br is not None and len(succ) == 2:
                        cn = b.d.get("lcond", b.d.get("cond", -1))
                        cv = vals.get(fn.node(cn).strip().id, vals.get(cn, TOP)) if cn is not None and cn >= 0 else TOP
                        if cv[0] == "bool":
                            if cv[1] != br:
                                continue
                        elif cv[0] == "cmp":
                            c2 = cons + [(cv, br)]
                            if not feasible(c2):
                                continue
                        else:
                            c2 = cons + [(("unknown", fn.node(cn) if cn is not None and cn >= 0 else None), br)]
                    work.append((s, env, vals, c2, evs))
        return out

    def val(self, n, vals, env):
        m = n
        while True:
            if m.id in vals:
                return vals[m.id]
            s = m.strip()
            if s.id == m.id:
                break
            m = s
        if m.iv is not None:
            return lin({}, m.iv)
        return self.leaf(m, vals, env)

    def leaf(self, m, vals, env):
        if m.k == "DeclRefExpr" and m.var is not None:
            if m.var in env:
                return env[m.var]
            v = self.p.vars[m.var]
            if v.get("iv") is not None:
                return lin({}, v["iv"])
            return TOP
        if m.k == "MemberExpr" and "fn" not in m.d:
            if m.d.get("m") in (SIZE, RANK):
                return lin({m.d["m"]: 1})
        return TOP

    def elem(self, e, st, depth):
        env, vals, cons, evs, _ = st
        V = lambda n: self.val(n, vals, env)
        k = e.k

        def put(v):
            vals[e.id] = v
            return [(env, vals, cons, evs, None)]
        if e.iv is not None and not e.is_call():
            return put(("bool", bool(e.iv)) if e.type in ("bool", "const bool") else lin({}, e.iv))
        if k == "ReturnStmt":
            return [(env, vals, cons, evs, (V(e.kids[0]) if e.kids else ("void",),))]
        if k == "DeclStmt":
            for d in e.d["ds"]:
                if d.get("v") is None:
                    continue
                env[d["v"]] = V(e.fn.node(d["init"])) if d.get("init", -1) >= 0 else ("data", ())
            return [(env, vals, cons, evs, None)]
        if k in ("DeclRefExpr", "MemberExpr"):
            return put(self.leaf(e, vals, env))
        if k == "UnaryOperator":
            a = V(e.kids[0])
            if e.op == "!" and a[0] == "cmp":
                return put(("cmp", a[1], a[2], not a[3]))
            if e.op == "!" and a[0] == "bool":
                return put(("bool", not a[1]))
            if e.op == "-":
                return put(lmul(lin({}, -1), a) if a[0] == "lin" else TOP)
            if e.op == "*" or e.op == "&" or e.op == "+":
                return put(a)
            if e.op in ("++", "--"):
                s = e.kids[0].strip()
                if s.k == "DeclRefExpr" and s.var is not None:
                    env[s.var] = TOP
                return put(TOP)
            return put(TOP)
        if k == "BinaryOperator":
            if e.op == "=":
                s = e.kids[0].strip()
                v = V(e.kids[1])
                if s.k == "DeclRefExpr" and s.var is not None:
                    env[s.var] = v
                return put(v)
            if e.op in ("&&", "||"):
                r = e.kids[1].strip()
                l = V(e.kids[0])
                if r.id in vals or e.kids[1].id in vals:
                    return put(V(e.kids[1]))
                return put(("bool", e.op == "||"))
            if e.op == ",":
                return put(V(e.kids[1]))
            a, b = V(e.kids[0]), V(e.kids[1])
            if e.op in CMP and a[0] == "lin" and b[0] == "lin":
                o, sw = CMP[e.op]
                if sw:
                    a, b = b, a
                d = ladd(b, a, -1)       # b - a
                if o == "<":
                    return put(("cmp", ">=", ladd(d, lin({}, -1)), True))    # b-a-1 >= 0
                if o == "<=":
                    return put(("cmp", ">=", d, True))
                return put(("cmp", "==", d, o == "=="))
            if e.op in ("+", "-"):
                return put(self.norm(ladd(a, b, 1 if e.op == "+" else -1), cons))
            if e.op == "*":
                return put(lmul(a, b))
            if e.op == "%":
                return put(lmod(a, b))
            if e.op == "/":
                return put(ldiv(a, b))
            if e.op == "<<" and b[0] == "lin" and not b[1] and 0 <= b[2] < 16:
                return put(lmul(a, lin({}, 1 << b[2])))
            if e.op == ">>" and b[0] == "lin" and not b[1] and 0 <= b[2] < 16:
                return put(ldiv(a, lin({}, 1 << b[2])))
            return put(TOP)
        if k == "CompoundAssignOperator":
            s = e.kids[0].strip()
            a, b = V(e.kids[0]), V(e.kids[1])
            v = {"+=": lambda: ladd(a, b), "-=": lambda: ladd(a, b, -1), "*=": lambda: lmul(a, b), "%=": lambda: lmod(a, b), "/=": lambda: ldiv(a, b)}.get(e.op, lambda: TOP)()
            v = self.norm(v, cons) if v[0] == "lin" else v
            if s.k == "DeclRefExpr" and s.var is not None:
                env[s.var] = v
            return put(v)
        if k == "ConditionalOperator":
            for x in e.kids[1:]:
                y = x
                while True:
                    if y.id in vals:
                        return put(vals[y.id])
                    z = y.strip()
                    if z.id == y.id:
                        break
                    y = z
            # leaves are not recorded as elements: use the last constraint's branch
            return put(TOP)
        if e.is_call():
            return self.call(e, st, depth)
        if len(e.kids) == 1:
            return put(V(e.kids[0]))
        return [(env, vals, cons, evs, None)]

    def norm(self, v, cons):
        """rank-root under rank>=root and rank-root+size otherwise are the distance from the root."""
        if v[0] != "lin":
            return v
        d = dict(v[1])
        if d.get(RANK) == 1 and d.get(ROOT) == -1:
            s = d.get(SIZE, 0)
            for c, br in cons:
                if c[0] == "cmp" and c[1] == ">=":
                    t = c[3] == br
                    q = dict(c[2][1])
                    if (q == {RANK: 1, ROOT: -1} and c[2][2] == 0 and ((t and s == 0) or (not t and s == 1))) or \
                            (q == {RANK: -1, ROOT: 1} and c[2][2] == -1 and ((not t and s == 0) or (t and s == 1))):
                        for x in (RANK, ROOT, SIZE):
                            d.pop(x, None)
                        d[F] = d.get(F, 0) + 1
                        return lin(d, v[2])
        return v

    def call(self, e, st, depth):
        env, vals, cons, evs, _ = st
        V = lambda n: self.val(n, vals, env)

        def put(v):
            vals[e.id] = v
            return [(env, vals, cons, evs, None)]
        c = self.p.resolve(e)
        if c is None:
            # call of a function parameter
            cal = e.fn.node(e.d["callee"]).strip() if e.d.get("callee", -1) >= 0 else None
            if cal is not None and cal.k == "DeclRefExpr" and env.get(cal.var, TOP)[0] == "func":
                return put(self.combine([V(a) for a in e.args]))
            for a in e.args:
                if V(a)[0] == "data":
                    return put(self.combine([V(a) for a in e.args]))
            return put(TOP)
        if e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if not e.args:
                return put(("data", ()))
            if len(e.args) == 1 or all(a.k == "CXXDefaultArgExpr" for a in e.args[1:]):
                return put(V(e.args[0]))
            return put(TOP)
        if c.q == "TAT::mpi_t::receive":
            peer = V(e.params_args[0])
            self.uid += 1
            vals[e.id] = ("data", ((("from", self.uid), 1),))
            return [(env, vals, cons, evs + [("recv", peer, None, e, self.uid)], None)]
        if c.q == "TAT::mpi_t::send":
            return [(env, vals, cons, evs + [("send", V(e.params_args[1]), V(e.params_args[0]), e, 0)], None)]
        if c.name == "operator=" and len(e.args) == 2:
            s = e.args[0].strip()
            v = V(e.args[1])
            if s.k == "DeclRefExpr" and s.var is not None:
                env[s.var] = v
            return put(v)
        if c.name == "operator()" and e.args:
            if V(e.args[0])[0] == "func":
                return put(self.combine([V(a) for a in e.args[1:]]))
        if c.q in ("std::move", "std::forward", "std::as_const") and e.args:
            return put(V(e.args[0]))
        if c.q == "std::exchange" or c.q == "std::swap":
            raise NotUnderstood(c.q)
        if c.body is not None and c.in_repo and not c.name.endswith("_guard"):
            q = c.q
            if q.startswith("TAT::mpi_t::") or c.is_lambda or c.name == "operator()" or c.ret in ("int", "const int", "bool", "unsigned int", "long"):
                pa = e.params_args
                env0 = {k: v for k, v in env.items()} if (c.is_lambda or c.name == "operator()") else {}
                res = self.run(c.body, [V(a) for a in pa], depth + 1, env0)
                out = []
                for ret, c2, ev2, env2 in res:
                    cc = cons + c2
                    if not feasible(cc):
                        continue
                    v2 = dict(vals)
                    v2[e.id] = ret
                    en = dict(env)
                    if c.is_lambda or c.name == "operator()":
                        for k in en:
                            if k in env2:
                                en[k] = env2[k]
                    out.append((en, v2, cc, evs + ev2, None))
                return out
        for a in e.params_args:
            s = a.strip()
            if s.k == "DeclRefExpr" and s.var in env and env[s.var][0] in ("data",) and not c.name.endswith("_guard"):
                i = e.params_args.index(a)
                pts = c.param_types
                if i < len(pts) and pts[i].endswith("&") and not pts[i].startswith("const "):
                    raise NotUnderstood("the value is passed to " + c.name)
        return put(TOP)

    def combine(self, vs):
        d = {}
        for v in vs:
            if v[0] != "data":
                return TOP
            if v == ("data", ()):
                d["empty"] = d.get("empty", 0) + 1
            for k, n in v[1]:
                d[k] = d.get(k, 0) + n
        return ("data", tuple(sorted(d.items(), key=repr)))


# ---------------------------------------------------------------- constraints
def classify(c, br):
    """('one', t) size==1 | ('root', t) F==0 | ('son', k, b, t) kF+b<size | ('range',) | None"""
    if c[0] != "cmp":
        return None
    t = c[3] == br
    d, k0 = dict(c[2][1]), c[2][2]
    ks = set(d)
    if c[1] == "==":
        if ks == {SIZE} and abs(d[SIZE]) == 1 and -k0 * d[SIZE] == 1:
            return ("one", t)
        if ks == {F} and k0 == 0:
            return ("root", t)
        if ks == {RANK, ROOT} and d[RANK] == -d[ROOT] and k0 == 0:
            return ("root", t)
        if ks == {ROOT} and k0 == 0:
            return ("range",)
        return None
    if ks == {SIZE}:
        if d[SIZE] == 1 and k0 == -2:      # size >= 2
            return ("one", not t)
        if d[SIZE] == -1 and k0 == 1:      # size <= 1
            return ("one", t)
        return None
    if ks == {F}:
        if d[F] == 1 and k0 == -1:
            return ("root", not t)
        if d[F] == -1 and k0 == 0:
            return ("root", t)
        return None
    if ks == {F, SIZE}:
        if d[SIZE] == 1 and d[F] < 0:
            return ("son", -d[F], -k0 - 1, t)
        if d[SIZE] == -1 and d[F] > 0:
            return ("son", d[F], k0, not t)
        return None
    if ks <= {ROOT, SIZE}:
        return ("range",)
    if ks == {RANK, ROOT}:
        return ("side",)
    return None


def son_implied(cl, k, b):
    """Does the path decide k*F+b < size?"""
    one = next((c[1] for c in cl if c and c[0] == "one"), None)
    root = next((c[1] for c in cl if c and c[0] == "root"), None)
    if one and b >= 1:
        return False
    if root and one is False and b <= 1:
        return True
    for c in cl:
        if c and c[0] == "son":
            if c[3] and (c[1] >= k and c[2] >= b):
                return True
            if not c[3] and (c[1] <= k and c[2] <= b):
                return False
    return None


def feasible(cons):
    cl = [classify(c, b) for c, b in cons]
    one = {c[1] for c in cl if c and c[0] == "one"}
    root = {c[1] for c in cl if c and c[0] == "root"}
    if len(one) > 1 or len(root) > 1:
        return False
    if one == {True} and root == {False}:
        return False
    for i, c in enumerate(cl):
        if c and c[0] == "son":
            o = son_implied(cl[:i] + cl[i + 1:], c[1], c[2])
            if o is not None and o != c[3]:
                return False
    seen = {}
    for c, b in cons:
        if c[0] == "cmp":
            key = (c[1], c[2])
            t = c[3] == b
            if seen.setdefault(key, t) != t:
                return False
    return True


def peer_of(v):
    """X such that the peer is the real rank of fake rank X, or an error text, or None (unknown)."""
    if v[0] != "lin":
        return None
    d = dict(v[1])
    for k in d:
        if isinstance(k, tuple) and k[0] == "badF":
            return ("bad", "the distance from the root is wrong: " + k[1])
        if isinstance(k, tuple) and k[0] == "div":
            for q, _ in k[1][1]:
                if isinstance(q, tuple) and q[0] == "badF":
                    return ("bad", "the distance from the root is wrong: " + q[1])
    if len(d) == 1 and v[2] == 0:
        (k, c), = d.items()
        if isinstance(k, tuple) and k[0] == "mod" and c == 1:
            if any(isinstance(q, tuple) and (q[0] == "badF" or (q[0] == "div" and any(isinstance(z, tuple) and z[0] == "badF" for z, _ in q[1][1]))) for q, _ in k[2][1]):
                return ("bad", "the distance from the root is wrong")
            for q, cq in k[2][1]:
                if isinstance(q, tuple) and q[0] == "div" and cq > 0 and dict(q[1][1]).get(RANK, 0) < 0 and k[1] == 1:
                    return ("bad", "the distance is taken in the opposite direction")
            if any(q == RANK or (isinstance(q, tuple) and q[0] == "div" and RANK in dict(q[1][1])) for q, _ in k[2][1]):
                return None
            if k[1] != 1:
                return ("bad", "the peer is not shifted back by the root")
            return ("fake", k[2])
        if k == ROOT and c == 1:
            return ("fake", lin({}, 0))
    return ("bad", "the peer %s is not a rank computed as (distance+root)%%size" % show(v))


def tree_shape(x):
    d = dict(x[1])
    if set(d) == {F}:
        return ("son", d[F], x[2])
    if len(d) == 1 and x[2] == 0:
        (k, c), = d.items()
        if isinstance(k, tuple) and k[0] == "div" and c == 1 and dict(k[1][1]) == {F: 1}:
            return ("father", k[2], -k[1][2])
    return None


def check_tree(c, prog, sy, fn, kind):
    t = Tree(prog, sy)
    ps = fn.info.params
    args = [("data", (("own", 1),)), lin({ROOT: 1})] + [("func",)] * (len(ps) - 2)
    try:
        paths = t.run(fn, args)
    except NotUnderstood as ex:
        c.count("communication trees not understood")
        c.sample("%s: %s" % (fn.info.name, ex))
        return
    key = "tree:" + kind
    where = fn.info.loc
    parsed = []
    for ret, cons, evs, _ in paths:
        for k, p, d, n, _ in evs:
            po = peer_of(p)
            if po is not None and po[0] == "bad" and "opposite" in po[1]:
                c.violation(key + ":peer", n.loc, "peer", "%s %ss with a peer of which %s" % (kind, k, po[1]))
                return
    for ret, cons, evs, _ in paths:
        cl = [classify(x, b) for x, b in cons]
        if any(x is None for x in cl):
            bad = [x for x, b in cons if classify(x, b) is None]
            if any(x[0] == "cmp" and any(isinstance(q, tuple) and q[0] == "badF" for q, _ in x[2][1]) for x in bad):
                c.violation(key + ":fake", where, "distance from the root", "%s compares a distance from the root that is wrong for some ranks" % kind)
            c.count("communication trees not understood")
            c.sample("%s: condition %s" % (kind, [show(x[2]) if x[0] == "cmp" else "?" for x in bad]))
            return
        if any(peer_of(p) is None for _, p, _, _, _ in evs):
            c.count("communication trees not understood")
            return
        parsed.append((ret, cl, evs))
    # every process executes exactly one path; the tree must be the same function of the distance on both ends
    down, up = ("send", "recv") if kind == "broadcast" else ("recv", "send")
    sons, fathers = {}, set()
    for ret, cl, evs in parsed:
        for k, p, d, n, _ in evs:
            po = peer_of(p)
            c.count("messages of the communication trees")
            if po[0] == "bad":
                c.violation(key + ":peer", n.loc, "peer", "%s %ss with a peer of which %s" % (kind, k, po[1]))
                return
            sh = tree_shape(po[1])
            if sh is None:
                c.violation(key + ":shape", n.loc, "peer", "%s: the peer %s is neither the father nor a son in the tree" % (kind, show(po[1])))
                return
            if sh[0] == "son":
                if k != down:
                    c.violation(key + ":dir", n.loc, "direction", "%s: a %s with a son" % (kind, k))
                    return
                sons[(sh[1], sh[2])] = n
            else:
                if k != up:
                    c.violation(key + ":dir", n.loc, "direction", "%s: a %s with the father" % (kind, k))
                    return
                fathers.add((sh[1], sh[2], n.loc))
    if not sons or not fathers:
        c.count("communication trees not understood")
        return
    ar = {k for k, b in sons}
    k0 = max(ar)
    if ar != {k0} or sorted(b for _, b in sons) != list(range(1, k0 + 1)):
        c.violation(key + ":sons", where, "tree", "%s: the sons %s of a process do not enumerate all processes exactly once" % (kind, ", ".join("%d*f+%d" % s for s in sorted(sons))))
        return
    for k, b, loc in fathers:
        if (k, b) != (k0, 1):
            c.violation(key + ":father", loc, "tree", "%s: the father (f-%d)/%d is not the process that has f as a son" % (kind, b, k))
            return
    c.count("communication trees decided")
    for ret, cl, evs in parsed:
        one = next((x[1] for x in cl if x and x[0] == "one"), None)
        root = next((x[1] for x in cl if x and x[0] == "root"), None)
        if one:
            root = True
        desc = "the path with " + (", ".join("%s=%s" % (("size==1" if x[0] == "one" else "is root" if x[0] == "root" else "%d*f+%d<size" % (x[1], x[2])), x[-1]) for x in cl if x[0] in ("one", "root", "son")) or "no condition")
        fat = [(i, e) for i, e in enumerate(evs) if tree_shape(peer_of(e[1])[1])[0] == "father"]
        if root is None and len(fat) != 0:
            c.violation(key + ":father-guard", fat[0][1][3].loc, "root has no father", "%s: on %s the root also communicates with a father" % (kind, desc))
            continue
        if root is None:
            c.violation(key + ":father-missing", where, "message to the father", "%s: on %s a process that is not the root does not communicate with its father" % (kind, desc))
            continue
        if len(fat) != (0 if root else 1):
            c.violation(key + ":father-count", where, "one message with the father", "%s: on %s there are %d messages with the father" % (kind, desc, len(fat)))
            continue
        have = {}
        for b in range(1, k0 + 1):
            ev = [i for i, e in enumerate(evs) if tree_shape(peer_of(e[1])[1]) == ("son", k0, b)]
            ex = son_implied(cl, k0, b)
            if ex is None:
                c.violation("%s:son-guard" % key, evs[ev[0]][3].loc if ev else where, "son exists",
                            "%s: on %s whether the son %d*f+%d exists is not decided although the message %s" % (kind, desc, k0, b, "is sent" if ev else "is omitted"))
                continue
            if len(ev) != (1 if ex else 0):
                c.violation("%s:son-count" % key, where, "one message per son", "%s: on %s there are %d messages with the son %d*f+%d" % (kind, desc, len(ev), k0, b))
            have[b] = ev
        # order
        downs = [i for i, e in enumerate(evs) if tree_shape(peer_of(e[1])[1])[0] == "son"]
        ups = [i for i, _ in fat]
        if downs and ups and ((kind == "broadcast" and min(downs) < max(ups)) or (kind == "reduce" and max(downs) > min(ups))):
            c.violation(key + ":order", where, "order", "%s: on %s messages are sent before the value is complete" % (kind, desc))
            continue
        # data
        if kind == "broadcast":
            want = ("data", (("own", 1),)) if root else ("data", ((("from", evs[ups[0]][4]), 1),))
            for i in downs:
                if evs[i][2] != want and evs[i][2] is not None and evs[i][2][0] == "data":
                    c.violation(key + ":data", evs[i][3].loc, "value", "broadcast: on %s the value passed on is not the root's value" % desc)
            if ret[0] == "data" and ret != want:
                c.violation(key + ":ret", where, "value", "broadcast: on %s the returned value is not the root's value" % desc)
        else:
            want = dict([("own", 1)] + [(("from", evs[i][4]), 1) for i in downs])
            for i in ups:
                if evs[i][2][0] == "data" and dict(evs[i][2][1]) != want:
                    c.violation(key + ":data", evs[i][3].loc, "value", "reduce: on %s the value sent to the father does not contain every process of the subtree exactly once" % desc)
            if root and ret[0] == "data" and dict(ret[1]) != want:
                c.violation(key + ":ret", where, "value", "reduce: on %s the root's result does not contain every process exactly once" % desc)
        c.count("paths of the communication trees")


def check_pair(c, prog, sy, fn):
    """send_receive: the source sends its value to the destination, which receives it from the source and returns it."""
    ps = fn.info.params
    if len(ps) != 3:
        return
    src, dst = lin({"source": 1}), lin({"destination": 1})
    try:
        paths = Tree(prog, sy).run(fn, [("data", (("own", 1),)), src, dst])
    except NotUnderstood:
        return

    def truth(cons, who):
        for k, b in cons:
            if k[0] == "cmp" and k[1] == "==" and k[2][2] == 0 and dict(k[2][1]) in ({RANK: 1, who: -1}, {RANK: -1, who: 1}):
                return k[3] == b
        return None
    for ret, cons, evs, _ in paths:
        c.count("paths of point-to-point transfers")
        s, d = truth(cons, "source"), truth(cons, "destination")
        for k, p, data, n, _ in evs:
            if k == "send" and (s is not True or p != dst or (data and data[0] == "data" and dict(data[1]) != {"own": 1})):
                c.violation("pair:send", n.loc, "transfer", "send_receive: the value is not sent by the source to the destination")
            if k == "recv" and (d is not True or p != src):
                c.violation("pair:recv", n.loc, "transfer", "send_receive: the value is not received by the destination from the source")
        ns, nr = sum(e[0] == "send" for e in evs), sum(e[0] == "recv" for e in evs)
        if s is True and ns != 1 and d is not True:
            c.violation("pair:nosend", fn.info.loc, "transfer", "send_receive: the source sends %d messages" % ns)
        if d is True and s is not True:
            if nr != 1:
                c.violation("pair:norecv", fn.info.loc, "transfer", "send_receive: the destination receives %d messages" % nr)
            elif ret[0] == "data" and not any(isinstance(k, tuple) for k, _ in ret[1]):
                c.violation("pair:ret", fn.info.loc, "transfer", "send_receive: the destination does not return what it received")


# ---------------------------------------------------------------- raw MPI calls
TYPES = {
    "ompi_mpi_float": {"float"}, "ompi_mpi_double": {"double"},
    "ompi_mpi_c_float_complex": {"std::complex<float>"}, "ompi_mpi_c_double_complex": {"std::complex<double>"},
    "ompi_mpi_c_complex": {"std::complex<float>"}, "ompi_mpi_cxx_cplex": {"std::complex<float>"}, "ompi_mpi_cxx_dblcplex": {"std::complex<double>"},
    "ompi_mpi_uint32_t": {"unsigned int"}, "ompi_mpi_int32_t": {"int"}, "ompi_mpi_int": {"int"}, "ompi_mpi_unsigned": {"unsigned int"},
    "ompi_mpi_uint64_t": {"unsigned long", "unsigned long long"}, "ompi_mpi_int64_t": {"long", "long long"},
    "ompi_mpi_unsigned_long": {"unsigned long"}, "ompi_mpi_long": {"long"},
    "ompi_mpi_char": {"char"}, "ompi_mpi_cxx_bool": {"bool"}, "ompi_mpi_byte": None,
}


def datatype(n):
    for x in n.walk():
        if x.k == "DeclRefExpr" and x.var is not None:
            nm = x.fn.prog.vname(x.var)
            if nm in TYPES:
                return nm
    return None


def pointee(n):
    n = n.strip()
    if n.k == "UnaryOperator" and n.op == "&":
        return n.kids[0].strip().type
    t = n.type
    return t.rstrip("const").strip().rstrip("*").strip() if t.endswith("*") else t


def clean(t):
    return t.replace("const ", "").strip()


def owner_var(n, fn, sy, depth=0):
    """The variable whose bytes n points to, for x.data()/c_str()/&x[0]/&x."""
    n = n.strip()
    if n.k == "CallExpr" or n.k == "CXXMemberCallExpr":
        o = n.obj
        if o is not None and n.callee is not None and n.callee.name in ("data", "c_str", "length", "size", "begin"):
            return owner_var(o, fn, sy, depth + 1)
    if n.k == "UnaryOperator" and n.op in ("&", "*"):
        return owner_var(n.kids[0], fn, sy, depth + 1)
    if n.is_call() and n.callee is not None and n.callee.name in ("operator[]", "front", "at") and n.obj is not None:
        return owner_var(n.obj, fn, sy, depth + 1)
    if n.k == "DeclRefExpr" and n.var is not None:
        t = clean(sy.p.vtype(n.var))
        init, bind, assigned = sy.tables(fn)
        if depth < 8 and n.var in init and n.var not in assigned and (t.endswith("*") or t in ("int", "unsigned long", "long") or t.endswith("&")):
            r = owner_var(init[n.var], fn, sy, depth + 1)
            if r is not None:
                return r
        return n.var
    return None


def check_raw(c, prog, sy):
    tags = {}
    for fn in prog.repo_fns():
        calls = [n for n in fn.calls() if n.callee is not None and n.callee.name.startswith("MPI_")]
        if not calls:
            continue
        by = {}
        for n in calls:
            by.setdefault(n.callee.name, []).append(n)
        for nm, ti in (("MPI_Send", 4), ("MPI_Ssend", 4), ("MPI_Isend", 4), ("MPI_Recv", 4), ("MPI_Probe", 1)):
            for n in by.get(nm, []):
                c.count("point-to-point calls")
                v = sy.value(n.args[ti])
                if v is not None and v[0] == "c":
                    tags.setdefault(v[1], []).append(n)
                elif n.args[ti].strip().iv is not None:
                    tags.setdefault(n.args[ti].strip().iv, []).append(n)
        for n in by.get("MPI_Send", []) + by.get("MPI_Ssend", []):
            dt = datatype(n.args[2])
            bv, cv = owner_var(n.args[0], fn, sy), owner_var(n.args[1], fn, sy)
            if dt == "ompi_mpi_byte" and bv is not None and cv is not None and bv != cv:
                c.violation("send-length:" + fn.info.name, n.loc, "length", "%s sends a buffer with the length of another object" % fn.info.name)
            if dt is not None and dt != "ompi_mpi_byte" and dt != "ompi_mpi_char":
                c.violation("send-type:" + fn.info.name, n.loc, "datatype", "%s sends serialised bytes as %s" % (fn.info.name, dt))
            s = n.args[1].strip()
            if s.k == "BinaryOperator" and s.op in ("-", "/", "+") and bv is not None:
                c.violation("send-length:" + fn.info.name, n.loc, "length", "%s does not send exactly the serialised bytes" % fn.info.name)
        for n in by.get("MPI_Recv", []):
            pr = by.get("MPI_Probe", [])
            gc = by.get("MPI_Get_count", [])
            if len(pr) == 1:
                a, b = sy.path(pr[0].args[0]), sy.path(n.args[3])
                va, vb = sy.value(pr[0].args[0]), sy.value(n.args[3])
                if va is not None and vb is not None and va != vb and va[0] in ("p", "c") and vb[0] in ("p", "c"):
                    c.violation("recv-source:" + fn.info.name, n.loc, "source", "%s measures the message of one source and receives from another" % fn.info.name)
            if len(gc) == 1:
                d1, d2 = datatype(gc[0].args[1]), datatype(n.args[2])
                if d1 is not None and d2 is not None and d1 != d2:
                    c.violation("recv-type:" + fn.info.name, n.loc, "datatype", "%s counts the message in %s and receives %s" % (fn.info.name, d1, d2))
                lv = owner_var(gc[0].args[2], fn, sy)
                cnt = n.args[1].strip()
                used = {x.var for x in cnt.walk() if x.k == "DeclRefExpr"}
                if cnt.k == "DeclRefExpr" and lv is not None and lv not in used:
                    iv = sy.tables(fn)[0].get(cnt.var)
                    bo = owner_var(cnt, fn, sy)
                    if iv is None or not any(x.k == "DeclRefExpr" and x.var == lv for x in iv.walk()):
                        if bo is None or bo == cnt.var:
                            c.violation("recv-length:" + fn.info.name, n.loc, "length", "%s receives a length that is not the length of the message" % fn.info.name)
                bv = owner_var(n.args[0], fn, sy)
                if bv is not None and lv is not None:
                    bi = sy.tables(fn)[0].get(bv)
                    grown = any(x.is_call() and x.callee is not None and x.callee.name in ("resize", "assign", "reserve") and x.obj is not None and owner_var(x.obj, fn, sy) == bv for x in fn.nodes())
                    if bi is not None and not grown:
                        refs = {x.var for x in bi.walk() if x.k == "DeclRefExpr"}
                        full = set(refs)
                        for r in refs:
                            i2 = sy.tables(fn)[0].get(r)
                            if i2 is not None:
                                full |= {x.var for x in i2.walk() if x.k == "DeclRefExpr"}
                        if lv not in full:
                            c.violation("recv-buffer:" + fn.info.name, n.loc, "buffer", "%s receives into a buffer that was not sized for the message" % fn.info.name)
                        for x in bi.walk():
                            if x.k == "BinaryOperator" and x.op in ("-", "/"):
                                c.violation("recv-buffer:" + fn.info.name, n.loc, "buffer", "%s receives into a buffer smaller than the message" % fn.info.name)
        for nm, (bi_, ci, di) in {"MPI_Bcast": (0, 1, 2), "MPI_Allreduce": (0, 2, 3), "MPI_Reduce": (0, 2, 3)}.items():
            for n in by.get(nm, []):
                c.count("typed MPI buffers")
                dt = datatype(n.args[di])
                pt = clean(pointee(n.args[bi_]))
                if dt is not None and TYPES[dt] is not None and pt and pt != "void" and pt not in TYPES[dt]:
                    c.violation("buffer-type:%s:%s" % (fn.info.name, nm), n.loc, "datatype", "%s passes a buffer of %s to %s as %s" % (fn.info.name, pt, nm, dt))
                cnt = sy.value(n.args[ci])
                s = n.args[bi_].strip()
                if s.k == "UnaryOperator" and s.op == "&" and s.kids[0].strip().k == "DeclRefExpr" and cnt is not None and cnt[0] == "c" and cnt[1] != 1 and "[" not in s.kids[0].strip().type:
                    c.violation("buffer-count:%s:%s" % (fn.info.name, nm), n.loc, "count", "%s passes one object to %s with count %d" % (fn.info.name, nm, cnt[1]))
        if fn.info.name == "get_mpi_type":
            pass
    if len(tags) > 1:
        common = max(tags, key=lambda k: len(tags[k]))
        for k, ns in tags.items():
            if k != common:
                c.violation("tag:" + ns[0].fn.info.name, ns[0].loc, "tag", "%s uses tag %d where its counterparts use %d" % (ns[0].fn.info.name, k, common))
    for fn in prog.repo_fns():
        if fn.info.name == "get_mpi_type" and fn.info.d.get("targs"):
            want = clean(str(fn.info.d["targs"][0]))
            for n in fn.live_nodes():
                if n.k == "ReturnStmt" and n.kids:
                    dt = datatype(n.kids[0])
                    c.count("typed MPI buffers")
                    if dt is not None and TYPES[dt] is not None and want not in TYPES[dt] and want.replace("square::complex", "std::complex") not in TYPES[dt]:
                        c.violation("mpi-type:" + want, n.loc, "datatype", "get_mpi_type<%s> returns %s" % (want, dt))
    # what is sent is the serialised value and what is received is parsed completely
    for fn in prog.repo_fns():
        if fn.info.q in ("TAT::mpi_t::send", "TAT::mpi_t::receive") and not fn.nocfg:
            c.count("serialising transfers")
            if fn.info.name == "send":
                ops = [n for n in fn.calls() if n.callee is not None and n.callee.name == "operator<" and len(n.args) == 2]
                vals = [n for n in ops if n.args[1].strip().k == "DeclRefExpr" and n.args[1].strip().var == fn.info.params[0]]
                if ops and not vals:
                    c.violation("send-value", fn.info.loc, "value", "send serialises something other than its argument")


# ---------------------------------------------------------------- rank dependence of collectives
RAWCOLL = {"MPI_Barrier", "MPI_Bcast", "MPI_Allreduce", "MPI_Reduce", "MPI_Allgather", "MPI_Gather", "MPI_Scatter", "MPI_Init", "MPI_Finalize"}
MPICOLL = {"TAT::mpi_t::broadcast", "TAT::mpi_t::reduce", "TAT::mpi_t::barrier"}


def rank_tainted(sy, fn, n, memo, depth=0):
    """Does the value of n depend on mpi_t::rank?"""
    for x in n.walk():
        if x.k == "MemberExpr" and x.d.get("m") == RANK and "fn" not in x.d:
            return True
        if x.k == "DeclRefExpr" and x.var is not None and depth < 6:
            kind = sy.p.vars[x.var]["k"]
            if kind in ("local", "binding"):
                key = (fn.info.id, x.var)
                if key not in memo:
                    memo[key] = False
                    init, bind, assigned = sy.tables(fn)
                    r = False
                    if x.var in init:
                        r = rank_tainted(sy, fn, init[x.var], memo, depth + 1)
                    if not r and x.var in bind:
                        r = rank_tainted(sy, fn, bind[x.var], memo, depth + 1)
                    if not r:
                        for a in assigned.get(x.var, []):
                            if a.callee is not None and a.callee.name in RAWCOLL | {"MPI_Comm_rank"}:
                                r = r or a.callee.name == "MPI_Comm_rank"
                                continue
                            if a.k in ("BinaryOperator", "CompoundAssignOperator") and rank_tainted(sy, fn, a.kids[1], memo, depth + 1):
                                r = True
                    memo[key] = r
                if memo[key]:
                    return True
        if x.is_call() and x.callee is not None and x.callee.body is not None and x.callee.in_repo and depth < 4:
            g = x.callee.body
            key = ("ret", g.info.id)
            if key not in memo:
                memo[key] = False
                if not g.nocfg and g.info.q not in MPICOLL and g.info.ret in ("bool", "int", "unsigned int", "unsigned long", "long"):
                    memo[key] = any(r.k == "ReturnStmt" and r.kids and rank_tainted(sy, g, r.kids[0], memo, depth + 1) for r in g.live_nodes())
            if memo[key]:
                return True
    return False


def taint_source(sy, fn, bid, memo):
    """A rank-dependent condition deciding whether block bid is executed."""
    for cn in control_conditions(fn, bid):
        if rank_tainted(sy, fn, cn, memo):
            return cn
    return None


def check_collectives(c, prog, sy, memo):
    coll = {}
    fns = [f for f in prog.repo_fns() if not f.nocfg]
    for f in prog.fninfo:
        if f.q in MPICOLL or f.name in RAWCOLL - {"MPI_Init", "MPI_Finalize"}:
            coll[f.id] = f.name
    changed = True
    while changed:
        changed = False
        for fn in fns:
            if fn.info.id in coll or fn.info.q.startswith("TAT::mpi_t::"):
                continue
            for n in fn.calls():
                r = prog.resolve(n)
                if r is not None and r.id in coll:
                    coll[fn.info.id] = coll[r.id]
                    changed = True
                    break
    for fn in fns:
        if fn.info.q.startswith("TAT::mpi_t::"):
            continue
        for n in fn.calls():
            r = prog.resolve(n)
            if r is None or r.id not in coll:
                continue
            c.count("collective call sites")
            b = block_of(fn, n)
            w = taint_source(sy, fn, b, memo) if b is not None else None
            if w is not None:
                c.violation("collective:%s:%s" % (fn.info.name, r.name), n.loc, "collective reached by all",
                            "%s calls the collective %s only on some processes: it depends on the rank through the condition at %s" % (fn.info.q, r.name, w.loc))
            ri = {"broadcast": 1, "reduce": 1, "MPI_Bcast": 3, "MPI_Reduce": 5}.get(r.name)
            if ri is not None and (r.q in MPICOLL or r.name in RAWCOLL) and ri < len(n.params_args):
                if rank_tainted(sy, fn, n.params_args[ri], memo):
                    c.violation("root:%s:%s" % (fn.info.name, r.name), n.loc, "same root on all", "%s: the root of %s depends on the rank" % (fn.info.q, r.name))


# ---------------------------------------------------------------- distributed work
def norm_expr(sy, fn, n, idx, depth=0):
    """Structure of an integer expression with the loop index abstracted."""
    n = n.strip()
    if n.iv is not None:
        return ("c", n.iv)
    if n.k == "DeclRefExpr" and n.var is not None:
        if n.var == idx:
            return ("idx",)
        init, bind, assigned = sy.tables(fn)
        if n.var in init and n.var not in assigned and depth < 8:
            return norm_expr(sy, fn, init[n.var], idx, depth + 1)
        return ("v", n.var)
    if n.k == "MemberExpr" and "fn" not in n.d and n.d.get("m") in (SIZE, RANK):
        return (n.d["m"],)
    if n.k == "BinaryOperator":
        a, b = norm_expr(sy, fn, n.kids[0], idx, depth + 1), norm_expr(sy, fn, n.kids[1], idx, depth + 1)
        if n.op in ("+", "*", "==", "!=") and repr(b) < repr(a):
            a, b = b, a
        return (n.op, a, b)
    if n.is_call() and n.callee is not None and n.callee.body is not None and n.callee.in_repo:
        return ("call", n.callee.id) + tuple(norm_expr(sy, fn, a, idx, depth + 1) for a in n.params_args)
    p = sy.path(n)
    return ("p", p) if p else ("?", n.id)


def index_of(fn, lp, sy):
    for b, cond, br, s in exits(lp):
        if cond is None:
            continue
        for x in cond.walk():
            if x.k == "DeclRefExpr" and x.var is not None and clean(sy.p.vtype(x.var)) in ("int", "unsigned int", "unsigned long", "long"):
                ups = [a for a in sy.tables(fn)[2].get(x.var, []) if block_of(fn, a) in lp.body]
                if ups:
                    return x.var
    return None


def writes_fields(prog, fn, memo):
    """Names of fields of *this that fn (transitively) assigns to."""
    if fn.info.id in memo:
        return memo[fn.info.id]
    memo[fn.info.id] = set()
    out = set()

    def field(n):
        n = n.strip()
        last = None
        while True:
            n = n.strip()
            if n.k == "MemberExpr" and "fn" not in n.d:
                last = n.d["m"]
                if not n.kids:
                    return None
                n = n.kids[0]
                continue
            if n.k == "CXXThisExpr":
                return last
            if n.is_call() and n.callee is not None and n.callee.name in ("operator[]", "at", "operator*", "operator->") and n.obj is not None:
                n = n.obj
                continue
            if n.k == "ArraySubscriptExpr" or (n.k == "UnaryOperator" and n.op == "*"):
                n = n.kids[0]
                continue
            return None
    for n in fn.live_nodes():
        t = None
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            t = n.kids[0]
        elif n.is_call() and n.callee is not None and n.callee.name in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=") and n.args:
            t = n.args[0]
        if t is not None:
            f = field(t)
            if f:
                out.add((f, "write"))
        if n.k == "CXXMemberCallExpr":
            r = prog.resolve(n)
            if r is not None and r.body is not None and r.in_repo and not r.body.nocfg and n.obj is not None:
                o = n.obj.strip()
                if o.k == "CXXThisExpr":
                    out |= writes_fields(prog, r.body, memo)
    memo[fn.info.id] = out
    return out


def check_split(c, prog, sy, memo):
    wm = {}
    for fn in prog.repo_fns():
        if fn.nocfg:
            continue
        bc = [n for n in fn.calls() if prog.resolve(n) is not None and prog.resolve(n).q == "TAT::mpi_t::broadcast"]
        if not bc or fn.info.q.startswith("TAT::"):
            continue
        # guarded work: calls control dependent on a comparison of some expression with the rank
        owners = []
        for n in fn.calls():
            r = prog.resolve(n)
            if r is None or r.body is None or not r.in_repo or n.obj is None or n.obj.strip().k != "CXXThisExpr":
                continue
            b = block_of(fn, n)
            if b is None:
                continue
            w = writes_fields(prog, r.body, wm)
            if not w:
                continue
            for cn, br in edge_guards(fn, b):
                s = cn.strip()
                # `if (owner != rank) continue;` is the same
                if s.k == "BinaryOperator" and ((s.op == "==" and br) or (s.op == "!=" and not br)):
                    for l, q in ((s.kids[0], s.kids[1]), (s.kids[1], s.kids[0])):
                        m = q.strip()
                        if rank_tainted(sy, fn, q, memo) and not rank_tainted(sy, fn, l, memo):
                            lp = [x for x in loops(fn) if b in x.body]
                            lp = max(lp, key=lambda x: len(x.body)) if lp else None
                            idx = index_of(fn, lp, sy) if lp else None
                            owners.append((n, w, norm_expr(sy, fn, l, idx), lp, norm_expr(sy, fn, q, idx)))
        for n, w, expr, lp, rk in owners:
            if rk != (RANK,):
                continue
            c.count("distributed loops")
            wt = rng(trip(sy, lp)) if lp else None
            sent = set()
            for m in bc:
                b = block_of(fn, m)
                outer = [x for x in loops(fn) if b in x.body]
                lo = max(outer, key=lambda x: len(x.body)) if outer else None
                idx = index_of(fn, lo, sy) if lo else None
                e = norm_expr(sy, fn, m.params_args[1], idx)
                c.count("broadcast roots")
                if idx is not None and e != expr and "?" not in repr(e) and "?" not in repr(expr) and "'call'" not in repr((e, expr)):
                    c.violation("owner:" + fn.info.name, m.loc, "root is the owner", "%s: the process that broadcasts an item is not the one that computed it" % fn.info.q)
                bt = rng(trip(sy, lo)) if lo else None
                if wt is not None and bt is not None and wt != bt:
                    c.violation("range:" + fn.info.name, m.loc, "all items", "%s: the items broadcast are not those computed" % fn.info.q)
                # target = same element
                par = None
                for x in fn.live_nodes():
                    if x.is_call() and x.callee is not None and x.callee.name == "operator=" and len(x.args) == 2 and any(y.id == m.id for y in x.args[1].walk()):
                        par = x
                if par is not None:
                    f1 = wfield(par.args[0])
                    f2 = wfield(m.params_args[0])
                    if f1 and f2:
                        sent.add(f1)
                        if f1 != f2 or elem_sig(par.args[0]) != elem_sig(m.params_args[0]):
                            c.violation("element:" + fn.info.name, m.loc, "same element", "%s stores a broadcast value in another element than it was taken from" % fn.info.q)
                else:
                    # kept in a local and stored later
                    f2 = wfield(m.params_args[0])
                    if f2:
                        sent.add(f2)
            for f, _ in sorted(w):
                if sent and f not in sent:
                    c.violation("unsent:%s:%s" % (fn.info.name, f), fn.info.loc, "everything computed is broadcast", "%s: the distributed work changes %s, which is never broadcast" % (fn.info.q, f))


def rng(t):
    return ("count", ("size", t[1]), 0) if t is not None and t[0] == "range" else t


def local_ref(n):
    """The expression a local reference is bound to."""
    if n.k == "DeclRefExpr" and n.var is not None and n.fn.prog.vtype(n.var).endswith("&") and n.fn.prog.vars[n.var]["k"] == "local":
        return Sym(n.fn.prog).tables(n.fn)[0].get(n.var)
    return None


def wfield(n):
    n = n.strip()
    last = None
    while True:
        n = n.strip()
        if n.k == "MemberExpr" and "fn" not in n.d:
            last = n.d["m"]
            if not n.kids:
                return None
            n = n.kids[0]
            continue
        if n.k == "CXXThisExpr":
            return last
        if n.is_call() and n.callee is not None and n.callee.name in ("operator[]", "at", "operator*") and n.obj is not None:
            n = n.obj
            continue
        r = local_ref(n)
        if r is not None:
            n = r
            continue
        return None


def sy_t(x):
    return x.fn.prog.vtype(x.var)


def elem_sig(n):
    """Names and constants of an element expression in order (operator[] and at are the same)."""
    out = []
    for x in n.strip().walk():
        if x.k == "DeclRefExpr" and x.var is not None:
            r = local_ref(x)
            if r is not None and r.strip().k != "DeclRefExpr" and "tuple" not in r.type and "vector" not in clean(sy_t(x)):
                out += elem_sig(r)
            else:
                out.append(("v", x.var))
        elif x.k == "MemberExpr" and "fn" not in x.d:
            out.append(("m", x.d["m"]))
        elif x.k in ("IntegerLiteral", "CharacterLiteral"):
            out.append(("c", x.iv))
    return out


def body(c):
    c.rules = [
        "broadcast and reduce are evaluated path-wise in linear forms of (size, rank, root): sons and father are inverse, guarded by existence, ordered, and carry each process's value exactly once",
        "lengths, datatypes, tags and sources of the raw MPI calls agree between sender and receiver",
        "no collective call is control dependent on the rank, roots do not depend on the rank",
        "items distributed over processes are broadcast by the process that computed them, with every field that changes",
    ]
    c.assumptions = ["MPI delivers messages in order between two processes", "the function given to reduce is pure", "trees written with loops are not decided"]
    jobs = [(targets.H, [targets.inst([("double", "NoSymmetry"), ("cdouble", "FermiU1Symmetry")])], True)] + targets.square_jobs(c.thorough)
    if c.thorough:
        jobs += [(targets.H, [targets.inst([(s, y) for y in targets.SYMS[::2]])], True) for s in targets.SCALARS]
    for prog in extract_many(jobs):
        sy = Sym(prog)
        memo = {}
        for kind in ("broadcast", "reduce"):
            for fn in prog.by_name("TAT::mpi_t::" + kind):
                check_tree(c, prog, sy, fn, kind)
        for fn in prog.by_name("TAT::mpi_t::send_receive"):
            check_pair(c, prog, sy, fn)
        check_raw(c, prog, sy)
        check_collectives(c, prog, sy, memo)
        check_split(c, prog, sy, memo)
    c.need("point-to-point calls", 1)
    c.need("collective call sites", 1)


if __name__ == "__main__":
    main("C12", "path-wise linear-form analysis of the communication trees, rank-dependence analysis of collectives", body)
