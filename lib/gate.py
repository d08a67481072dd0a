"""Symbolic values of expressions at a program point, by lazy case splitting.

`Gate.ev` evaluates an expression in a calling context (frame) to a value in an exact domain:
  ("P", frozenset((monomial, coef)))  integer polynomial over opaque atoms (monomial: sorted tuple of atoms)
  ("ptr", base, poly)                 pointer into the buffer `base` at an element offset
  ("addr", value)                     address of a scalar holding `value`
  ("str", text) / ("b", bool) / ("top", key)
A condition that is not a constant raises Need(atom); the driver `cases` splits on it, so every
result is a plain value under an assignment of truth values to condition atoms.  Variables with
several definitions are resolved by reaching definitions over the CFG pruned by the assignment.
Nothing is executed: loops are not unrolled, variables changed in loops stay opaque."""
from ir import Node
from loops import block_of, loops
from flow import parents


class Need(Exception):
    def __init__(self, atom):
        self.atom = atom


class Frame:
    def __init__(self, fn, bind=None, up=None, call=None):
        self.fn, self.bind, self.up, self.call = fn, bind or {}, up, call
        self.key = (up.key if up else ()) + ((call.fn.info.id, call.id) if call is not None else (fn.info.id,),)


def P(d):
    return ("P", frozenset((m, c) for m, c in d.items() if c))


def num(n):
    return P({(): n})


def atom(a):
    return P({(a,): 1})


def isP(v):
    return v is not None and v[0] == "P"


def padd(a, b, s=1):
    d = dict(a[1])
    for m, c in b[1]:
        d[m] = d.get(m, 0) + s * c
    return P(d)


def pmul(a, b):
    d = {}
    for m, c in a[1]:
        for n, e in b[1]:
            k = tuple(sorted(m + n, key=repr))
            d[k] = d.get(k, 0) + c * e
    return P(d)


def pconst(v):
    """int value of a constant polynomial, else None"""
    if not isP(v):
        return None
    if not v[1]:
        return 0
    if len(v[1]) == 1:
        (m, c), = v[1]
        return c if m == () else None
    return None


def psub(v, a, w):
    """Replace atom a by polynomial w."""
    out = num(0)
    for m, c in v[1]:
        t = num(c)
        for x in m:
            t = pmul(t, w if x == a else atom(x))
        out = padd(out, t)
    return out


def patoms(v):
    return {x for m, _ in v[1] for x in m}


def pshow(v, names=lambda a: str(a)):
    if not isP(v):
        return str(v)
    if not v[1]:
        return "0"
    out = []
    for m, c in sorted(v[1], key=lambda z: (len(z[0]), repr(z))):
        s = "*".join(names(x) for x in m)
        out.append((s if c == 1 and s else ("%d*%s" % (c, s) if s else str(c))))
    return "+".join(out)


SCALAR_INT = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "long long", "unsigned long long", "char", "bool", "unsigned char"}


def base_type(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    while t.endswith("&") or t.endswith("const") or t.endswith("__restrict"):
        t = t[:-1].strip() if t.endswith("&") else t[:-len("const")].strip() if t.endswith("const") else t[:-len("__restrict")].strip()
    return t


class Gate:
    def __init__(self, prog, maxdepth=8, inline=True):
        self.p = prog
        self.inline = inline
        self.maxdepth = maxdepth
        self.extra = {}

    # ---- case splitting driver
    def cases(self, f, limit=64, asg=None):
        """All (assignment, f(assignment)) over the case split f needs; None if too many."""
        out, work = [], [dict(asg or {})]
        while work:
            a = work.pop()
            if len(out) + len(work) > limit:
                return None
            try:
                out.append((a, f(a)))
            except Need as n:
                for tv in (True, False):
                    b = dict(a)
                    b[n.atom] = tv
                    if self.consistent(b):
                        work.append(b)
        return out

    def consistent(self, asg):
        pos = [a for a, t in asg.items() if t and a[0] == "gt"]
        neg = [a for a, t in asg.items() if not t and a[0] == "gt"]
        for a in pos:
            for b in pos:
                # a > 0 and b > 0 with a + b <= 0
                s = pconst(padd(a[1], b[1]))
                if s is not None and s <= 1:
                    return False
        for a in pos:
            for b in neg:
                # a >= 1, b <= 0: contradiction when b - a >= 0
                s = pconst(padd(b[1], a[1], -1))
                if s is not None and s >= 0:
                    return False
        for a in neg:
            for b in neg:
                s = pconst(padd(a[1], b[1]))
                if s is not None and s > 0:
                    return False
        eqs = [a[1] for a, t in asg.items() if t and a[0] == "eq"]
        for i, x in enumerate(eqs):
            for y in eqs[i + 1:]:
                for s in (1, -1):
                    c = pconst(padd(x, y, s))
                    if c:
                        return False
        for a, t in asg.items():
            if a[0] == "eq":
                for q in pos:
                    for s in (1, -1):
                        c = pconst(padd(a[1], q[1], s))
                        if t and c is not None and ((s == -1 and c >= 0) or (s == 1 and c <= 0)):
                            return False
        return True

    def truth(self, at, asg):
        """Truth of atom under assignment, or raise Need."""
        if at in asg:
            return asg[at]
        if at[0] == "eq":
            c = pconst(at[1])
            if c is not None:
                return c == 0
            # parity residues take two values
            a = {x for x in patoms(at[1])}
            if len(a) == 1 and next(iter(a))[0] == "mod2":
                x = next(iter(a))
                co = dict(at[1][1])
                k = -co.get((), 0) * (1 if co.get((x,), 0) > 0 else -1)
                if k not in (0, 1):
                    return False
                other = self.eq_atom(padd(atom(x), num(1 - k), -1))
                if other in asg:
                    return not asg[other]
        if at[0] == "gt":
            c = pconst(at[1])
            if c is not None:
                return c > 0
        for tv in (True, False):
            b = dict(asg)
            b[at] = tv
            if not self.consistent(b):
                return not tv
        raise Need(at)

    def eq_atom(self, d):
        # canonical sign
        it = sorted(d[1], key=lambda z: repr(z[0]), reverse=True)
        if it and it[0][1] < 0:
            d = P({m: -c for m, c in d[1]})
        return ("eq", d)

    def cmp(self, op, l, r, asg):
        if isP(l) and isP(r):
            d = padd(l, r, -1)
            if op == "==":
                return self.truth(self.eq_atom(d), asg)
            if op == "!=":
                return not self.truth(self.eq_atom(d), asg)
            if op == ">":
                return self.truth(("gt", d), asg)
            if op == "<":
                return self.truth(("gt", P({m: -c for m, c in d[1]})), asg)
            if op == ">=":
                return not self.truth(("gt", P({m: -c for m, c in d[1]})), asg)
            if op == "<=":
                return not self.truth(("gt", d), asg)
        return None

    # ---- expressions
    def tbool(self, v, asg):
        if v[0] == "b":
            return v[1]
        if isP(v):
            c = pconst(v)
            if c is not None:
                return c != 0
            at = self.only_bool(v)
            if at is not None:
                return self.truth(at, asg)
            return not self.truth(self.eq_atom(v), asg)
        return self.truth(("t", v), asg)

    def only_bool(self, v):
        if len(v[1]) == 1:
            (m, c), = v[1]
            if c == 1 and len(m) == 1 and m[0][0] == "bool":
                return m[0]
        return None

    def key(self, fr, n):
        return ("n", fr.key, n.id)

    def ev(self, n, fr, asg, depth=0):
        if depth > 60:
            return ("top", self.key(fr, n))
        if n.iv is not None:
            t = base_type(n.type)
            return ("b", bool(n.iv)) if t == "bool" else num(n.iv)
        m = n.strip()
        if m.id != n.id:
            # conversions between integer types are transparent except to bool
            v = self.ev(m, fr, asg, depth + 1)
            if base_type(n.type) == "bool" and base_type(m.type) != "bool" and (isP(v)):
                return ("b", self.tbool(v, asg))
            if base_type(n.type) in SCALAR_INT and v[0] == "b" and base_type(n.type) != "bool":
                return num(int(v[1]))
            return v
        k = n.k
        if n.iv is not None:
            return num(n.iv)
        if k == "StringLiteral":
            return ("str", n.d.get("str", n.d.get("s", "?")))
        if k == "CharacterLiteral":
            return num(n.d.get("iv", 0))
        if k == "DeclRefExpr":
            if n.var is None:
                return ("top", ("fn", n.d.get("fn")))
            return self.var(n.var, n, fr, asg, depth)
        if k == "UnaryOperator":
            if n.op == "&":
                x = n.kids[0].strip()
                if x.k == "ArraySubscriptExpr" or (x.is_call() and x.obj is not None and x.callee is not None and x.callee.name == "operator[]"):
                    b, i = (x.kids[0], x.kids[1]) if x.k == "ArraySubscriptExpr" else (x.obj, x.params_args[0])
                    pb = self.ptrto(b, fr, asg, depth + 1)
                    pi = self.ev(i, fr, asg, depth + 1)
                    if pb is not None and pb[0] == "ptr" and isP(pi):
                        return ("ptr", pb[1], padd(pb[2], pi))
                    return ("addr", self.ev(x, fr, asg, depth + 1))
                return ("addr", self.ev(x, fr, asg, depth + 1))
            if n.op == "*":
                v = self.ev(n.kids[0], fr, asg, depth + 1)
                return self.load(v, fr, asg, n, depth)
            if n.op == "!":
                return ("b", not self.tbool(self.ev(n.kids[0], fr, asg, depth + 1), asg))
            if n.op == "-":
                v = self.ev(n.kids[0], fr, asg, depth + 1)
                return padd(num(0), v, -1) if isP(v) else ("top", self.key(fr, n))
            if n.op == "+":
                return self.ev(n.kids[0], fr, asg, depth + 1)
            return ("top", self.key(fr, n))
        if k == "ConditionalOperator":
            ks = n.kids
            c = self.tbool(self.ev(ks[0], fr, asg, depth + 1), asg)
            return self.ev(ks[1] if c else ks[2], fr, asg, depth + 1)
        if k == "BinaryOperator":
            return self.binary(n, fr, asg, depth)
        if k == "ArraySubscriptExpr":
            pb = self.ptrto(n.kids[0], fr, asg, depth + 1)
            pi = self.ev(n.kids[1], fr, asg, depth + 1)
            if pb is not None and pb[0] == "ptr" and isP(pi):
                return self.elem(pb[1], padd(pb[2], pi), fr, asg, n, depth)
            return ("top", self.key(fr, n))
        if n.is_call():
            return self.call(n, fr, asg, depth)
        if k == "MemberExpr":
            lv = self.lval(n, fr, asg, depth + 1)
            return self.opaque(n, ("lv", lv))
        return self.opaque(n, self.key(fr, n))

    def opaque(self, n, key):
        t = base_type(n.type)
        if t == "bool":
            return P({(("bool",) + (key,),): 1})
        if t in SCALAR_INT:
            return atom(key)
        if n.type.rstrip("const ").endswith("*") or "*" in n.type[-12:]:
            return ("ptr", key, num(0))
        return ("top", key)

    def binary(self, n, fr, asg, depth):
        op = n.op
        if op in ("&&", "||"):
            l = self.tbool(self.ev(n.kids[0], fr, asg, depth + 1), asg)
            if op == "&&" and not l:
                return ("b", False)
            if op == "||" and l:
                return ("b", True)
            return ("b", self.tbool(self.ev(n.kids[1], fr, asg, depth + 1), asg))
        if op == ",":
            return self.ev(n.kids[1], fr, asg, depth + 1)
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            return self.ev(n.kids[1], fr, asg, depth + 1) if op == "=" else ("top", self.key(fr, n))
        l, r = self.ev(n.kids[0], fr, asg, depth + 1), self.ev(n.kids[1], fr, asg, depth + 1)
        if l[0] == "b":
            l = num(int(l[1]))
        if r[0] == "b":
            r = num(int(r[1]))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            lb, rb = (self.only_bool(x) if isP(x) else None for x in (l, r))
            if (lb or rb) and op in ("==", "!=") and isP(l) and isP(r):
                a, b = self.tbool(l, asg), self.tbool(r, asg)
                return ("b", (a == b) == (op == "=="))
            c = self.cmp(op, l, r, asg)
            if c is not None:
                return ("b", c)
            if op in ("==", "!="):
                return ("b", self.truth(("same", frozenset((l, r))), asg) == (op == "=="))
            return ("b", self.truth(("rel", op, l, r), asg))
        if op == "^" and isP(l) and isP(r) and (self.only_bool(l) or self.only_bool(r)):
            return ("b", self.tbool(l, asg) != self.tbool(r, asg))
        if l[0] == "ptr" and isP(r) and op in ("+", "-"):
            return ("ptr", l[1], padd(l[2], r, 1 if op == "+" else -1))
        if r[0] == "ptr" and isP(l) and op == "+":
            return ("ptr", r[1], padd(r[2], l))
        if isP(l) and isP(r):
            if op == "+":
                return padd(l, r)
            if op == "-":
                return padd(l, r, -1)
            if op == "*":
                return pmul(l, r)
            if op == "%" and pconst(r) == 2:
                c = pconst(l)
                return num(c % 2) if c is not None else atom(("mod2", l))
            return atom(("op", op, l, r))
        return self.opaque(n, ("op", op, l, r))

    def load(self, v, fr, asg, n, depth):
        if v[0] == "addr":
            return v[1]
        if v[0] == "ptr":
            return self.elem(v[1], v[2], fr, asg, n, depth)
        return ("top", self.key(fr, n))

    # ---- memory
    def ptrto(self, n, fr, asg, depth):
        """Pointer to the first element of a container or pointer expression."""
        t = n.strip().type
        if t.rstrip().endswith("*") or t.endswith("*const") or "*" in t[-14:] or t.endswith("]"):
            v = self.ev(n, fr, asg, depth + 1)
            return v
        return ("ptr", self.lval(n, fr, asg, depth + 1), num(0))

    def lval(self, n, fr, asg, depth=0):
        n = n.strip()
        if depth > 40:
            return self.key(fr, n)
        if n.k == "DeclRefExpr" and n.var is not None:
            v = n.var
            f = self.owner_frame(v, fr)
            if f is None:
                return ("v", None, v)
            d = self.p.vars[v]
            t = self.p.types[d["t"]]
            if v in f.bind:
                b = f.bind[v]
                if b[0] == "lv":
                    return b[1]
                return ("v", f.key, v)
            if t.endswith("&") and d["k"] == "local":
                df = self.defs(f.fn).get(v, [])
                if len(df) == 1 and df[0][1] is not None:
                    return self.lval(df[0][1], f, asg, depth + 1)
            return ("v", f.key, v)
        if n.k == "MemberExpr" and n.kids and "fn" not in n.d:
            return ("m", self.lval(n.kids[0], fr, asg, depth + 1), n.d["m"])
        if n.k == "CXXThisExpr":
            return fr.bind.get("this", ("this",))
        if n.k == "ConditionalOperator":
            c = self.tbool(self.ev(n.kids[0], fr, asg, depth + 1), asg)
            return self.lval(n.kids[1 if c else 2], fr, asg, depth + 1)
        if n.k == "UnaryOperator" and n.op == "*":
            x = n.kids[0].strip()
            return ("d", self.lval(x, fr, asg, depth + 1))
        if n.is_call() and n.callee is not None and n.obj is not None:
            nm = n.callee.name
            if nm in ("operator->", "operator*", "get"):
                return ("d", self.lval(n.obj, fr, asg, depth + 1))
            if nm in ("at", "operator[]", "front", "back", "begin"):
                a = [self.ev(x, fr, asg, depth + 1) for x in n.params_args]
                return ("e", self.lval(n.obj, fr, asg, depth + 1), nm, tuple(x if x[0] == "P" else ("o",) + tuple(x[1:]) for x in a) if all(isP(x) for x in a) else self.key(fr, n))
        return self.key(fr, n)

    def owner_frame(self, v, fr):
        """Frame of the function that declares v (captured variables belong to an outer frame)."""
        f = fr
        while f is not None:
            if v in f.bind or v in self.declared(f.fn):
                return f
            f = f.up
        return None

    def declared(self, fn):
        d = fn.__dict__.get("_declared")
        if d is None:
            d = set(x for x in fn.info.params if x is not None)
            for n in fn.nodes():
                if n.k == "DeclStmt":
                    for x in n.d["ds"]:
                        if x.get("v") is not None:
                            d.add(x["v"])
                        for y in x.get("bindings", []):
                            d.add(y["v"])
            fn._declared = d
        return d

    def defs(self, fn):
        """var -> [(node of the definition, rhs node or None)]"""
        t = fn.__dict__.get("_gdefs")
        if t is not None:
            return t
        t = {}

        def add(v, n, rhs):
            t.setdefault(v, []).append((n, rhs))
        for n in fn.nodes():
            if n.k == "DeclStmt":
                for d in n.d["ds"]:
                    if d.get("v") is not None:
                        add(d["v"], n, fn.node(d["init"]) if d.get("init", -1) >= 0 else None)
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                s = n.kids[0].strip()
                if s.k == "DeclRefExpr" and s.var is not None and not self.p.vtype(s.var).endswith("&"):
                    add(s.var, n, n.kids[1] if n.op == "=" else None)
            elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                s = n.kids[0].strip()
                if s.k == "DeclRefExpr" and s.var is not None:
                    add(s.var, n, None)
            elif n.is_call():
                c = self.p.resolve(n)
                pts = c.param_types if c is not None else []
                for i, a in enumerate(n.params_args):
                    s = a.strip()
                    ty = pts[i] if i < len(pts) else ""
                    if s.k == "DeclRefExpr" and s.var is not None and ty.endswith("&") and not ty.endswith("&&") and not ty.startswith("const "):
                        add(s.var, n, None)
                    if s.k == "UnaryOperator" and s.op == "&" and not (ty.startswith("const ")):
                        s2 = s.kids[0].strip()
                        if s2.k == "DeclRefExpr" and s2.var is not None:
                            add(s2.var, n, None)
        fn._gdefs = t
        return t

    def nodepos(self, fn, n):
        """(block, element index) where n is evaluated."""
        pos = fn.__dict__.get("_gpos")
        if pos is None:
            pos = {}
            for bid, b in fn.blocks.items():
                for i, e in enumerate(b.elems):
                    if isinstance(e, int):
                        pos.setdefault(e, (bid, i))
            fn._gpos = pos
        seen = 0
        x = n.id
        par = parents(fn)
        while x not in pos and seen < 30:
            ps = par.get(x, [])
            if not ps:
                break
            x = ps[0]
            seen += 1
        return pos.get(x)

    def preds(self, fn):
        p = fn.__dict__.get("_gpreds")
        if p is None:
            p = {}
            for b in fn.live():
                for s, br in fn.succs(fn.blocks[b]):
                    p.setdefault(s, []).append((b, br))
            fn._gpreds = p
        return p

    def feasible(self, fn, bid, br, fr, asg):
        """May the edge (bid, br) be taken?  (possible, undecided atom)"""
        if br is None:
            return True, None
        blk = fn.blocks[bid]
        c = blk.d.get("lcond", blk.d.get("cond", -1))
        if c is None or c < 0:
            return True, None
        st = self.extra.setdefault("stack", [])
        k = (fr.key, bid)
        if k in st or len(st) >= 3:
            return True, None
        memo = self.memo(asg).setdefault(len(st), {})
        if k in memo:
            v, at = memo[k]
        else:
            st.append(k)
            try:
                v, at = self.tbool(self.ev(fn.node(c), fr, asg), asg), None
            except Need as e:
                v, at = None, e.atom
            finally:
                st.pop()
            memo[k] = (v, at)
        return (True, at) if v is None else (v == br, None)

    def memo(self, asg):
        """Results that only depend on the assignment."""
        m = self.extra.get("memo")
        if m is None or m[0] != asg:
            m = self.extra["memo"] = (dict(asg), {})
        return m[1]

    def greach(self, fn, v, n):
        """Definitions of v that reach n in the plain control flow graph (None: position unknown)."""
        memo = fn.__dict__.setdefault("_greach", {})
        k = (v, n.id)
        if k in memo:
            return memo[k]
        dn = {}
        for d, rhs in self.defs(fn).get(v, []):
            p = self.nodepos(fn, d)
            if p is not None:
                dn.setdefault(p[0], []).append((p[1], d, rhs))
        for q in dn:
            dn[q].sort(key=lambda z: z[0])
        pos = self.nodepos(fn, n)
        if pos is None:
            memo[k] = None
            return None
        out, seen, work = [], set(), [(pos[0], pos[1])]
        while work:
            bid, idx = work.pop()
            cand = [x for x in dn.get(bid, []) if x[0] < idx]
            if cand:
                if cand[-1] not in out:
                    out.append(cand[-1])
                continue
            if bid == fn.entry:
                if ("entry",) not in out:
                    out.append(("entry",))
                continue
            for (q, br) in self.preds(fn).get(bid, []):
                if q not in seen:
                    seen.add(q)
                    work.append((q, 10 ** 9))
        memo[k] = out
        return out

    def reaching(self, v, n, fr, asg):
        """(definitions of v that reach n, undecided atoms met on the way)"""
        fn = fr.fn
        dn = {}
        for d, rhs in self.defs(fn).get(v, []):
            p = self.nodepos(fn, d)
            if p is not None:
                dn.setdefault(p[0], []).append((p[1], d, rhs))
        for k in dn:
            dn[k].sort(key=lambda z: z[0])
        pos = self.nodepos(fn, n)
        if pos is None:
            return None, []
        out, und, seen = [], [], set()
        start = True
        work = [(pos[0], pos[1])]
        while work:
            bid, idx = work.pop()
            cand = [x for x in dn.get(bid, []) if x[0] < idx]
            if cand:
                if cand[-1] not in out:
                    out.append(cand[-1])
                continue
            if bid == fn.entry:
                if ("entry",) not in out:
                    out.append(("entry",))
                continue
            for (q, br) in self.preds(fn).get(bid, []):
                if (q, br) in seen:
                    continue
                seen.add((q, br))
                ok, at = self.feasible(fn, q, br, fr, asg)
                if not ok:
                    continue
                if at is not None and at not in und and fn.blocks[q].d.get("term") not in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt"):
                    und.append(at)
                work.append((q, 10 ** 9))
        return out, und

    def var(self, v, n, fr, asg, depth):
        f = self.owner_frame(v, fr)
        d = self.p.vars[v]
        t = self.p.types[d["t"]]
        if f is None:
            return self.opaque(n, ("v", None, v))
        ds = self.defs(f.fn).get(v, [])
        if v in f.bind and not ds:
            b = f.bind[v]
            return b[2] if b[0] == "lv" else b[1]
        if not ds:
            return self.opaque(n, ("v", f.key, v))
        if f is not fr:
            # captured: usable when it has one definition
            if len(ds) == 1 and ds[0][1] is not None and v not in f.bind:
                return self.from_rhs(v, ds[0][1], f, asg, depth, n)
            return self.opaque(n, ("v", f.key, v))
        if len(ds) == 1 and v not in f.bind:
            if ds[0][1] is None:
                return self.opaque(n, ("v", f.key, v, ds[0][0].id))
            return self.from_rhs(v, ds[0][1], f, asg, depth, n)
        rs, und = self.greach(f.fn, v, n), []
        if rs is not None and len(rs) > 1 and not self.loop_var(f.fn, v, n):
            rs, und = self.reaching(v, n, f, asg)
        if rs is not None and len(rs) == 1:
            r = rs[0]
            if r == ("entry",):
                b = f.bind.get(v)
                if b is not None:
                    return b[2] if b[0] == "lv" else b[1]
            elif r[2] is not None:
                return self.from_rhs(v, r[2], f, asg, depth, n)
            else:
                return self.opaque(n, ("v", f.key, v, r[1].id))
        bt = base_type(t)
        if rs and und and bt != "bool" and not self.loop_var(f.fn, v, n):
            raise Need(und[0])
        return self.opaque(n, ("v", f.key, v, tuple(sorted(str(r[1].id) if len(r) > 1 else "e" for r in rs or []))))

    def loop_var(self, fn, v, n):
        """Is v changed inside a loop that contains n?"""
        p = self.nodepos(fn, n)
        for l in loops(fn):
            if p and p[0] in l.body:
                for d, _ in self.defs(fn).get(v, []):
                    q = self.nodepos(fn, d)
                    if q and q[0] in l.body:
                        return True
        return False

    def from_rhs(self, v, rhs, f, asg, depth, use):
        t = self.p.vtype(v)
        val = self.ev(rhs, f, asg, depth + 1)
        if val[0] == "top":
            return self.opaque(use, ("v", f.key, v)) if base_type(t) in SCALAR_INT else (("ptr", ("v", f.key, v), num(0)) if "*" in t[-12:] else val)
        if isP(val) and any(x[0] == "n" for x in patoms(val)) and not t.endswith("&") and val in [atom(x) for x in patoms(val)]:
            return self.opaque(use, ("v", f.key, v))
        if base_type(t) == "bool" and isP(val):
            return val if self.only_bool(val) else ("b", self.tbool(val, asg))
        return val

    # ---- calls
    def bind_args(self, n, c, fr, asg, depth):
        b = {}
        for i, a in enumerate(n.params_args):
            if i >= len(c.params) or c.params[i] is None:
                continue
            t = self.p.vtype(c.params[i])
            v = self.ev(a, fr, asg, depth + 1)
            if t.endswith("&"):
                b[c.params[i]] = ("lv", self.lval(a, fr, asg, depth + 1), v)
            else:
                b[c.params[i]] = ("val", v)
        if n.obj is not None:
            b["this"] = self.lval(n.obj, fr, asg, depth + 1)
        return b

    def frame(self, n, c, fr, asg):
        return Frame(c.body, self.bind_args(n, c, fr, asg, 0), fr, n)

    def call(self, n, fr, asg, depth):
        c = self.p.resolve(n)
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if len(n.args) == 1:
                v = self.ev(n.args[0], fr, asg, depth + 1)
                return v
            return ("top", self.key(fr, n))
        if c is None:
            return self.opaque(n, self.key(fr, n))
        if n.obj is not None and not (c.in_repo and c.body is not None):
            if c.name in ("data", "c_str", "begin", "cbegin") and not c.params:
                return ("ptr", self.lval(n.obj, fr, asg, depth + 1), num(0))
            if c.name in ("operator[]", "at", "front") and ("vector" in base_type(n.obj.strip().type)[:40] or "array" in base_type(n.obj.strip().type)[:20] or "basic_string" in n.obj.strip().type):
                i = self.ev(n.params_args[0], fr, asg, depth + 1) if n.params_args else num(0)
                if isP(i):
                    return self.elem(self.lval(n.obj, fr, asg, depth + 1), i, fr, asg, n, depth)
            if c.name in ("size", "length") and not c.params:
                lv = self.lval(n.obj, fr, asg, depth + 1)
                s = self.capacity(lv, fr, asg)
                return s if s is not None else atom(("size", lv))
            if c.name in ("real",) and not c.params:
                return self.ev(n.obj, fr, asg, depth + 1)
            return self.opaque(n, ("lv", self.lval(n, fr, asg, depth + 1)))
        if c.q in ("std::min", "std::max") and len(n.args) == 2:
            l, r = (self.ev(a, fr, asg, depth + 1) for a in n.args)
            g = self.cmp("<", l, r, asg)
            if g is not None:
                return (l if g else r) if c.q == "std::min" else (r if g else l)
        if self.inline and c.in_repo and c.body is not None and not c.body.nocfg and len(fr.key) < self.maxdepth:
            r = self.inlined(n, c, fr, asg, depth)
            if r is not None:
                return r
        return self.opaque(n, self.key(fr, n))

    def inlined(self, n, c, fr, asg, depth):
        if c.ret == "void":
            return None
        f2 = Frame(c.body, self.bind_args(n, c, fr, asg, depth), fr, n)
        rets, und = self.returns(f2, asg)
        if len(rets) == 1 and rets[0].kids:
            return self.ev(rets[0].kids[0], f2, asg, depth + 1)
        if len(rets) > 1 and und and not loops(c.body):
            raise Need(und[0])
        return None

    def returns(self, fr, asg):
        fn = fr.fn
        seen, st, rets, und = {fn.entry}, [fn.entry], [], []
        while st:
            b = st.pop()
            blk = fn.blocks[b]
            els, dead = fn.block_elems(blk)
            for e in els:
                if isinstance(e, Node) and e.k == "ReturnStmt":
                    rets.append(e)
            for s, br in fn.succs(blk):
                ok, at = self.feasible(fn, b, br, fr, asg)
                if at is not None and at not in und:
                    und.append(at)
                if ok and s not in seen:
                    seen.add(s)
                    st.append(s)
        return rets, und

    def reachable(self, fr, asg):
        """Blocks of the frame's function that can be reached under the assignment."""
        fn = fr.fn
        seen, st = {fn.entry}, [fn.entry]
        while st:
            b = st.pop()
            for s, br in fn.succs(fn.blocks[b]):
                if s in seen:
                    continue
                ok, _ = self.feasible(fn, b, br, fr, asg)
                if ok:
                    seen.add(s)
                    st.append(s)
        return seen

    # ---- containers
    def container(self, lv, fr):
        """(frame, var) of a local container lvalue."""
        if lv[0] == "v" and lv[1] is not None:
            f = fr
            while f is not None:
                if f.key == lv[1]:
                    return f, lv[2]
                f = f.up
        return None, None

    MUT = {"resize", "push_back", "emplace_back", "assign", "clear", "insert", "pop_back", "swap", "erase", "reserve"}

    def capacity(self, lv, fr, asg):
        """Element count of a local vector constructed with a count, else None."""
        if lv in self.extra.get("cap", {}):
            return self.extra["cap"][lv]
        f, v = self.container(lv, fr)
        if f is None or v in f.bind:
            return None
        t = base_type(self.p.vtype(v))
        if "vector<" not in t[:24] and "vector<" not in t:
            return None
        ds = [x for x in self.defs(f.fn).get(v, [])]
        ctor = [x for x in ds if x[0].k == "DeclStmt"]
        if len(ctor) != 1 or ctor[0][1] is None:
            return None
        for n in f.fn.nodes():
            if n.is_call() and n.obj is not None and n.callee is not None and n.callee.name in self.MUT:
                s = n.obj.strip()
                if s.k == "DeclRefExpr" and s.var == v:
                    if n.callee.name == "reserve":
                        continue
                    return None
        x = ctor[0][1].strip()
        for _ in range(6):
            if x.is_call() and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and x.args:
                a = x.args[0].strip()
                if base_type(x.args[0].type) in SCALAR_INT:
                    r = self.ev(x.args[0], f, asg)
                    return r if isP(r) else None
                if base_type(a.type) == base_type(x.type):
                    x = a
                    continue
            break
        return None

    def stores(self, fn, v):
        """[(store node, index node or None, value node)] into the elements of container variable v."""
        c = fn.__dict__.setdefault("_gstores", {})
        if v in c:
            return c[v]
        out = []
        for n in fn.nodes():
            if n.k == "BinaryOperator" and n.op == "=":
                s = n.kids[0].strip()
                b = i = None
                if s.k == "ArraySubscriptExpr":
                    b, i = s.kids[0].strip(), s.kids[1]
                elif s.is_call() and s.callee is not None and s.callee.name in ("operator[]", "at") and s.obj is not None:
                    b, i = s.obj.strip(), s.params_args[0]
                if b is not None and b.k == "DeclRefExpr" and b.var == v:
                    out.append((n, i, n.kids[1]))
            elif n.is_call() and n.callee is not None and n.callee.name == "operator=" and n.obj is not None:
                s = n.obj.strip()
                if s.is_call() and s.callee is not None and s.callee.name in ("operator[]", "at") and s.obj is not None:
                    b = s.obj.strip()
                    if b.k == "DeclRefExpr" and b.var == v and n.params_args:
                        out.append((n, s.params_args[0], n.params_args[0]))
            elif n.is_call() and n.callee is not None and n.callee.name in ("push_back", "emplace_back") and n.obj is not None and n.params_args:
                b = n.obj.strip()
                if b.k == "DeclRefExpr" and b.var == v:
                    out.append((n, None, n.params_args[0]))
        c[v] = out
        return out

    def elem(self, lv, idx, fr, asg, n, depth):
        """Value of element idx of container lv: the value stored by the only store into it."""
        f, v = self.container(lv, fr)
        if f is not None and v not in f.bind:
            st = self.stores(f.fn, v)
            if len(st) == 1:
                s, i, val = st[0]
                self.extra.setdefault("elems", []).append((lv, s, i, idx, f))
                r = self.ev(val, f, asg, depth + 1)
                if r[0] != "top":
                    return r
        return self.opaque(n, ("el", lv, idx))
