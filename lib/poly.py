"""Path-wise abstract interpretation of small loop-free functions in an exact algebraic domain.

Integers are linear forms over integer symbols and 0/1 symbols (coefficients and a constant);
truth values are polynomials over GF(2) in the 0/1 symbols.  Anything else is TOP.  Used for
the arithmetic of symmetry labels: it decides whether two functions compute the same
combination of their operands' fields.  Functions with loops are not understood (TOP)."""
from ir import Node

TOP = ("top",)


def const(n):
    return ("lin", frozenset(), n)


def lin(d, c):
    return ("lin", frozenset((k, v) for k, v in d.items() if v), c)


def sym(name):
    return lin({name: 1}, 0)


def boolsym(name):
    return ("anf", frozenset([frozenset([name])]))


def anf_const(b):
    return ("anf", frozenset([frozenset()]) if b else frozenset())


def as_lin(v):
    if v[0] == "lin":
        return v
    if v[0] == "anf":
        m = v[1]
        if not m:
            return const(0)
        if m == frozenset([frozenset()]):
            return const(1)
        return lin({("b", m): 1}, 0)
    return None


def as_anf(v):
    """Conversion to bool."""
    if v[0] == "anf":
        return v
    if v[0] == "lin":
        d = dict(v[1])
        if not d:
            return anf_const(v[2] != 0)
        if v[2] == 0 and len(d) == 1:
            (k, c), = d.items()
            if isinstance(k, tuple) and k[0] == "b":
                return ("anf", k[1])
    return None


def add(a, b, s=1):
    a, b = as_lin(a), as_lin(b)
    if a is None or b is None:
        return TOP
    d = dict(a[1])
    for k, v in b[1]:
        d[k] = d.get(k, 0) + s * v
    return lin(d, a[2] + s * b[2])


def xor(a, b):
    return ("anf", a[1] ^ b[1])


def mul_anf(a, b):
    r = frozenset()
    for x in a[1]:
        for y in b[1]:
            r = r ^ frozenset([x | y])
    return ("anf", r)


class Poly:
    def __init__(self, prog, limit=64):
        self.p = prog
        self.limit = limit

    def run(self, fn, this, args, store, depth=0):
        """this/args: ('loc', path) or values.  Returns list of (return value, store, constraints) or None."""
        if fn is None or fn.nocfg or depth > 6:
            return None
        from loops import loops
        if loops(fn):
            return None
        env = dict(store)
        frame = ("f", depth, fn.info.id)
        for i, v in enumerate(fn.info.params):
            if i >= len(args):
                return None
            t = self.p.types[self.p.vars[v]["t"]]
            a = args[i]
            if t.endswith("&"):
                if a[0] == "loc":
                    env[("ref", depth, v)] = a
                else:
                    env[("m", (depth, v))] = a if a[0] != "rec" else None
                    self.put(env, ((depth, v),), a)
            else:
                self.put(env, ((depth, v),), self.get(env, a[1]) if a[0] == "loc" else a)
        res = []
        work = [(fn.entry, env, {}, [])]
        steps = 0
        while work:
            bid, env, vals, cons = work.pop()
            steps += 1
            if steps > 400 or len(res) > self.limit:
                return None
            states = [(env, vals, cons, None)]
            b = fn.blocks[bid]
            els, dead = fn.block_elems(b)
            for e in els:
                nxt = []
                for env, vals, cons, ret in states:
                    if ret is not None:
                        nxt.append((env, vals, cons, ret))
                        continue
                    o = self.elem(fn, e, env, vals, cons, this, depth)
                    if o is None:
                        return None
                    nxt += o
                states = nxt
            for env, vals, cons, ret in states:
                if any(isinstance(e, Node) and e.k == "CXXThrowExpr" for e in els) or dead:
                    continue
                if ret is not None:
                    res.append((ret, env, cons))
                    continue
                ss = fn.succs(b)
                if not ss:
                    if bid == fn.exit:
                        res.append((None, env, cons))
                    continue
                c = b.d.get("lcond", b.d.get("cond", -1))
                cv = None
                if c is not None and c >= 0:
                    cv = self.rv(fn.node(c), env, vals, this, depth)
                    cv = as_anf(cv) if cv is not None and cv[0] in ("lin", "anf") else cv
                for s, br in ss:
                    cs = cons
                    if br is not None and cv is not None:
                        if cv[0] == "anf":
                            if cv[1] == frozenset() and br or cv[1] == frozenset([frozenset()]) and not br:
                                continue
                            cs = cons + [(cv, br)]
                        elif cv[0] == "eq0" and br != cv[2]:
                            cs = cons + [("zero", cv[1])]
                        elif cv[0] == "eq0":
                            cs = cons + [("nonzero", cv[1])]
                    work.append((s, dict(env), dict(vals), cs))
        return res

    # ---- store
    def put(self, env, path, v):
        for k in [k for k in env if isinstance(k, tuple) and k[0] == "m" and k[1][:len(path)] == path]:
            del env[k]
        if v is not None and v[0] == "rec":
            for f, x in v[1]:
                self.put(env, path + (f,), x)
            env[("m", path + ("#rec",))] = ("c",)
        else:
            env[("m", path)] = v if v is not None else TOP

    def get(self, env, path):
        v = env.get(("m", path))
        if v is not None:
            return v
        fs = {}
        for k, x in env.items():
            if isinstance(k, tuple) and k[0] == "m" and len(k[1]) > len(path) and k[1][:len(path)] == path and k[1][len(path)] != "#rec":
                fs[k[1][len(path)]] = 1
        if fs:
            return ("rec", tuple((f, self.get(env, path + (f,))) for f in sorted(fs)))
        return TOP

    # ---- expressions
    def rv(self, n, env, vals, this, depth):
        """rvalue of node."""
        v = self.ev(n, env, vals, this, depth)
        if v is None:
            return TOP
        if v[0] == "loc":
            return self.get(env, v[1])
        return v

    def ev(self, n, env, vals, this, depth):
        if n.id in vals:
            return vals[n.id]
        if n.iv is not None:
            t = n.type
            return anf_const(n.iv) if t in ("bool", "const bool") else const(n.iv)
        k = n.k
        if k == "CXXThisExpr":
            return this
        if k == "DeclRefExpr" and n.var is not None:
            r = env.get(("ref", depth, n.var))
            if r is not None:
                return r
            return ("loc", ((depth, n.var),))
        if k == "MemberExpr" and "fn" not in n.d and n.kids:
            b = self.ev(n.kids[0], env, vals, this, depth)
            if b is not None and b[0] == "loc":
                return ("loc", b[1] + (n.d["m"],))
            if b is not None and b[0] == "rec":
                return dict(b[1]).get(n.d["m"], TOP)
            return TOP
        if k == "UnaryOperator":
            x = self.ev(n.kids[0], env, vals, this, depth)
            if n.op in ("*", "&"):
                return x
            x = self.rv(n.kids[0], env, vals, this, depth)
            if n.op == "!":
                a = as_anf(x) if x[0] in ("lin", "anf") else None
                if a is not None:
                    return xor(a, anf_const(True))
                if x[0] == "eq0":
                    return ("eq0", x[1], not x[2])
                return TOP
            if n.op == "-":
                return add(const(0), x, -1)
            if n.op == "+":
                return x
            return TOP
        if k == "BinaryOperator":
            if n.op in ("&&", "||"):
                l = self.rv(n.kids[0], env, vals, this, depth)
                r = self.rv(n.kids[1], env, vals, this, depth)
                l, r = (as_anf(z) if z[0] in ("lin", "anf") else None for z in (l, r))
                if l is None or r is None:
                    return TOP
                p = mul_anf(l, r)
                return p if n.op == "&&" else xor(xor(l, r), p)
            l, r = self.rv(n.kids[0], env, vals, this, depth), self.rv(n.kids[1], env, vals, this, depth)
            return self.bin(n.op, l, r)
        if k == "ConditionalOperator":
            got = [vals[c.id] for c in n.kids[1:] if c.id in vals]
            return got[-1] if len(got) == 1 else TOP
        if k in ("ImplicitCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr") or n.k in (
                "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "ConstantExpr"):
            sub = n.d.get("sub")
            x = n.fn.node(sub) if sub is not None and sub >= 0 else (n.kids[-1] if n.kids else None)
            if x is None:
                return TOP
            ck = n.d.get("ck")
            if ck == "LValueToRValue":
                return self.rv(x, env, vals, this, depth)
            v = self.ev(x, env, vals, this, depth)
            if v is not None and v[0] == "loc" and n.type in ("bool",) and False:
                return v
            if ck in ("IntegralToBoolean",):
                v = self.rv(x, env, vals, this, depth)
                a = as_anf(v) if v[0] in ("lin", "anf") else None
                if a is not None:
                    return a
                return ("eq0", v, True) if v[0] == "lin" else TOP  # true when nonzero
            if v is not None and v[0] == "anf" and ck == "IntegralCast":
                return v
            return v
        if k == "InitListExpr":
            return ("list", tuple(self.rv(c, env, vals, this, depth) for c in n.kids))
        return TOP

    def bin(self, op, l, r):
        if op == "+":
            return add(l, r)
        if op == "-":
            return add(l, r, -1)
        if op in ("^", "!=", "=="):
            a = as_anf(l) if l[0] in ("lin", "anf") else None
            b = as_anf(r) if r[0] in ("lin", "anf") else None
            lb, rb = l[0] == "anf" or self.is01(l), r[0] == "anf" or self.is01(r)
            if a is not None and b is not None and lb and rb:
                x = xor(a, b)
                return xor(x, anf_const(True)) if op == "==" else x
            if op in ("==", "!="):
                d = add(l, r, -1)
                if d[0] == "lin":
                    if not d[1]:
                        return anf_const((d[2] == 0) == (op == "=="))
                    return ("eq0", d, op == "!=")
            return TOP
        if op in ("&", "|"):
            if (l[0] == "anf" or self.is01(l)) and (r[0] == "anf" or self.is01(r)):
                a, b = as_anf(l), as_anf(r)
                p = mul_anf(a, b)
                return p if op == "&" else xor(xor(a, b), p)
            return TOP
        if op == "*":
            l, r = as_lin(l), as_lin(r)
            if l is None or r is None:
                return TOP
            if not r[1]:
                l, r = r, l
            if not l[1]:
                return lin({k: v * l[2] for k, v in r[1]}, r[2] * l[2])
            return TOP
        if op == "%":
            if r[0] == "lin" and not r[1] and abs(r[2]) == 2 and l[0] in ("lin", "anf"):
                l = as_lin(l)
                out = anf_const(l[2] % 2)
                for k, v in l[1]:
                    if isinstance(k, tuple) and k[0] == "b":
                        if v % 2:
                            out = xor(out, ("anf", k[1]))
                    else:
                        return TOP
                return out
            return TOP
        return TOP

    def is01(self, v):
        if v[0] == "anf":
            return True
        if v[0] == "lin":
            if not v[1]:
                return v[2] in (0, 1)
            return v[2] == 0 and len(v[1]) == 1 and all(isinstance(k, tuple) and k[0] == "b" and c == 1 for k, c in v[1])
        return False

    def tobool(self, v):
        if v[0] in ("lin", "anf"):
            return as_anf(v) or TOP
        return v

    # ---- CFG elements
    def elem(self, fn, e, env, vals, cons, this, depth):
        one = [(env, vals, cons, None)]
        if not isinstance(e, Node):
            if e.get("k") == "init":
                f = e.get("v")
                nm = self.p.vars[f]["n"] if f is not None else None
                i = e.get("init", e.get("e", -1))
                if e.get("deleg") and this is not None and this[0] == "loc" and i is not None and i >= 0:
                    self.put(env, this[1], self.rv(fn.node(i), env, vals, this, depth))
                    return one
                if nm is None or this is None or this[0] != "loc":
                    return one  # base class initialiser
                v = self.rv(fn.node(i), env, vals, this, depth) if i is not None and i >= 0 else TOP
                if self.p.types[self.p.vars[f]["t"]] == "bool":
                    v = self.tobool(v)
                self.put(env, this[1] + (nm,), v)
            return one
        n = e
        k = n.k
        if k == "DeclStmt":
            for d in n.d["ds"]:
                t = self.p.types[self.p.vars[d["v"]]["t"]]
                i = d.get("init", -1)
                if i >= 0:
                    x = self.ev(fn.node(i), env, vals, this, depth)
                    if t.endswith("&") and x is not None and x[0] == "loc":
                        env[("ref", depth, d["v"])] = x
                    else:
                        v = self.rv(fn.node(i), env, vals, this, depth)
                        if t in ("bool", "const bool"):
                            v = self.tobool(v)
                        self.put(env, ((depth, d["v"]),), v)
                else:
                    self.put(env, ((depth, d["v"]),), TOP)
            return one
        if k == "ReturnStmt":
            v = self.ev(n.kids[0], env, vals, this, depth) if n.kids else ("void",)
            if v is None:
                v = TOP
            if not fn.info.ret.endswith("&") and v[0] == "loc":
                v = self.get(env, v[1])
            if fn.info.ret == "bool":
                v = self.tobool(v)
            return [(env, vals, cons, v)]
        if k == "BinaryOperator" and n.op == "=" or k == "CompoundAssignOperator":
            l = self.ev(n.kids[0], env, vals, this, depth)
            if l is None or l[0] != "loc":
                return None
            r = self.rv(n.kids[1], env, vals, this, depth)
            if k == "CompoundAssignOperator":
                r = self.bin(n.op[:-1], self.get(env, l[1]), r)
            if n.kids[0].type.replace("const ", "") == "bool":
                r = self.tobool(r)
            self.put(env, l[1], r)
            vals[n.id] = l
            return one
        if k == "UnaryOperator" and n.op in ("++", "--"):
            return None
        if n.is_call():
            c = self.p.resolve(n)
            if c is None:
                vals[n.id] = TOP
                return one
            pa = [self.ev(a, env, vals, this, depth) or TOP for a in n.params_args]
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if c.d.get("ctor") in ("copy", "move") and len(pa) == 1:
                    vals[n.id] = self.get(env, pa[0][1]) if pa[0][0] == "loc" else pa[0]
                    return one
                slot = ("loc", (("tmp", depth, n.id),))
                self.put(env, slot[1], ("rec", ()))
                r = self.run(c.body, slot, pa, env, depth + 1) if c.body is not None else None
                if r is None:
                    vals[n.id] = TOP
                    return one
                return [(self.pop(st, depth), dict(vals, **{}) | {n.id: self.get(st, slot[1])}, cons + cs, None) for (_, st, cs) in r]
            o = self.ev(n.obj, env, vals, this, depth) if n.obj is not None else None
            if c.name == "operator=" and o is not None and o[0] == "loc" and len(pa) == 1 and c.body is None:
                self.put(env, o[1], self.get(env, pa[0][1]) if pa[0][0] == "loc" else pa[0])
                vals[n.id] = o
                return one
            if c.q in ("std::move", "std::forward", "std::as_const") and len(pa) == 1:
                vals[n.id] = pa[0]
                return one
            if c.q in ("std::tie", "std::make_tuple", "std::forward_as_tuple"):
                vals[n.id] = ("tuple", tuple(self.rv(a, env, vals, this, depth) for a in n.params_args))
                return one
            if c.body is None or not c.in_repo:
                vals[n.id] = TOP
                return one
            if o is not None and o[0] != "loc":
                slot = (("tmp", depth, n.id),)
                self.put(env, slot, o)
                o = ("loc", slot)
            r = self.run(c.body, o, pa, env, depth + 1)
            if r is None:
                vals[n.id] = TOP
                for a in pa:
                    if a[0] == "loc":
                        self.put(env, a[1], TOP)
                return one
            return [(self.pop(st, depth), dict(vals) | {n.id: (rv if rv is not None else ("void",))}, cons + cs, None) for (rv, st, cs) in r]
        if "t" in n.d and n.d["t"] >= 0 and k not in ("DeclRefExpr",):
            v = self.ev(n, env, vals, this, depth)
            if v is not None:
                vals[n.id] = v
        return one

    def pop(self, st, depth):
        return {k: v for k, v in st.items() if not (isinstance(k, tuple) and (k[0] == "ref" and k[1] > depth))}


def agree(value, expected, cons, boolsyms):
    """Does value equal expected under the path constraints?  True/False/None (unknown)."""
    import itertools
    if value is None or value == TOP or value[0] not in ("lin", "anf"):
        return None
    zero = [c[1] for c in cons if c[0] == "zero"]
    if value[0] == "lin" and expected[0] == "lin":
        d = add(value, expected, -1)
        if d == const(0):
            return True
        for z in zero:
            for s in (1, -1):
                if add(d, z, s) == const(0):
                    return True
        # two zero constraints together
        for a in zero:
            for b in zero:
                for s in (1, -1):
                    for t in (1, -1):
                        if add(add(d, a, s), b, t) == const(0):
                            return True
        return False
    v, x = as_anf(value), as_anf(expected)
    if v is None or x is None:
        return None
    bc = [(c[0], c[1]) for c in cons if isinstance(c[0], tuple) and c[0][0] == "anf"]

    def evl(a, asg):
        return sum(all(asg[s] for s in m) for m in a[1]) % 2
    syms = sorted(boolsyms)
    for bits in itertools.product((0, 1), repeat=len(syms)):
        asg = dict(zip(syms, bits))
        try:
            if any(bool(evl(c, asg)) != br for c, br in bc):
                continue
            if evl(v, asg) != evl(x, asg):
                return False
        except KeyError:
            return None
    return True
