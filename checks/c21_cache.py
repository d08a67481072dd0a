"""C21: cached environments of the square lattice are never stale.

Abstract interpretation of square/auxiliaries.py over its syntax tree.  An entry of the cache is (kind, row, column); rows and columns are
tracked relative to the changed site.  From the method that fills the cache the analysis takes, per kind, which entries and which site tensors
the computation reads and which entries it writes; the transitive dependents of one site follow as a region per kind.  From every method that
replaces a site tensor it takes the region of entries that is certainly discarded, under the conditions on the path (index bounds; "the entry
was present", which is sound because a cached entry implies that what it was computed from is cached).  Required: dependents are discarded.
"""
import ast
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from report import main
from ir import REPO, AnalysisBroken

FILE = REPO + "/square/auxiliaries.py"
L = 4            # cells -L..L ; the outermost mean "this far or further"
BIG = 3 * L
INF = 10 ** 6


# ---- values ---------------------------------------------------------------------------------------------------------------------------------
class Rel:      # sym + [lo, hi]; sym in 'i','j'
    def __init__(s, sym, lo, hi): s.sym, s.lo, s.hi = sym, lo, hi
    def __repr__(s): return "%s%+d..%+d" % (s.sym, s.lo, s.hi)


class Abs:      # absolute range [lo, hi]; bounds are (base, n) with base None/'M'/'N'
    def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    def __repr__(s): return "[%s,%s]" % (s.lo, s.hi)


class Const:
    def __init__(s, v): s.v = v


class Size:     # self._M + n / self._N + n
    def __init__(s, base, n): s.base, s.n = base, n


class Pos:      # a (row, column) pair
    def __init__(s, *items): s.items = items


class Pres:     # truth value: at least one (disj) / all of the entries were present
    def __init__(s, keys, conj=False): s.keys, s.conj = keys, conj


class Chk:      # truth value: comparison of indices; excl = [(sym, lo, hi)] what the FALSE case excludes, alternatives unknown -> None
    def __init__(s, t, f): s.t, s.f = t, f      # env refinements: (constraint when true, constraint when false)


class Unk:
    pass


UNK = Unk()
SLOT_LAT, SLOT_AUX = "_lattice", "_auxiliaries"


class Ret(Exception):
    pass


class Interp:
    """Walks a method with abstract values, recording events with their path conditions."""

    def __init__(self, cls, roots):
        self.cls = cls                          # name -> list of FunctionDef
        self.roots = roots                      # methods that are not inlined but recorded
        self.events = []                        # (what, key values, conditions, node)
        self.depth = 0
        self.seen = set()

    # -- expressions
    def ev(self, e, env, conds):
        if isinstance(e, ast.Constant):
            return Const(e.value)
        if isinstance(e, ast.Name):
            return env.get(e.id, UNK)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, conds)
            if isinstance(e.op, ast.USub) and isinstance(v, Const) and isinstance(v.v, int):
                return Const(-v.v)
            if isinstance(e.op, ast.Not):
                return ("not", v)
            return UNK
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env, conds), self.ev(e.right, env, conds)
            if isinstance(e.op, (ast.Add, ast.Sub)):
                if isinstance(a, Const) and not isinstance(b, Const) and isinstance(e.op, ast.Add):
                    a, b = b, a
                if isinstance(b, Const) and isinstance(b.v, int):
                    n = b.v if isinstance(e.op, ast.Add) else -b.v
                    return self.shift(a, n)
            if isinstance(a, Const) and isinstance(b, Const):
                try:
                    if isinstance(e.op, ast.Add): return Const(a.v + b.v)
                except Exception:
                    pass
            return UNK
        if isinstance(e, ast.JoinedStr):
            out = ""
            for p in e.values:
                if isinstance(p, ast.Constant):
                    out += str(p.value)
                else:
                    v = self.ev(p.value, env, conds)
                    if not (isinstance(v, Const) and isinstance(v.v, (str, int))):
                        return UNK
                    out += str(v.v)
            return Const(out)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
            if e.attr == "_M": return Size("M", 0)
            if e.attr == "_N": return Size("N", 0)
            if e.attr in (SLOT_LAT, SLOT_AUX): return ("slot", e.attr)
            return UNK
        if isinstance(e, (ast.Tuple, ast.List)):
            return Pos(*[self.ev(x, env, conds) for x in e.elts])
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env, conds)
            k = self.ev(e.slice, env, conds)
            if b == ("slot", SLOT_AUX) and isinstance(k, Pos):
                self.event("getaux", k.items, conds, e)
                return UNK
            if b == ("slot", SLOT_LAT):
                if isinstance(k, Pos): return UNK
                return ("row", k)
            if isinstance(b, tuple) and b[0] == "row":
                self.event("readlat", (b[1], k), conds, e)
                return UNK
            if isinstance(b, Pos) and isinstance(k, Const) and isinstance(k.v, int) and -len(b.items) <= k.v < len(b.items):
                return b.items[k.v]
            return UNK
        if isinstance(e, ast.Compare):
            return self.compare(e, env, conds)
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(x, env, conds) for x in e.values]
            return (type(e.op).__name__, vs)
        if isinstance(e, ast.IfExp):
            c = self.ev(e.test, env, conds)
            out = []
            for br, truth in ((e.body, True), (e.orelse, False)):
                for ev2, cs in self.assume(c, truth, env, conds):
                    out.append(self.ev(br, ev2, cs))
            return out[0] if len(out) == 1 else UNK
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            cs = conds
            for g in e.generators:
                self.bind_loop(g.target, self.ev(g.iter, env2, cs), env2)
                for c in g.ifs:
                    v = self.ev(c, env2, cs)
                    alts = self.assume(v, True, env2, cs)
                    if not alts:
                        return UNK
                    env2, cs = alts[0] if len(alts) == 1 else (env2, cs + [("unknown",)])
            if isinstance(e, ast.DictComp):
                self.ev(e.key, env2, cs); self.ev(e.value, env2, cs)
                return UNK
            r = self.ev(e.elt, env2, cs)
            if isinstance(r, Pres):
                return ("list", r)
            return UNK
        if isinstance(e, ast.Call):
            return self.call(e, env, conds)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env, conds)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env, conds)
        return UNK

    def shift(self, a, n):
        if isinstance(a, Rel): return Rel(a.sym, a.lo + n, a.hi + n)
        if isinstance(a, Const) and isinstance(a.v, int): return Const(a.v + n)
        if isinstance(a, Size): return Size(a.base, a.n + n)
        if isinstance(a, Abs): return Abs((a.lo[0], a.lo[1] + n), (a.hi[0], a.hi[1] + n))
        return UNK

    def compare(self, e, env, conds):
        parts = []
        left = e.left
        for op, right in zip(e.ops, e.comparators):
            parts.append(self.compare1(left, op, right, env, conds))
            left = right
        return parts[0] if len(parts) == 1 else ("And", parts)

    def compare1(self, le, op, re_, env, conds):
        if isinstance(op, (ast.In, ast.NotIn)):
            k, c = self.ev(le, env, conds), self.ev(re_, env, conds)
            if c == ("slot", SLOT_AUX) and isinstance(k, Pos):
                p = Pres([k.items])
                return p if isinstance(op, ast.In) else ("not", p)
            return UNK
        a, b = self.ev(le, env, conds), self.ev(re_, env, conds)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Pres) and isinstance(b, Const) and b.v in (None, True, False):
                pos = isinstance(op, ast.Is) == (b.v is True)
                return a if pos else ("not", a)
            return UNK
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const({ast.Eq: a.v == b.v, ast.NotEq: a.v != b.v}[type(op)])
            except KeyError:
                try:
                    return Const({ast.Lt: lambda: a.v < b.v, ast.LtE: lambda: a.v <= b.v, ast.Gt: lambda: a.v > b.v, ast.GtE: lambda: a.v >= b.v}[type(op)]())
                except Exception:
                    return UNK
        return ("cmp", type(op).__name__, a, b, le.id if isinstance(le, ast.Name) else None, re_.id if isinstance(re_, ast.Name) else None)

    # -- conditions: returns the list of (env, conds) under which v has the given truth value
    NEG = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq"}
    FLIP = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}

    def assume(self, v, truth, env, conds):
        if isinstance(v, Const):
            return [(env, conds)] if bool(v.v) == truth else []
        if isinstance(v, tuple) and v[0] == "not":
            return self.assume(v[1], not truth, env, conds)
        if isinstance(v, tuple) and v[0] in ("And", "Or"):
            if (v[0] == "And") == truth:
                alts = [(env, conds)]
                for x in v[1]:
                    alts = [a2 for (e2, c2) in alts for a2 in self.assume(x, truth, e2, c2)]
                return alts
            # any of them: alternatives
            out = []
            for x in v[1]:
                out += self.assume(x, truth, env, conds)
            return out
        if isinstance(v, Pres):
            return [(env, conds + [("present" if truth else "absent", v)])]
        if isinstance(v, tuple) and v[0] == "cmp":
            _, op, a, b, na, nb = v
            if not truth:
                op = self.NEG.get(op, "?")
            for (x, y, n, o) in ((a, b, na, op), (b, a, nb, self.FLIP.get(op, "?"))):
                # loop variable against a tracked index: refine it
                if isinstance(x, Abs) and isinstance(y, Rel) and y.lo == y.hi and n and self.full(x, y.sym):
                    c = y.lo
                    iv = {"Lt": [(-INF, c - 1)], "LtE": [(-INF, c)], "Gt": [(c + 1, INF)], "GtE": [(c, INF)], "Eq": [(c, c)], "NotEq": [(-INF, c - 1), (c + 1, INF)]}.get(o)
                    if iv:
                        return [(dict(env, **{n: Rel(y.sym, *q)}), conds) for q in iv]
                if isinstance(x, Rel) and isinstance(y, Rel) and x.sym == y.sym and y.lo == y.hi and n and x.lo != x.hi:
                    c = y.lo
                    iv = {"Lt": [(-INF, c - 1)], "LtE": [(-INF, c)], "Gt": [(c + 1, INF)], "GtE": [(c, INF)], "Eq": [(c, c)], "NotEq": [(-INF, c - 1), (c + 1, INF)]}.get(o, [])
                    out = []
                    for lo, hi in iv:
                        lo, hi = max(lo, x.lo), min(hi, x.hi)
                        if lo <= hi:
                            out.append((dict(env, **{n: Rel(x.sym, lo, hi)}), conds))
                    return out
                if isinstance(x, Rel) and isinstance(y, Rel) and x.sym == y.sym and x.lo == x.hi and y.lo == y.hi:
                    t = {"Lt": x.lo < y.lo, "LtE": x.lo <= y.lo, "Gt": x.lo > y.lo, "GtE": x.lo >= y.lo, "Eq": x.lo == y.lo, "NotEq": x.lo != y.lo}.get(o)
                    if t is not None:
                        return [(env, conds)] if t else []
                if isinstance(x, Rel) and x.lo == x.hi and isinstance(y, (Const, Size)):
                    bound = (None, y.v) if isinstance(y, Const) else (y.base, y.n)
                    # condition  sym + lo  o  bound
                    return [(env, conds + [("index", x.sym, x.lo, o, bound)])]
            return [(env, conds + [("unknown",)])]
        return [(env, conds + [("unknown",)])]

    @staticmethod
    def full(x, sym):
        """Does the absolute range cover every row/column?"""
        size = "M" if sym == "i" else "N"
        return x.lo[0] is None and x.lo[1] <= 0 and x.hi[0] == size and x.hi[1] >= -1

    def bind_loop(self, target, it, env):
        if isinstance(target, ast.Name):
            env[target.id] = UNK
            if isinstance(it, tuple) and it[0] == "range":
                env[target.id] = it[1]
            elif isinstance(it, tuple) and it[0] == "each":
                env[target.id] = it[1]
        elif isinstance(target, (ast.Tuple, ast.List)):
            for k, x in enumerate(target.elts):
                self.bind_loop(x, ("each", it[1].items[k]) if isinstance(it, tuple) and it[0] == "each" and isinstance(it[1], Pos) and k < len(it[1].items) else UNK, env)

    def rng(self, args):
        lo = Const(0) if len(args) == 1 else args[0]
        hi = args[0] if len(args) == 1 else args[1]
        step = args[2].v if len(args) == 3 and isinstance(args[2], Const) else (1 if len(args) < 3 else None)
        if step == -1:
            lo, hi = self.shift(hi, 1), self.shift(lo, 1)
            step = 1
        if step != 1:
            return UNK

        def low(v):      # lower end
            if isinstance(v, Const) and isinstance(v.v, int): return (None, v.v)
            if isinstance(v, Size): return (v.base, v.n)
            return None
        if isinstance(lo, Rel) and lo.lo == lo.hi:
            if isinstance(hi, Size) and hi.base == ("M" if lo.sym == "i" else "N") and hi.n >= 0:
                return Rel(lo.sym, lo.lo, INF)
            if isinstance(hi, Rel) and hi.sym == lo.sym and hi.lo == hi.hi and hi.lo - 1 >= lo.lo:
                return Rel(lo.sym, lo.lo, hi.lo - 1)
            return UNK
        if isinstance(hi, Rel) and hi.lo == hi.hi:
            if isinstance(lo, Const) and lo.v <= 0:
                return Rel(hi.sym, -INF, hi.lo - 1)
            return UNK
        a, b = low(lo), low(hi)
        if a and b:
            return Abs(a, (b[0], b[1] - 1))
        return UNK

    def call(self, e, env, conds):
        f = e.func
        args = [self.ev(a, env, conds) for a in e.args]
        kw = {k.arg: self.ev(k.value, env, conds) for k in e.keywords}
        if isinstance(f, ast.Name):
            if f.id == "range":
                return ("range", self.rng(args))
            if f.id in ("reversed", "sorted", "list", "tuple", "iter") and len(args) == 1:
                return args[0]
            if f.id in ("any", "all") and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "list":
                # any() stops at the first present entry: what follows may not be discarded
                if isinstance(e.args[0], ast.GeneratorExp):
                    self.lazy_undo(e.args[0])
                return args[0][1]
            if f.id == "bool" and len(args) == 1:
                return args[0]
            return UNK
        if isinstance(f, ast.Attribute):
            base = f.value
            is_self = isinstance(base, ast.Name) and base.id == "self"
            is_super = isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "super"
            if is_self and f.attr in self.cls:
                return self.invoke(f.attr, args, kw, conds, e)
            if isinstance(base, ast.Name) and base.id in self.classnames and f.attr in self.cls:
                return self.invoke(f.attr, args[1:] if len(args) > len([]) and not self.static(f.attr) else args, kw, conds, e)
            b = self.ev(base, env, conds)
            if b == ("slot", SLOT_AUX):
                if f.attr in ("pop", "__delitem__") and args and isinstance(args[0], Pos):
                    self.event("del", args[0].items, conds, e)
                    return Pres([args[0].items])
                if f.attr == "clear":
                    self.event("clear", (), conds, e)
                if f.attr == "get" and args and isinstance(args[0], Pos):
                    self.event("getaux", args[0].items, conds, e)
                    return UNK
            if f.attr == "items" and isinstance(b, tuple) and b[0] == "dict":
                return ("each", b[1])
        return UNK

    def lazy_undo(self, gen):
        lines = range(gen.lineno, gen.end_lineno + 1)
        self.events = [x for x in self.events if not (x[0] == "del" and any(n is x[3] for n in ast.walk(gen)))]

    def static(self, name):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.cls[name][0].decorator_list)

    def invoke(self, name, args, kw, conds, node):
        fn = self.cls[name][0]
        if name in self.roots:
            self.event("call:" + name, tuple(args), conds, node)
            return UNK
        if self.depth > 3 * BIG:
            return UNK
        params = [a.arg for a in fn.args.args]
        if not self.static(name):
            params = params[1:]
        env = dict(zip(params, args))
        for d, p in zip(reversed(fn.args.defaults), reversed(params)):
            env.setdefault(p, self.ev(d, {}, conds))
        env.update(kw)
        # stop unrolling a recursion once the index is far outside the tracked window
        for v in env.values():
            if isinstance(v, Rel) and (v.lo > 2 * L + 2 or v.hi < -2 * L - 2):
                return UNK
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            return UNK
        rets = []
        self.block(fn.body, env, conds, rets)
        self.depth -= 1
        vals = [r for r in rets]
        n = len(conds)
        if vals and all(isinstance(v, Const) and isinstance(v.v, bool) for _, v in vals):
            tr = [c[n:] for c, v in vals if v.v]
            fa = [c[n:] for c, v in vals if not v.v]
            if len(tr) == 1 and tr[0] and all(x[0] == "present" for x in tr[0]) and len(tr[0]) == 1 and all(any(x[0] == "absent" for x in c) for c in fa):
                return tr[0][0][1]
            if len(tr) == 1 and not tr[0] and not fa:
                return Const(True)
        if len(vals) == 1:
            return vals[0][1]
        return UNK

    def event(self, what, key, conds, node):
        self.events.append((what, tuple(key), list(conds), node))

    # -- statements; returns list of (env, conds) that fall through
    def block(self, stmts, env, conds, rets):
        states = [(env, conds)]
        for s in stmts:
            nxt = []
            for (e, c) in states:
                nxt += self.stmt(s, e, c, rets)
            states = self.merge(nxt)
        return states

    def merge(self, states):
        if len(states) <= 1:
            return states
        out = []
        for e, c in states:
            for k in range(len(out)):
                if self.same_env(out[k][0], e):
                    # the common prefix of the conditions still holds
                    a, b = out[k][1], c
                    p = 0
                    while p < len(a) and p < len(b) and self.same_cond(a[p], b[p]):
                        p += 1
                    rest_a, rest_b = a[p:], b[p:]
                    if True:     # the alternatives of one branching: together they cover every case
                       
                        out[k] = (out[k][0], a[:p])
                        break
            else:
                out.append((e, c))
        return out[:16]

    def same_cond(self, x, y):
        return x is y or (x[0] == y[0] == "index" and x == y)

    def same_val(self, a, b):
        if a is b: return True
        if type(a) is not type(b): return False
        if isinstance(a, Rel): return (a.sym, a.lo, a.hi) == (b.sym, b.lo, b.hi)
        if isinstance(a, Const): return a.v == b.v
        if isinstance(a, Abs): return (a.lo, a.hi) == (b.lo, b.hi)
        return False

    def same_env(self, a, b):
        return all(self.same_val(a.get(k, UNK), b.get(k, UNK)) for k in set(a) | set(b))

    def join_val(self, a, b):
        if self.same_val(a, b): return a
        if isinstance(a, Pres) and isinstance(b, Pres):
            return b
        if isinstance(a, Const) and a.v is False and isinstance(b, Pres):
            return b
        return UNK

    def assign(self, t, v, env, conds, node):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                self.assign(x, v.items[k] if isinstance(v, Pos) and k < len(v.items) else UNK, env, conds, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, conds)
            k = self.ev(t.slice, env, conds)
            if b == ("slot", SLOT_AUX):
                self.event("setaux", k.items if isinstance(k, Pos) else (UNK, UNK, UNK), conds, node)
            elif isinstance(b, tuple) and b[0] == "row":
                self.event("setlat", (b[1], k), conds, node)
            elif b == ("slot", SLOT_LAT):
                self.event("setlat", (k, UNK), conds, node)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr in (SLOT_LAT, SLOT_AUX):
            self.event("replace:" + t.attr, (), conds, node)

    def stmt(self, s, env, conds, rets):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, conds)
            return [(env, conds)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [(env, conds)]
            v = self.ev(s.value, env, conds)
            env = dict(env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, v, env, conds, s)
            return [(env, conds)]
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env, conds)
            env = dict(env)
            if isinstance(s.target, ast.Name):
                old = env.get(s.target.id, UNK)
                if isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(v, Const) and isinstance(v.v, int):
                    env[s.target.id] = self.shift(old, v.v if isinstance(s.op, ast.Add) else -v.v)
                elif isinstance(s.op, ast.BitOr) and isinstance(v, Pres):
                    env[s.target.id] = v
                else:
                    env[s.target.id] = UNK
            else:
                self.assign(s.target, UNK, env, conds, s)
            return [(env, conds)]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    b = self.ev(t.value, env, conds)
                    k = self.ev(t.slice, env, conds)
                    if b == ("slot", SLOT_AUX):
                        self.event("del", k.items if isinstance(k, Pos) else (UNK, UNK, UNK), conds, s)
                    elif isinstance(t.value, ast.Name) and t.value.id == "self" and "__delitem__" in self.cls:
                        self.invoke("__delitem__", [k], {}, conds, s)
            return [(env, conds)]
        if isinstance(s, ast.If):
            v = self.ev(s.test, env, conds)
            out = []
            for (e2, c2) in self.assume(v, True, env, conds):
                out += self.block(s.body, e2, c2, rets)
            for (e2, c2) in self.assume(v, False, env, conds):
                out += self.block(s.orelse, e2, c2, rets)
            return self.merge(out)
        if isinstance(s, ast.For):
            it = self.ev(s.iter, env, conds)
            if isinstance(it, Pos):     # a literal list of alternatives
                states = [(env, conds)]
                for x in it.items:
                    nxt = []
                    for (e, c) in states:
                        e = dict(e)
                        self.assign(s.target, x, e, c, s)
                        nxt += self.block(s.body, e, c, rets)
                    states = self.merge(nxt)
                return states
            env2 = dict(env)
            self.bind_loop(s.target, it, env2)
            ex = any(isinstance(x, (ast.Break, ast.Return)) for b in s.body for x in ast.walk(b))
            out = self.block(s.body, env2, conds + ([("unknown",)] if ex else []), rets)
            res = dict(env)
            for (e, c) in out:
                for k in set(e) | set(res):
                    res[k] = self.join_val(env.get(k, UNK), e.get(k, UNK)) if k in env else e.get(k, UNK)
            return [(res, conds)]
        if isinstance(s, ast.While):
            return self.while_(s, env, conds, rets)
        if isinstance(s, ast.Return):
            rets.append((conds, self.ev(s.value, env, conds) if s.value else Const(None)))
            return []
        if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return []
        if isinstance(s, ast.Try):
            out = self.block(s.body, env, conds, rets)
            for h in s.handlers:
                out += self.block(h.body, env, conds + [("unknown",)], rets)
            out = self.merge(out)
            r = []
            for (e, c) in out:
                r += self.block(s.orelse + s.finalbody, e, c, rets)
            return r
        if isinstance(s, ast.With):
            return self.block(s.body, env, conds, rets)
        return [(env, conds)]

    def while_(self, s, env, conds, rets):
        """Unrolled over the tracked window: the conditions of every earlier round stay on the path."""
        states = [(env, conds)]
        done = []
        for _ in range(2 * L + 4):
            nxt = []
            for (e, c) in states:
                v = self.ev(s.test, e, c)
                done += self.assume(v, False, e, c)
                for (e2, c2) in self.assume(v, True, e, c):
                    nxt += self.block(s.body, e2, c2, rets)
            states = self.merge(nxt)
            if not states:
                break
        # after the loop: any number of rounds was possible
        return self.merge([(e, conds) for (e, _) in (done + states)][:1]) or [(env, conds)]


# ---- regions ------------------------------------------------------------------------------------------------------------------------------------
def cells(lo, hi):
    lo, hi = max(lo, -L), min(hi, L)
    return range(lo, hi + 1) if lo <= hi else ()


def over_coord(v, sym):
    """Offsets (over-approximated) an index value can have; None = any."""
    if isinstance(v, Rel) and v.sym == sym:
        return (v.lo, v.hi)
    return None


class Model:
    def __init__(self, c):
        self.c = c
        src = open(FILE).read()
        self.tree = ast.parse(src)
        self.classes = {n.name: n for n in self.tree.body if isinstance(n, ast.ClassDef)}
        cand = [n for n in self.classes.values() if any(isinstance(x, ast.Attribute) and x.attr == SLOT_AUX for x in ast.walk(n))]
        c.require(len(cand) == 1, "the class holding the environment cache was not found")
        self.node = cand[0]
        self.cls = {}
        for f in self.node.body:
            if isinstance(f, (ast.FunctionDef,)):
                self.cls.setdefault(f.name, []).append(f)
        # the filler: the method that both stores and returns cache entries, called with a kind
        self.filler = None
        for name, fs in self.cls.items():
            for f in fs:
                stores = [x for x in ast.walk(f) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and self.is_slot(x.value, SLOT_AUX)]
                rets = [x for x in ast.walk(f) if isinstance(x, ast.Return) and x.value is not None]
                params = [a.arg for a in f.args.args]
                if rets and len(params) == 4 and not name.startswith("__") and (stores or name == "_get_auxiliaries"):
                    if self.filler is None or name == "_get_auxiliaries":
                        self.filler = name
        c.require(self.filler, "the method filling the cache was not found")
        self.kinds = self.find_kinds()
        c.require(len(self.kinds) >= 4, "no kinds of environments were found")

    @staticmethod
    def is_slot(n, slot):
        return isinstance(n, ast.Attribute) and n.attr == slot and isinstance(n.value, ast.Name) and n.value.id == "self"

    def find_kinds(self):
        """Strings the filler distinguishes or that are asked for."""
        ks = set()
        for fs in self.cls.values():
            for f in fs:
                for x in ast.walk(f):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == self.filler and x.args and isinstance(x.args[0], ast.Constant):
                        ks.add(x.args[0].value)
                if f.name == self.filler:
                    kp = f.args.args[1].arg
                    for x in ast.walk(f):
                        if isinstance(x, ast.Compare) and isinstance(x.left, ast.Name) and x.left.id == kp:
                            for r in x.comparators:
                                for y in ast.walk(r):
                                    if isinstance(y, ast.Constant) and isinstance(y.value, str):
                                        ks.add(y.value)
        return sorted(ks)

    def interp(self, roots=()):
        it = Interp(self.cls, set(roots) | {self.filler})
        it.classnames = set(self.classes)
        return it

    # -- dependences
    def deps(self):
        self.reads, self.writes = {}, {}
        self.line = {}                  # kind -> 'i'/'j' when entries are stored for a whole row/column at once
        for k in self.kinds:
            it = self.interp()
            f = self.cls[self.filler][0]
            params = [a.arg for a in f.args.args[1:]]
            env = {params[0]: Const(k), params[1]: Rel("i", 0, 0), params[2]: Rel("j", 0, 0)}
            rets = []
            it.block(f.body, env, [], rets)
            rd, wr = [], []
            for what, key, conds, node in it.events:
                if what == "call:" + self.filler and len(key) == 3:
                    kinds = [key[0].v] if isinstance(key[0], Const) else self.kinds
                    for k2 in kinds:
                        rd.append((k2, over_coord(key[1], "i"), over_coord(key[2], "j"), node.lineno))
                elif what == "getaux" and len(key) == 3:
                    same = isinstance(key[0], Const) and key[0].v == k and over_coord(key[1], "i") == (0, 0) and over_coord(key[2], "j") == (0, 0)
                    if not same:
                        for k2 in ([key[0].v] if isinstance(key[0], Const) else self.kinds):
                            rd.append((k2, over_coord(key[1], "i"), over_coord(key[2], "j"), node.lineno))
                elif what == "readlat":
                    rd.append((None, over_coord(key[0], "i"), over_coord(key[1], "j"), node.lineno))
                elif what == "setaux":
                    kinds = [key[0].v] if isinstance(key[0], Const) else self.kinds
                    full = "i" if len(key) == 3 and isinstance(key[1], Abs) and Interp.full(key[1], "i") else "j" if len(key) == 3 and isinstance(key[2], Abs) and Interp.full(key[2], "j") else None
                    for k2 in kinds:
                        self.line[k2] = full if self.line.get(k2, full) == full else None
                        wr.append((k2, over_coord(key[1], "i"), over_coord(key[2], "j"), node.lineno))
            self.reads[k], self.writes[k] = rd, wr
            self.c.count("kinds")
            self.c.count("reads of other entries or sites", len(rd))
            self.c.sample("%s reads %s" % (k, sorted({(r[0] or "site", r[1], r[2]) for r in rd}, key=str)))
            self.c.require(wr, "nothing is stored for kind %s" % k)
            self.c.require(rd, "nothing is read for kind %s" % k)

    def closure(self, seeds):
        """Least region containing the seeds {(kind or None): set of cells} and closed under dependence."""
        reg = {k: set() for k in self.kinds}
        base = {None: set()}
        for k, v in seeds.items():
            (base if k is None else reg).setdefault(k, set()).update(v)
        allc = range(-L, L + 1)
        changed = True
        while changed:
            changed = False
            for k in self.kinds:
                for (k2, a, b, _) in self.reads[k]:
                    src = base[None] if k2 is None else reg.get(k2, ())
                    if not src:
                        continue
                    aff = set()
                    for (x, y) in src:
                        xs = allc if a is None else sorted({z for o in range(max(a[0], -2 * L), min(a[1], 2 * L) + 1) for z in self.back(x, o)})
                        ys = allc if b is None else sorted({z for o in range(max(b[0], -2 * L), min(b[1], 2 * L) + 1) for z in self.back(y, o)})
                        aff.update((p, q) for p in xs for q in ys)
                    for (k3, wa, wb, _) in self.writes[k]:
                        for (p, q) in aff:
                            ps = allc if wa is None else {self.sat(p + wa[0])}
                            qs = allc if wb is None else {self.sat(q + wb[0])}
                            for z in ((m, n) for m in ps for n in qs):
                                if z not in reg[k3]:
                                    reg[k3].add(z)
                                    changed = True
        return reg

    @staticmethod
    def sat(x):
        return max(-L, min(L, x))

    def back(self, x, o):
        """Cells z with z + o possibly in cell x."""
        if abs(x) < L:
            z = x - o
            return [self.sat(z)]
        # saturated cell: x means x or further out
        if x == L:
            return range(max(-L, min(L, L - o)), L + 1)
        return range(-L, min(L, max(-L, -L - o)) + 1)

    # -- discarded region of a method
    def discarded(self, events):
        """Cells certainly discarded, given the recorded deletions."""
        out = {k: set() for k in self.kinds}
        # entries stored a line at a time stay all-or-nothing when they are also discarded a line at a time
        self.whole = dict(self.line)
        for what, key, conds, node in events:
            if what == "del" and len(key) == 3:
                for k in ([key[0].v] if isinstance(key[0], Const) else list(self.whole)):
                    d = self.whole.get(k)
                    v = key[1] if d == "i" else key[2]
                    if d and not (isinstance(v, Abs) and Interp.full(v, d)):
                        self.whole[k] = None
        self._clo = {}
        fine = {}                       # (kind) -> set of unsaturated cells up to 2L
        for what, key, conds, node in events:
            if what == "clear":
                if not any(x[0] in ("unknown", "index", "present", "absent") for x in conds):
                    for k in self.kinds:
                        fine.setdefault(k, set()).update((x, y) for x in range(-2 * L, 2 * L + 1) for y in range(-2 * L, 2 * L + 1))
                continue
            if what != "del" or len(key) != 3 or not isinstance(key[0], Const):
                continue
            k = key[0].v
            if k not in out:
                continue
            xs, ys = self.under(key[1], "i"), self.under(key[2], "j")
            if not xs or not ys:
                continue
            ok, lim = self.conds_ok(conds, k, key, xs, ys)
            if not ok:
                continue
            fine.setdefault(k, set()).update((x, y) for x in xs for y in ys)
        W = 2 * L
        for k, f in fine.items():
            for x in range(-L, L + 1):
                for y in range(-L, L + 1):
                    xr = [x] if abs(x) < L else (range(L, W + 1) if x > 0 else range(-W, -L + 1))
                    yr = [y] if abs(y) < L else (range(L, W + 1) if y > 0 else range(-W, -L + 1))
                    if all((p, q) in f for p in xr for q in yr):
                        out[k].add((x, y))
        return out

    def under(self, v, sym):
        W = 2 * L
        if isinstance(v, Rel) and v.sym == sym:
            return [x for x in range(max(v.lo, -W), min(v.hi, W) + 1)]
        if isinstance(v, Abs) and Interp.full(v, sym):
            return list(range(-W, W + 1))
        return []

    def conds_ok(self, conds, k, key, xs, ys):
        for c in conds:
            if c[0] == "unknown":
                return False, None
            if c[0] == "index":
                _, sym, off, op, (base, n) = c
                # the deletion happens only if  sym + off  op  base+n ; the coordinate deleted is sym + d
                d = xs if sym == "i" else ys
                if isinstance(key[1 if sym == "i" else 2], Abs):
                    return False, None
                lo, hi = min(d) - off, max(d) - off          # deleted coordinate = (sym+off) + [lo, hi]
                size = "M" if sym == "i" else "N"
                # excluded values of sym+off, as an interval relative to base+n
                ex = {"Lt": (0, INF), "LtE": (1, INF), "Gt": (-INF, 0), "GtE": (-INF, -1), "NotEq": (0, 0)}.get(op)
                if ex is None:
                    return False, None
                elo, ehi = ex[0] + n + lo, ex[1] + n + hi     # excluded deleted coordinates = base + [elo, ehi]
                if base is None:
                    if ehi > -1:
                        return False, None
                elif base == size:
                    if elo < 0:
                        return False, None
                else:
                    return False, None
                continue
            if c[0] == "absent":
                # done only when the entry is absent: fine when the entry deleted... is not decided -> ignore
                return False, None
            if c[0] == "present":
                ok_any = False
                res = []
                for pk in c[1].keys:
                    res.append(self.implied(pk, k, key, xs, ys))
                good = all(res) if c[1].conj else any(res)
                if not good:
                    return False, None
        return True, None

    def implied(self, pk, k, key, xs, ys):
        """Is the deleted entry absent whenever the entry pk is absent?  (a cached entry implies its sources are cached)"""
        if not isinstance(pk[0], Const) or pk[0].v not in self.kinds:
            return False
        if pk[0].v == k and self.same(pk[1], key[1]) and self.same(pk[2], key[2]):
            return True
        px, py = pk[1], pk[2]
        fx = px.lo if isinstance(px, Rel) and px.lo == px.hi and px.sym == "i" else None
        fy = py.lo if isinstance(py, Rel) and py.lo == py.hi and py.sym == "j" else None
        kk = (pk[0].v,)
        if kk not in self._clo:
            self._clo[kk] = self.closure_from(pk[0].v)
        reg = self._clo[kk].get(k, set())
        allc = range(-L, L + 1)

        def inreg(dx, dy):
            xs_ = [self.sat(dx)] if dx is not None else allc
            ys_ = [self.sat(dy)] if dy is not None else allc
            return all((a, b) in reg for a in xs_ for b in ys_)
        return all(inreg(x - fx if fx is not None else None, y - fy if fy is not None else None) for x in xs for y in ys)

    def closure_from(self, k):
        if self.whole.get(k) == "i":
            return self.closure({k: {(z, 0) for z in range(-L, L + 1)}})
        if self.whole.get(k) == "j":
            return self.closure({k: {(0, z) for z in range(-L, L + 1)}})
        return self.closure({k: {(0, 0)}})

    @staticmethod
    def same(a, b):
        if isinstance(a, Rel) and isinstance(b, Rel):
            return (a.sym, a.lo, a.hi) == (b.sym, b.lo, b.hi)
        if isinstance(a, Abs) and isinstance(b, Abs):
            return (a.lo, a.hi) == (b.lo, b.hi)
        return False


def show(cs):
    def r(v): return ("%+d" % v) if abs(v) < L else ("+far" if v > 0 else "-far")
    x = sorted(cs)[0]
    return "row%s column%s" % (r(x[0]), r(x[1]))


def body(c):
    c.rules = ["per kind of environment: entries and sites it is computed from (abstract interpretation of the filling method)",
               "every transitive dependent of a replaced site is certainly discarded by the method that replaces it",
               "copies of the system own their cache and site table; a component that refers to its owner refers to the new owner in a copy"]
    c.assumptions += ["site tensors are replaced through the class (tensor objects placed in the lattice are not modified in place)",
                      "merging two systems (+=) is done by callers for systems describing the same lattice"]
    m = Model(c)
    m.deps()
    affected = m.closure({None: {(0, 0)}})
    # the filler must not leave an entry of another computation behind: it stores what it was asked for
    rel = FILE.replace(REPO + "/", "")
    for k in m.kinds:
        own = [w for w in m.writes[k] if w[0] == k]
        if not own:
            c.violation("c21:store:" + k, "%s:%d" % (rel, m.writes[k][0][3]), "stored under its own key", "the environment '%s' is computed but stored under another kind" % k)
        c.count("transitive dependents (cells)", len(affected[k]))
    # methods that replace site tensors
    writers = 0
    for name, fs in m.cls.items():
        for f in fs:
            if name == "__init__" or name == m.filler:
                continue
            params = [a.arg for a in f.args.args[1:]]
            if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list):
                continue
            direct = [x for x in ast.walk(f) if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and any(m.is_slot(y, SLOT_LAT) for y in ast.walk(x.value))]
            if not direct and name not in ("__setitem__", "__delitem__"):
                continue
            it = m.interp()
            env = {}
            if name.startswith("__") or len(params) <= 2:
                env = {params[0]: Pos(Rel("i", 0, 0), Rel("j", 0, 0))} if params else {}
            if len(params) >= 2 and not name.startswith("__"):
                env = {params[0]: Rel("i", 0, 0), params[1]: Rel("j", 0, 0)}
            rets = []
            ends = it.block(f.body, env, [], rets)
            sets = [e for e in it.events if e[0] == "setlat"]
            if not sets:
                if name in ("__setitem__", "__delitem__"):
                    c.violation("c21:noset:" + name, "%s:%d" % (rel, f.lineno), "replaces the site", "%s does not store the new site tensor" % name)
                continue
            writers += 1
            for what, key, conds, node in sets:
                if not (isinstance(key[0], Rel) and key[0].sym == "i" and key[0].lo == key[0].hi == 0 and isinstance(key[1], Rel) and key[1].sym == "j" and key[1].lo == key[1].hi == 0):
                    if name in ("__setitem__", "__delitem__"):
                        c.violation("c21:setpos:" + name, "%s:%d" % (rel, node.lineno), "replaces the site", "%s stores into another position than the one given" % name)
                        continue
                    if all(isinstance(v, Rel) for v in key):
                        continue
            dis = m.discarded(it.events)
            for k in m.kinds:
                c.count("kinds compared per writer")
                left = affected[k] - dis[k]
                # an entry outside the window in a direction where nothing exists cannot matter; report what remains
                if left:
                    c.violation("c21:stale:%s:%s" % (name, k), "%s:%d (%s)" % (rel, f.lineno, name), "dependents are discarded",
                                "after a site is replaced, the cached environment '%s' at %s relative to the site stays although it was computed from the old tensor (%d positions)" % (k, show(left), len(left)))
                else:
                    c.sample("%s: '%s' %d dependent cells all discarded" % (name, k, len(affected[k])))
    c.require(writers >= 1, "no method replacing site tensors was found")
    c.count("methods replacing sites", writers)
    copies(c, m, rel)
    outside(c, rel)
    backrefs(c)


def copies(c, m, rel):
    for f in m.cls.get("__init__", []):
        for s in ast.walk(f):
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if m.is_slot(t, SLOT_AUX) or m.is_slot(t, SLOT_LAT):
                        c.count("constructor initialisations of the tables")
                        v = s.value
                        if isinstance(v, ast.Attribute) and v.attr in (SLOT_AUX, SLOT_LAT):
                            c.violation("c21:share:%s" % t.attr, "%s:%d" % (rel, s.lineno), "copies own their tables", "the copy shares %s with the original: changing a site of one leaves stale entries in the other" % t.attr)
                        if m.is_slot(t, SLOT_LAT):
                            # rows must be fresh lists too
                            shallow = (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "copy" and any(isinstance(x, ast.Attribute) and x.attr == SLOT_LAT for x in ast.walk(v.func.value))) \
                                or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and any(isinstance(x, ast.Attribute) and x.attr == SLOT_LAT for x in ast.walk(v)) and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp)) for x in ast.walk(v))) \
                                or (isinstance(v, ast.Subscript) and isinstance(v.value, ast.Attribute) and v.value.attr == SLOT_LAT) \
                                or (isinstance(v, ast.ListComp) and isinstance(v.elt, ast.Name) and any(isinstance(x, ast.Attribute) and x.attr == SLOT_LAT for g in v.generators for x in ast.walk(g.iter)))\
                                or (isinstance(v, ast.ListComp) and isinstance(v.elt, ast.Subscript) and isinstance(v.elt.value, ast.Attribute) and v.elt.value.attr == SLOT_LAT)
                            rep = isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult)
                            if shallow:
                                c.violation("c21:rows", "%s:%d" % (rel, s.lineno), "copies own their tables", "the copy shares the rows of the site table with the original")
                            if rep and isinstance(v.left, ast.List) and v.left.elts and isinstance(v.left.elts[0], (ast.List, ast.BinOp)):
                                c.violation("c21:rowrep", "%s:%d" % (rel, s.lineno), "copies own their tables", "all rows of the site table are one list")


def outside(c, rel):
    """Nobody else in the package touches the tables of a system."""
    d = os.path.dirname(FILE)
    for fn in sorted(os.listdir(d)):
        p = os.path.join(d, fn)
        if not fn.endswith(".py") or p == FILE:
            continue
        t = ast.parse(open(p).read())
        c.count("other modules searched for direct table access")
        for cl in [x for x in t.body if isinstance(x, ast.ClassDef)]:
            derived = any(isinstance(b, ast.Name) and b.id == "SquareAuxiliariesSystem" for b in cl.bases)
            for x in ast.walk(cl):
                if isinstance(x, ast.Attribute) and x.attr == SLOT_AUX:
                    c.violation("c21:outside:" + fn, "%s:%d" % (os.path.relpath(p, REPO), x.lineno), "tables are private", "the environment cache is accessed outside its class")
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and derived and any(isinstance(y, ast.Attribute) and y.attr == SLOT_LAT for y in ast.walk(x.value)):
                    c.violation("c21:outlat:" + fn, "%s:%d" % (os.path.relpath(p, REPO), x.lineno), "tables are private", "a site tensor is replaced without discarding the environments computed from it")
            if derived:
                subclass(c, cl, os.path.relpath(p, REPO))


def subclass(c, cl, rel):
    """A subclass that redefines item assignment/deletion still goes through the base class whenever it changes what a site stands for."""
    for f in cl.body:
        if isinstance(f, ast.FunctionDef) and f.name in ("__setitem__", "__delitem__"):
            c.count("overriding item methods")
            calls = [x for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("__setitem__", "__delitem__")
                     and (isinstance(x.func.value, ast.Call) and getattr(x.func.value.func, "id", "") == "super" or isinstance(x.func.value, ast.Name))]
            calls += [x for x in ast.walk(f) if isinstance(x, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Call) for t in x.targets)]
            if not calls:
                c.violation("c21:sub:%s.%s" % (cl.name, f.name), "%s:%d" % (rel, f.lineno), "goes through the base class", "%s.%s changes a site without discarding the environments computed from it" % (cl.name, f.name))
                continue
            # a test that skips the base call must guard the recorded state too
            top = enclosing(f, calls[0])
            for s in ast.walk(f):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Subscript) and any(isinstance(y, ast.Attribute) and y.attr == "configuration" for y in ast.walk(t)) for t in s.targets):
                    c.count("recorded site states compared with the base call")
                    if enclosing(f, s) != top:
                        c.violation("c21:subguard:%s.%s" % (cl.name, f.name), "%s:%d" % (rel, s.lineno), "state and cache change together", "%s.%s records a new state of the site on a path that does not replace its tensor (or the reverse)" % (cl.name, f.name))


def enclosing(f, node):
    """The chain of conditional statements (and branch) around a node."""
    out = []

    def rec(stmts, chain):
        for s in stmts:
            if any(x is node for x in ast.walk(s)):
                if isinstance(s, ast.If):
                    if any(x is node for b in s.body for x in ast.walk(b)):
                        rec(s.body, chain + [(s.lineno, True)])
                    elif any(x is node for b in s.orelse for x in ast.walk(b)):
                        rec(s.orelse, chain + [(s.lineno, False)])
                    else:
                        out.append(chain)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    rec(s.body, chain)
                else:
                    out.append(chain)
    rec(f.body, [])
    # early "if same: return" guards count like an enclosing condition for everything after them
    pre = [s.lineno for s in f.body if isinstance(s, ast.If) and any(isinstance(b, ast.Return) for b in s.body) and s.end_lineno < getattr(node, "lineno", 0)]
    return (out[0] if out else [], pre)


def backrefs(c):
    """A component that refers to its owner (created as Component(self)) refers to the new owner in a copy, too."""
    d = os.path.dirname(FILE)
    classes = {}
    for fn in sorted(os.listdir(d)):
        if fn.endswith(".py"):
            for cl in ast.parse(open(os.path.join(d, fn)).read()).body:
                if isinstance(cl, ast.ClassDef):
                    classes[cl.name] = (cl, "square/" + fn)

    def inits(cl):
        return [f for f in cl.body if isinstance(f, ast.FunctionDef) and f.name == "__init__"]

    def self_assigns(f):
        for s in ast.walk(f):
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    yield t, s.value, s
    for name, (cl, rel) in classes.items():
        comps = {}
        for f in inits(cl):
            for t, v, s in self_assigns(f):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in classes \
                        and any(isinstance(x, ast.Name) and x.id == "self" for x in v.args):
                    comps[t.attr] = v.func.id
        for attr, comp in comps.items():
            # the attribute of the component that keeps the owner
            back = None
            for f in inits(classes[comp][0]):
                ps = [a.arg for a in f.args.args[1:]]
                for t, v, s in self_assigns(f):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and isinstance(v, ast.Name) and v.id in ps:
                        ann = next((a.annotation for a in f.args.args if a.arg == v.id), None)
                        if ann is not None and getattr(ann, "id", getattr(ann, "value", None)) == name:
                            back = t.attr
            if back is None:
                continue
            c.count("components that refer to their owner")
            for f in inits(cl):
                for t, v, s in self_assigns(f):
                    if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == "self":
                        c.count("constructors of owners")
                        if isinstance(v, ast.Call) and any(isinstance(x, ast.Name) and x.id == "self" for x in v.args + [k.value for k in v.keywords]):
                            continue
                        later = any(isinstance(t2, ast.Attribute) and t2.attr == back and isinstance(t2.value, ast.Attribute) and t2.value.attr == attr and isinstance(v2, ast.Name) and v2.id == "self" and s2.lineno > s.lineno
                                    for t2, v2, s2 in self_assigns(f))
                        via = isinstance(v, ast.Name) and any(isinstance(t2, ast.Attribute) and t2.attr == back and isinstance(t2.value, ast.Name) and t2.value.id == v.id and isinstance(v2, ast.Name) and v2.id == "self" for t2, v2, s2 in self_assigns(f))
                        if not later and not via:
                            c.violation("c21:owner:%s.%s" % (name, attr), "%s:%d" % (rel, s.lineno), "copies are independent",
                                        "the %s of a copied %s still refers to the original lattice: its environments are built from the original's tensors" % (attr, name))


main("C21", "abstract interpretation of cache dependences and invalidation over the Python syntax tree", body)
