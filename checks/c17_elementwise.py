"""C17: element-wise operations compute every element by their own rule.

For each element-wise operation every store into a block is evaluated to a term over the elements of
the operands, the number operand and constants; the term must be the operation the function is named
after, on elements of the same block and position, in the order of the operands.  The loops around it
must run over every element and every block, and the second operand must have been brought to the
names of the first.  What is not understood is counted as not decided."""
import os, re, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import report
import targets
from ir import Node, REPO
from sym import Sym, is_iter
from loops import loops, block_of, exits
from cond import edge_guards, atoms, relation

DEBUG = os.environ.get("C17_DEBUG")
BEGIN = {"begin", "cbegin", "data"}
END = {"end", "cend"}
OPS = {"operator+": "+", "operator-": "-", "operator*": "*", "operator/": "/"}
INOPS = {"operator+=": "+", "operator-=": "-", "operator*=": "*", "operator/=": "/"}
FUNCTORS = {"std::plus": "+", "std::minus": "-", "std::multiplies": "*", "std::divides": "/"}
INLINE_DEPTH = 4


class Env:
    """Bindings of an inlined call: parameter -> (argument node, environment of the caller)."""

    def __init__(self, nodes, sym, call, parent, terms=None):
        self.nodes, self.sym, self.call, self.parent, self.terms = nodes, sym, call, parent, terms or {}


class Fact:
    def __init__(self, fn, node, env, dest, term, cover):
        self.fn, self.node, self.env, self.dest, self.term, self.cover = fn, node, env, dest, term, cover


def symenv(env):
    return env.sym if env is not None else None


class A:
    def __init__(self, p, sy, f):
        self.p, self.sy, self.f = p, sy, f
        self.params = list(f.info.params)
        self.acc = None

    # ------------------------------------------------ references
    def unwrap(self, n):
        n = n.strip()
        while n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.args) == 1:
            n = n.args[0].strip()
        return n

    def reassigned(self, fn, v, walking=False):
        """v gets another value after its declaration."""
        if self.p.vtype(v).rstrip().endswith("&"):
            return False
        for a in self.sy.tables(fn)[2].get(v, []):
            if a.k == "UnaryOperator" and a.op == "&":
                continue
            if a.is_call() and a.callee is not None and a.callee.q.startswith("std::") and a.callee.name in ("get", "begin", "end", "data", "size"):
                continue
            return True
        for n in self.assigned_calls(fn).get(v, []):
            return True
        return False

    def assigned_calls(self, fn):
        r = fn.__dict__.get("_opassign")
        if r is None:
            r = fn._opassign = {}
            for n in fn.nodes():
                if n.k == "CXXOperatorCallExpr" and n.callee is not None and n.callee.name in ("operator=", "operator++", "operator--", "operator+=", "operator-=") and n.args:
                    s = n.args[0].strip()
                    if s.k == "DeclRefExpr" and s.var is not None:
                        r.setdefault(s.var, []).append(n)
        return r

    def init(self, fn, v):
        return self.sy.tables(fn)[0].get(v)

    def loop_iterator(self, n, env):
        """n is the variable of a loop over a container: (container node, var, env)."""
        n = self.unwrap(n)
        if n.k != "DeclRefExpr" or n.var is None:
            return None
        if env is not None and n.var in env.nodes:
            return self.loop_iterator(env.nodes[n.var][0], env.nodes[n.var][1])
        i = self.init(n.fn, n.var)
        if i is None or not self.reassigned(n.fn, n.var):
            return None
        c = self.made_by(i, BEGIN | {"std::begin"}, n.fn)
        if c is None:
            return None
        return (c, n.var, env)

    def made_by(self, n, names, fn=None):
        """container node X of X.begin() / std::begin(X)."""
        n = self.unwrap(n)
        if n.is_call() and n.callee is not None:
            c = n.callee
            if n.obj is not None and c.name in names:
                return n.obj
            if n.obj is None and c.name in names and len(n.args) == 1 and c.q.startswith("std::"):
                return n.args[0]
        if n.k == "DeclRefExpr" and n.var is not None and self.p.vars[n.var]["k"] == "local" and not self.reassigned(n.fn, n.var):
            i = self.init(n.fn, n.var)
            if i is not None:
                return self.made_by(i, names)
        return None

    def deref(self, n):
        n = n.strip()
        if n.k == "UnaryOperator" and n.op == "*" and n.kids:
            return n.kids[0]
        if n.k == "CXXOperatorCallExpr" and n.callee is not None and n.callee.name in ("operator*", "operator->") and len(n.args) == 1:
            return n.args[0]
        return None

    def element(self, n, env, depth=0):
        """n denotes an element of a container: ('loop', container node, var, env) or ('found', map node, key node, env)."""
        if depth > 12:
            return None
        n = self.unwrap(n)
        d = self.deref(n)
        if d is not None:
            return self.iterator(d, env, depth + 1)
        if n.k == "DeclRefExpr" and n.var is not None:
            if env is not None and n.var in env.nodes:
                return self.element(env.nodes[n.var][0], env.nodes[n.var][1], depth + 1)
            v = self.p.vars[n.var]
            if v["k"] == "binding":
                e = self.sy.tables(n.fn)[1].get(n.var)
                return self.element(e, env, depth + 1) if e is not None else None
            i = self.init(n.fn, n.var)
            if i is not None and not self.reassigned(n.fn, n.var):
                return self.element(i, env, depth + 1)
        return None

    def iterator(self, n, env, depth=0):
        if depth > 12:
            return None
        n = self.unwrap(n)
        l = self.loop_iterator(n, env)
        if l is not None:
            return ("loop",) + l
        if n.k == "DeclRefExpr" and n.var is not None:
            if env is not None and n.var in env.nodes:
                return self.iterator(env.nodes[n.var][0], env.nodes[n.var][1], depth + 1)
            v = self.p.vars[n.var]
            if v["k"] == "binding":
                e = self.sy.tables(n.fn)[1].get(n.var)
                return self.iterator(e, env, depth + 1) if e is not None else None
            i = self.init(n.fn, n.var)
            if i is not None and not self.reassigned(n.fn, n.var):
                return self.iterator(i, env, depth + 1)
            return None
        part = self.member(n)
        if part is not None and part[1] == 0:
            # first of the pair returned by emplace
            e = self.source(part[0], env)
            if e is not None:
                n, env = e
        n = self.unwrap(n)
        if n.is_call() and n.callee is not None and n.obj is not None and n.callee.name in ("find", "emplace", "try_emplace", "lower_bound") and n.params_args:
            return ("found", n.obj, n.params_args[0], env)
        return None

    def source(self, n, env, depth=0):
        """Follow variables to the expression they were initialised with."""
        n = self.unwrap(n)
        if depth > 10:
            return None
        if n.k == "DeclRefExpr" and n.var is not None:
            if env is not None and n.var in env.nodes:
                return self.source(env.nodes[n.var][0], env.nodes[n.var][1], depth + 1)
            v = self.p.vars[n.var]
            if v["k"] == "binding":
                e = self.sy.tables(n.fn)[1].get(n.var)
                return self.source(e, env, depth + 1) if e is not None else None
            i = self.init(n.fn, n.var)
            if i is not None and not self.reassigned(n.fn, n.var):
                return self.source(i, env, depth + 1)
            return None
        return (n, env)

    def member(self, n):
        """(pair expression, 0|1) of x.first/x.second/std::get<i>(x)."""
        n = self.unwrap(n)
        if n.k == "MemberExpr" and "fn" not in n.d and n.d.get("m") in ("first", "second") and n.kids:
            return n.kids[0], 0 if n.d["m"] == "first" else 1
        if n.is_call() and n.callee is not None and n.callee.name == "get" and n.callee.q.startswith("std::") and len(n.args) == 1:
            t = n.callee.d.get("targs") or []
            if t and str(t[0]).rstrip("UL") in ("0", "1"):
                return n.args[0], int(str(t[0]).rstrip("UL"))
        return None

    def blocks_of(self, n, env):
        """The tensor whose table of blocks n is."""
        pa = self.sy.path(n, symenv(env))
        if pa and len(pa) >= 2 and pa[-1] in ("blocks", "value"):
            if pa[-1] == "value" and len(pa) != 2:
                return None
            root = pa[0]
            if len(pa) > 3:
                return None
            if root == ("this",):
                return ("this",)
            if root[0] == "v":
                if root[1] in self.params:
                    return ("param", self.params.index(root[1]))
                return ("var", root[1])
        return None

    def key(self, n, env, depth=0):
        if depth > 10:
            return None
        n = self.unwrap(n)
        part = self.member(n)
        if part is not None:
            e = self.element(part[0], env) or self.iterator(part[0], env)
            if part[1] == 0 and e is not None and e[0] == "loop":
                return ("k", e[2])
            return None
        if n.k == "DeclRefExpr" and n.var is not None:
            if env is not None and n.var in env.nodes:
                return self.key(env.nodes[n.var][0], env.nodes[n.var][1], depth + 1)
            v = self.p.vars[n.var]
            if v["k"] == "binding":
                e = self.sy.tables(n.fn)[1].get(n.var)
                return self.key(e, env, depth + 1) if e is not None else None
            i = self.init(n.fn, n.var)
            if i is not None and not self.reassigned(n.fn, n.var):
                return self.key(i, env, depth + 1)
        return None

    def block(self, n, env, depth=0):
        """(operand, key) of the block that the container, pointer or reference n denotes."""
        if n is None or depth > 20:
            return None
        n = self.unwrap(n)
        if n.k == "DeclRefExpr" and n.var is not None:
            if env is not None and n.var in env.nodes:
                return self.block(env.nodes[n.var][0], env.nodes[n.var][1], depth + 1)
            v = self.p.vars[n.var]
            if v["k"] == "binding":
                e = self.sy.tables(n.fn)[1].get(n.var)
                return self.block(e, env, depth + 1) if e is not None else None
            t = self.p.types[v["t"]].rstrip()
            i = self.init(n.fn, n.var)
            if i is not None and not self.reassigned(n.fn, n.var) and (t.endswith("&") or "*" in t or is_iter(t)):
                return self.block(i, env, depth + 1)
            return None
        if n.k == "UnaryOperator" and n.op == "&" and n.kids:
            s = n.kids[0].strip()
            b = self.subscript(s)
            if b is not None and self.index(b[1], env) == ("c", 0):
                return self.block(b[0], env, depth + 1)
            return None
        part = self.member(n)
        if part is not None and part[1] == 1:
            e = self.element(part[0], env) or self.iterator(part[0], env)
            if e is None:
                return None
            if e[0] == "loop":
                o = self.blocks_of(e[1], e[3])
                return (o, ("k", e[2])) if o is not None else None
            o, k = self.blocks_of(e[1], e[3]), self.key(e[2], e[3])
            return (o, k) if o is not None and k is not None else None
        if n.is_call() and n.callee is not None:
            c = n.callee
            if c.name in BEGIN and n.obj is not None:
                return self.block(n.obj, env, depth + 1)
            if c.q in ("std::begin", "std::cbegin", "std::data") and n.args:
                return self.block(n.args[0], env, depth + 1)
            if c.name in ("at", "operator[]") and n.obj is not None and n.params_args:
                o = self.blocks_of(n.obj, env)
                if o is not None:
                    k = self.key(n.params_args[0], env)
                    return (o, k) if k is not None else None
        return None

    def subscript(self, n):
        n = n.strip()
        if n.k == "ArraySubscriptExpr" and len(n.kids) == 2:
            return n.kids[0], n.kids[1]
        if n.is_call() and n.callee is not None and n.callee.name in ("operator[]", "at") and n.obj is not None and len(n.params_args) == 1:
            return n.obj, n.params_args[0]
        return None

    def index(self, n, env, depth=0):
        if n is None or depth > 10:
            return None
        if n.iv is not None:
            return ("c", n.iv)
        n = n.strip()
        if n.iv is not None:
            return ("c", n.iv)
        if n.k == "DeclRefExpr" and n.var is not None:
            if env is not None and n.var in env.nodes:
                return self.index(env.nodes[n.var][0], env.nodes[n.var][1], depth + 1)
            i = self.init(n.fn, n.var)
            if i is not None and self.p.vars[n.var]["k"] == "local" and not self.reassigned(n.fn, n.var):
                return self.index(i, env, depth + 1)
            if self.p.vars[n.var]["k"] == "local":
                return ("v", n.var)
            return None
        if n.k == "BinaryOperator" and n.op in ("+", "-", "*", "%", "/"):
            a, b = self.index(n.kids[0], env, depth + 1), self.index(n.kids[1], env, depth + 1)
            if a is None or b is None:
                return None
            if n.op == "+" and repr(b) < repr(a):
                a, b = b, a
            return (n.op, a, b)
        s = self.size(n, env)
        return ("size",) + s if s is not None else None

    def size(self, n, env, depth=0):
        n = self.unwrap(n)
        if n.is_call() and n.callee is not None and n.callee.name == "size":
            o = n.obj if n.obj is not None else (n.args[0] if n.args else None)
            return self.block(o, env) if o is not None else None
        return None

    # ------------------------------------------------ values
    def place(self, n, env):
        """Element that the lvalue n denotes: ('E', operand, key, index)."""
        n0 = n.strip()
        if n0.k == "DeclRefExpr" and n0.var is not None and env is not None and n0.var in env.terms:
            t = env.terms[n0.var]
            return t if t is not None and t[0] == "E" else None
        b = self.subscript(n0)
        if b is not None:
            k = self.block(b[0], env)
            i = self.index(b[1], env)
            if k is None or i is None:
                return None
            return ("E", k[0], k[1], i)
        e = self.element(n0, env)
        if e is not None and e[0] == "loop":
            k = self.block(e[1], e[3])
            if k is not None:
                return ("E", k[0], k[1], ("it", e[2]))
        return None

    def in_loop(self, fn, v):
        for n in fn.nodes():
            if n.k == "DeclStmt" and any(d["v"] == v for d in n.d["ds"]):
                b = block_of(fn, n)
                return any(b in l.body for l in loops(fn))
        return True

    def absolute(self, cond, x, y, env, depth):
        """c ? x : y as |v| where c says on which side of zero v lies."""
        neg = lambda t: ("-", ("c", 0.0), t)
        for v, when in ((y, "<"), (x, ">")):
            if {x, y} != {v, neg(v)} or (x if when == "<" else y) != neg(v):
                continue
            rel = relation(cond, True)
            if rel is None:
                return None
            o, l, r = rel[0], self.term(rel[1], env, depth + 1), self.term(rel[2], env, depth + 1)
            if l == ("c", 0.0):
                o, l, r = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o), r, l
            if l == v and r == ("c", 0.0) and o in (when, when + "="):
                return ("abs", v)
        return None

    def term(self, n, env, depth=0):
        if n is None or depth > 40:
            return None
        if n.iv is not None:
            return ("c", float(n.iv))
        n = n.strip()
        if n.iv is not None:
            return ("c", float(n.iv))
        if n.k == "FloatingLiteral":
            try:
                return ("c", float(n.d.get("fv", n.d.get("val"))))
            except (TypeError, ValueError):
                return None
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = n.args
            if len(a) == 1:
                return self.term(a[0], env, depth + 1)
            if len(a) == 2 and "complex" in n.type:
                re, im = self.term(a[0], env, depth + 1), self.term(a[1], env, depth + 1)
                return re if im == ("c", 0.0) else None
            if not a:
                return ("c", 0.0)
            return None
        if n.k in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
            return ("c", 0.0)
        if n.k == "InitListExpr":
            k = n.kids
            return self.term(k[0], env, depth + 1) if len(k) == 1 else (("c", 0.0) if not k else None)
        pl = self.place(n, env)
        if pl is not None:
            return pl
        if n.k == "DeclRefExpr" and n.var is not None:
            if n.var == self.acc:
                return ("acc",)
            if env is not None and n.var in env.terms:
                return env.terms[n.var]
            if env is not None and n.var in env.nodes:
                return self.term(env.nodes[n.var][0], env.nodes[n.var][1], depth + 1)
            if n.var in self.params:
                t = self.p.vtype(n.var)
                return ("num", self.params.index(n.var), t.rstrip().endswith("&"))
            i = self.init(n.fn, n.var)
            if i is not None and not self.reassigned(n.fn, n.var):
                r = self.term(i, env, depth + 1)
                if not self.p.vtype(n.var).rstrip().endswith("&") and not self.in_loop(n.fn, n.var):
                    r = by_value(r)
                return r
            return None
        if n.k == "ConditionalOperator" and len(n.kids) == 3:
            a, b = self.term(n.kids[1], env, depth + 1), self.term(n.kids[2], env, depth + 1)
            if a is None or b is None:
                return None
            return self.absolute(n.kids[0], a, b, env, depth) or ("ite", n.kids[0].id, equality(n.kids[0]), a, b)
        if n.k == "BinaryOperator" and n.op in ("+", "-", "*", "/"):
            a, b = self.term(n.kids[0], env, depth + 1), self.term(n.kids[1], env, depth + 1)
            return (n.op, a, b) if a is not None and b is not None else None
        if n.k == "UnaryOperator" and n.op == "-":
            a = self.term(n.kids[0], env, depth + 1)
            return ("-", ("c", 0.0), a) if a is not None else None
        if n.k == "UnaryOperator" and n.op == "+":
            return self.term(n.kids[0], env, depth + 1)
        if n.is_call():
            c = n.callee
            if c is None:
                return None
            if n.k == "CXXOperatorCallExpr" and c.name == "operator()":
                return self.apply(n.args[0], [self.term(x, env, depth + 1) for x in n.args[1:]], env, depth + 1)
            if c.name in OPS and len(n.args) == 2:
                a, b = self.term(n.args[0], env, depth + 1), self.term(n.args[1], env, depth + 1)
                return (OPS[c.name], a, b) if a is not None and b is not None else None
            if c.name == "operator-" and len(n.args) == 1:
                a = self.term(n.args[0], env, depth + 1)
                return ("-", ("c", 0.0), a) if a is not None else None
            if c.name in ("real", "imag"):
                a = self.term(n.obj if n.obj is not None else n.args[0], env, depth + 1)
                return (c.name, a) if a is not None else None
            if c.q in ("std::abs", "std::norm", "std::conj", "abs", "fabs", "std::fabs", "sqrt", "std::sqrt", "std::hypot", "cabs") and len(n.args) == 1:
                a = self.term(n.args[0], env, depth + 1)
                return (c.name.replace("fabs", "abs"), a) if a is not None else None
            if c.q in ("std::pow", "pow") and len(n.args) == 2:
                a, b = self.term(n.args[0], env, depth + 1), self.term(n.args[1], env, depth + 1)
                return ("pow", a, b) if a is not None and b is not None else None
            if c.name == "size":
                z = self.size(n, env)
                return ("size",) + z if z is not None else None
            r = self.p.resolve(n)
            if r is not None and r.in_repo and r.body is not None and not r.body.nocfg and depth < 12:
                return self.call_value(r, [(a, env) for a in n.params_args], n, env, depth)
        return None

    def call_value(self, c, args, call, env, depth):
        rets = [x for x in c.body.live_nodes() if x.k == "ReturnStmt" and x.kids]
        if len(rets) != 1:
            return None
        e2 = Env({v: a for v, a in zip(c.params, args)}, self.sy.call_env(call, c, symenv(env)), call, env)
        return self.term(rets[0].kids[0], e2, depth + 1)

    def lambda_of(self, n, env, depth=0):
        """FnInfo of the call operator of the lambda that n denotes."""
        n = self.unwrap(n)
        if n.k == "LambdaExpr":
            return self.lambda_fn(n)
        if depth < 8 and n.k == "DeclRefExpr" and n.var is not None:
            if env is not None and n.var in env.nodes:
                return self.lambda_of(env.nodes[n.var][0], env.nodes[n.var][1], depth + 1)
            i = self.init(n.fn, n.var)
            if i is not None and not self.reassigned(n.fn, n.var):
                return self.lambda_of(i, env, depth + 1)
        return None

    def lambda_fn(self, n):
        ids = n.d.get("specs") or ([n.d["fn"]] if "fn" in n.d else [])
        for i in ids:
            fi = self.p.fninfo[i]
            if fi.body is not None:
                return fi
        return None

    def apply(self, functor, terms, env, depth=0):
        """Value of functor(terms...)."""
        if any(t is None for t in terms):
            return None
        t = functor.type
        for q, op in FUNCTORS.items():
            if t.replace("const ", "").startswith(q):
                return (op,) + tuple(terms) if len(terms) == 2 else None
        l = self.lambda_of(functor, env)
        if l is not None:
            rets = [x for x in l.body.live_nodes() if x.k == "ReturnStmt" and x.kids]
            if len(rets) != 1 or len(l.params) != len(terms):
                return None
            e2 = Env({}, None, None, env, dict(zip(l.params, terms)))
            e2.nodes = dict(env.nodes) if env is not None else {}
            return self.term(rets[0].kids[0], e2, depth + 1)
        s = self.source(functor, env)
        n = self.unwrap(functor)
        if n.k == "DeclRefExpr" and n.var is not None:
            if env is not None and n.var in env.nodes:
                return self.apply(env.nodes[n.var][0], terms, env.nodes[n.var][1], depth + 1)
            if n.var in self.params:
                return ("call", self.params.index(n.var)) + tuple(terms)
        return None

    # ------------------------------------------------ stores
    def facts(self):
        out = []
        self.opaque = []
        self.visit(self.f, None, out, 0)
        return out

    def visit(self, fn, env, out, depth):
        for n in fn.live_nodes():
            if n.k == "BinaryOperator" and n.op == "=":
                self.store(fn, n, n.kids[0], lambda e=n.kids[1]: self.term(e, env), env, out)
            elif n.k == "CompoundAssignOperator" and n.op in ("+=", "-=", "*=", "/="):
                self.compound(fn, n, n.kids[0], n.op[0], n.kids[1], env, out)
            elif n.k == "CXXOperatorCallExpr" and n.callee is not None and n.callee.name == "operator=" and len(n.args) == 2:
                self.store(fn, n, n.args[0], lambda e=n.args[1]: self.term(e, env), env, out)
            elif n.k == "CXXOperatorCallExpr" and n.callee is not None and n.callee.name in INOPS and len(n.args) == 2:
                self.compound(fn, n, n.args[0], INOPS[n.callee.name], n.args[1], env, out)
            elif n.is_call() and n.callee is not None:
                self.call(fn, n, env, out, depth)

    def store(self, fn, n, dest, value, env, out):
        pl = self.place(dest, env)
        if pl is None:
            return
        out.append(Fact(fn, n, env, pl, value(), self.cover(fn, n, pl, env)))

    def compound(self, fn, n, dest, op, rhs, env, out):
        pl = self.place(dest, env)
        if pl is None:
            return
        t = self.term(rhs, env)
        out.append(Fact(fn, n, env, pl, (op, pl, t) if t is not None else None, self.cover(fn, n, pl, env)))

    def call(self, fn, n, env, out, depth):
        q = n.callee.q
        a = n.args
        if q in ("std::transform", "std::fill", "std::copy", "std::for_each", "std::fill_n", "std::copy_n", "std::generate") and a:
            self.algorithm(fn, n, q, a, env, out)
            return
        c = self.p.resolve(n)
        if n.k == "CXXOperatorCallExpr" and n.callee.name == "operator()" and (c is None or c.body is None):
            c = self.lambda_of(n.args[0], env)
        if c is None or c.body is None or not c.in_repo or c.body.nocfg or depth >= INLINE_DEPTH or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return
        pa = n.params_args if not (n.k == "CXXOperatorCallExpr" and n.callee.name == "operator()" and not n.d.get("omem")) else n.args[1:]
        touches = any(self.block(x, env) is not None for x in pa) or c.is_lambda or (n.k == "CXXOperatorCallExpr" and n.callee.name == "operator()")
        if not touches:
            return
        nodes = {v: (x, env) for v, x in zip(c.params, pa)}
        if env is not None:
            nodes = dict(env.nodes, **nodes)
        e2 = Env(nodes, self.sy.call_env(n, c, symenv(env)), n, env)
        e2.fn = fn
        self.visit(c.body, e2, out, depth + 1)

    def whole(self, first, last, env):
        """(block, coverage) of the iterator range [first, last)."""
        x, y = self.made_by(first, BEGIN | {"std::begin"}), self.made_by(last, END)
        if x is not None and y is not None:
            bx, by = self.block(x, env), self.block(y, env)
            if bx is not None and bx == by:
                return bx, "full"
            return bx, None
        for side, names in ((first, BEGIN), (last, END)):
            s = self.unwrap(side)
            if (s.k == "BinaryOperator" and s.op in ("+", "-")) or (s.is_call() and s.callee is not None and s.callee.name in ("operator+", "operator-", "next", "prev")):
                ks = s.kids if s.k == "BinaryOperator" else s.args
                m = self.made_by(ks[0], BEGIN | END)
                b = self.block(m, env) if m is not None else None
                k = ks[1].strip().iv if len(ks) > 1 else 1
                if b is not None and k not in (None, 0):
                    return b, "bad"
        # data(), data() + size()
        b = self.block(first, env)
        s = self.unwrap(last)
        if b is not None and s.k == "BinaryOperator" and s.op == "+" and self.block(s.kids[0], env) == b:
            z = self.index(s.kids[1], env)
            if z is not None and z[0] == "size" and z[2] == b[1]:
                return b, "full"
        return b, None

    def algorithm(self, fn, n, q, a, env, out):
        if q == "std::fill" and len(a) == 3:
            b, cov = self.whole(a[0], a[1], env)
            if b is not None:
                out.append(Fact(fn, n, env, ("E", b[0], b[1], ("all",)), self.term(a[2], env), cov))
        elif q == "std::fill_n" and len(a) == 3:
            b, z = self.block(a[0], env), self.index(a[1], env)
            if b is not None:
                out.append(Fact(fn, n, env, ("E", b[0], b[1], ("all",)), self.term(a[2], env), "full" if z and z[0] == "size" and z[2] == b[1] else None))
        elif q == "std::copy" and len(a) == 3:
            b, cov = self.whole(a[0], a[1], env)
            d = self.block(a[2], env)
            if b is not None and d is not None:
                out.append(Fact(fn, n, env, ("E", d[0], d[1], ("all",)), ("E", b[0], b[1], ("all",)), cov))
        elif q == "std::transform" and len(a) in (4, 5):
            b, cov = self.whole(a[0], a[1], env)
            srcs = [b]
            if len(a) == 5:
                srcs.append(self.block(a[2], env))
            d = self.block(a[-2], env)
            if d is None and cov == "bad":
                s = self.unwrap(a[-2])
                ks = s.kids if s.k == "BinaryOperator" else s.args if s.is_call() else []
                m = self.made_by(ks[0], BEGIN) if ks else None
                d = self.block(m, env) if m is not None else None
            if d is None:
                return
            t = None
            if all(s is not None for s in srcs):
                t = self.apply(a[-1], [("E", s[0], s[1], ("all",)) for s in srcs], env)
            out.append(Fact(fn, n, env, ("E", d[0], d[1], ("all",)), t, cov))
        elif q == "std::for_each" and len(a) == 3:
            b, cov = self.whole(a[0], a[1], env)
            l = self.lambda_of(a[2], env)
            if b is not None and l is not None and len(l.params) == 1:
                e2 = Env(dict(env.nodes) if env is not None else {}, None, n, env, {l.params[0]: ("E", b[0], b[1], ("all",))})
                e2.fn = fn
                sub = []
                self.visit(l.body, e2, sub, INLINE_DEPTH)
                for x in sub:
                    x.cover = cov
                    x.node, x.fn, x.env = n, fn, env
                out += sub

    # ------------------------------------------------ coverage
    def cover(self, fn, n, pl, env):
        """'full' if the loop around the store runs over every position of the block, 'bad' if it certainly does not."""
        idx = pl[3]
        b = block_of(fn, n)
        ls = sorted([l for l in loops(fn) if b in l.body], key=lambda l: len(l.body))
        if idx == ("all",):
            return None
        if idx[0] == "it":
            for l in ls:
                r = self.iter_loop(fn, l, idx[1], env)
                if r is not None:
                    return r if not self.conditional(fn, n, l) else "cond"
            return None
        if idx[0] == "v":
            for l in ls:
                r = self.count_loop(fn, l, idx[1], pl, env)
                if r is not None:
                    return r if not self.conditional(fn, n, l) else "cond"
            return None
        return None

    def conditional(self, fn, n, l):
        """Some iteration of the loop does not execute the store."""
        b = block_of(fn, n)
        if b == l.header:
            return False
        seen, st = set(), [s for s, _ in fn.succs(fn.blocks[l.header]) if s in l.body]
        while st:
            x = st.pop()
            if x == l.header:
                return True
            if x in seen or x == b or x not in l.body:
                continue
            seen.add(x)
            st += [s for s, _ in fn.succs(fn.blocks[x])]
        return False

    def iter_loop(self, fn, l, v, env):
        ex = exits(l)
        if len(ex) != 1 or ex[0][1] is None:
            return None
        rel = relation(ex[0][1], not ex[0][2])
        if rel is None or rel[0] not in ("!=", "<"):
            return None
        sides = [self.unwrap(rel[1]), self.unwrap(rel[2])]
        for x, y in (sides, sides[::-1]):
            if x.k == "DeclRefExpr" and x.var == v:
                i = self.init(fn, v)
                f, e = self.made_by(i, BEGIN), self.made_by(y, END)
                if f is not None and e is not None and self.sy.path(f, symenv(env)) == self.sy.path(e, symenv(env)):
                    return "full"
        return None

    def count_loop(self, fn, l, v, pl, env):
        ups = [a for a in self.sy.tables(fn)[2].get(v, []) if block_of(fn, a) in l.body]
        if not ups:
            return None
        init = self.init(fn, v)
        if len(ups) != 1 or init is None:
            return "unknown"
        step = None
        if ups[0].k == "UnaryOperator" and ups[0].op in ("++", "post++", "pre++"):
            step = 1
        elif ups[0].k == "CompoundAssignOperator" and ups[0].op == "+=":
            k = ups[0].kids[1].strip().iv
            step = k
        if step is None:
            return "unknown"
        i0 = self.index(init, env)
        ex = exits(l)
        conds = [e for e in ex if e[1] is not None]
        if len(ex) != len(conds) or len(conds) != 1:
            return "unknown"
        rel = relation(conds[0][1], not conds[0][2])
        if rel is None:
            return "unknown"
        op, x, y = rel
        if self.index(y, env) == ("v", v):
            op, x, y = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}[op], y, x
        ix, iy = self.index(x, env), self.index(y, env)
        if ix is not None and ix[0] == "+" and ix[1][0] == "c" and ix[2] == ("v", v) and iy is not None and iy[0] == "size" and i0 == ("c", 0) and step == 1:
            d = ix[1][1] - (1 if op == "<=" else 0)
            return "full" if d == 0 else "bad"
        if ix != ("v", v) or iy is None or i0 is None or op not in ("<", "!=", "<="):
            return "unknown"
        if i0[0] != "c":
            return "unknown"
        if i0[1] != 0 or step != 1:
            return "bad"
        if iy[0] == "size" and op in ("<", "!="):
            return "full" if iy[2] == pl[2] else "unknown"
        if iy[0] == "-" and iy[1][0] == "size" and iy[2][0] == "c":
            d = iy[2][1] - (1 if op == "<=" else 0)
            return "full" if d == 0 else "bad"
        if iy[0] == "c":
            return "bad"
        return "unknown"


def by_value(t):
    if t is None or not isinstance(t, tuple):
        return t
    if t and t[0] == "num":
        return ("num", t[1], False)
    return tuple(by_value(x) for x in t)


def has_ref(t):
    if isinstance(t, tuple):
        if t and t[0] == "num":
            return t[2]
        return any(has_ref(x) for x in t)
    return False


def has_choice(t):
    return isinstance(t, tuple) and (t[:1] == ("ite",) or any(has_choice(x) for x in t[1:]))


def equality(n):
    """True: n holds where two values are equal; False: where they differ; None otherwise."""
    rel = relation(n, True)
    return None if rel is None or rel[0] not in ("==", "!=") else rel[0] == "=="


def alternatives(t):
    """[(term, it is chosen only where two values are equal)]."""
    if not isinstance(t, tuple) or t[0] in ("E", "c", "num"):
        return [(t, False)]
    if t[0] == "ite":
        out = []
        for side, x in ((True, t[3]), (False, t[4])):
            out += [(y, s or t[2] is side) for y, s in alternatives(x)]
        return out
    out = [((t[0],), False)]
    for x in t[1:]:
        alts = alternatives(x) if isinstance(x, tuple) else [(x, False)]
        out = [(y + (z,), s or r) for y, s in out for z, r in alts][:16]
    return out


def special_case(a, fact):
    """The store happens only where two values are equal (and may be simplified there)."""
    n, env = fact.node, fact.env
    f = n.fn
    for cn, br in edge_guards(f, block_of(f, n)):
        for m, truth, _ in atoms(a.sy, cn, br):
            rel = relation(m, truth)
            if rel is not None and rel[0] == "==" and names_relation(a, m, truth) is None and any(a.term(z, env) is not None for z in rel[1:]):
                return True
    return False


def pmul(x, y):
    r = {}
    for m, k in x.items():
        for n, l in y.items():
            q = tuple(sorted(m + n, key=repr))
            r[q] = r.get(q, 0) + k * l
    return {m: k for m, k in r.items() if k}


def padd(x, y, sign=1):
    r = dict(x)
    for m, k in y.items():
        r[m] = r.get(m, 0) + sign * k
    return {m: k for m, k in r.items() if k}


ONE = {(): Fraction(1)}


def ratio(t):
    """The term as a quotient of polynomials over its elements, numbers and calls."""
    if t[0] == "c":
        return ({(): Fraction(t[1])} if t[1] else {}), ONE
    if t[0] == "num":
        return {(("num", t[1]),): Fraction(1)}, ONE
    if t[0] in ("+", "-", "*", "/") and len(t) == 3:
        (n1, d1), (n2, d2) = ratio(t[1]), ratio(t[2])
        if t[0] in ("+", "-"):
            return padd(pmul(n1, d2), pmul(n2, d1), 1 if t[0] == "+" else -1), pmul(d1, d2)
        if t[0] == "*":
            return pmul(n1, n2), pmul(d1, d2)
        if not n2:
            return {(("/0", freeze(n1), freeze(d1)),): Fraction(1)}, ONE
        return pmul(n1, d2), pmul(d1, n2)
    if t[0] == "E":
        return {(t,): Fraction(1)}, ONE
    return {((t[0],) + tuple(freeze_term(x) for x in t[1:]),): Fraction(1)}, ONE


def freeze(x):
    return tuple(sorted(x.items(), key=repr))


def freeze_term(x):
    if not isinstance(x, tuple):
        return x
    n, d = ratio(x)
    return freeze(n), freeze(d)


def equal(t, u):
    (n1, d1), (n2, d2) = ratio(t), ratio(u)
    return pmul(n1, d2) == pmul(n2, d1)


def show(p, t):
    if not isinstance(t, tuple) or not t:
        return "?" if t is None else str(t)
    if t[0] == "ite":
        return "either %s or %s" % (show(p, t[3]), show(p, t[4]))
    if t[0] == "E":
        o = t[1]
        nm = {"this": "this"}.get(o[0]) or ("operand %d" % (o[1] + 1) if o[0] == "param" else p.vname(o[1]))
        i = t[3]
        return "%s[%s]" % (nm, p.vname(i[1]) if i[0] in ("v", "it") else ("i" if i[0] == "all" else idx_show(p, i)))
    if t[0] == "c":
        return "%g" % t[1]
    if t[0] == "num":
        return "number"
    if t[0] == "acc":
        return "sum"
    if t[0] == "size":
        return "size"
    if t[0] == "call":
        return "f(%s)" % ", ".join(show(p, x) for x in t[2:])
    if len(t) == 3:
        return "(%s %s %s)" % (show(p, t[1]), t[0], show(p, t[2]))
    return "%s(%s)" % (t[0], ", ".join(show(p, x) for x in t[1:]))


def idx_show(p, i):
    if i[0] == "c":
        return str(i[1])
    if i[0] in ("v", "it"):
        return p.vname(i[1])
    if i[0] == "size":
        return "size"
    return "(%s%s%s)" % (idx_show(p, i[1]), i[0], idx_show(p, i[2]))


# ---------------------------------------------------------------- alignment of the second operand
def names_path(a, n, env=None):
    pa = a.sy.path(n)
    if pa and len(pa) == 2 and pa[1] == "names":
        return pa[0]
    return None


def root_param(a, root):
    if root is not None and root[0] == "v" and root[1] in a.params:
        return a.params.index(root[1])
    return None


def names_relation(a, n, truth):
    """True/False: the atom says that the names of both operands are (not) equal; 'part': it compares only parts; None."""
    rel = relation(n, truth)
    if rel is not None:
        l, r = names_path(a, rel[1]), names_path(a, rel[2])
        if l is not None and r is not None and {root_param(a, l), root_param(a, r)} == {0, 1} and rel[0] in ("==", "!="):
            return rel[0] == "=="
        if rel[0] in ("==", "!="):
            parts = []
            for s in rel[1:]:
                for x in s.walk():
                    q = names_path(a, x)
                    if q is not None and root_param(a, q) is not None:
                        parts.append(root_param(a, q))
            if {0, 1} <= set(parts):
                return "part"
    return None


def transposed(a, n):
    """n is X.transpose(Y.names): (param of X, param of Y), else None."""
    n = a.unwrap(n)
    if n.is_call() and n.callee is not None and n.callee.name == "transpose" and n.obj is not None and n.params_args:
        x = a.sy.path(n.obj)
        y = names_path(a, n.params_args[0])
        if x is not None and len(x) == 1 and y is not None:
            return root_param(a, x[0]), root_param(a, y)
    return None


def known_names_equal(a, fn, b):
    for cn, br in edge_guards(fn, b):
        for n, truth, _ in atoms(a.sy, cn, br):
            if names_relation(a, n, truth) is True:
                return True
    return False


def throws_otherwise(a, fn, cn, br):
    for b in fn.live():
        blk = fn.blocks[b]
        c = blk.d.get("lcond", blk.d.get("cond", -1))
        if c == cn.id:
            others = [s for s, x in fn.succs(blk) if x is not None and x != br]
            return all(never_returns(fn, s) for s in others)
    return False


def never_returns(fn, bid):
    seen, st = set(), [bid]
    while st:
        x = st.pop()
        if x == fn.exit:
            return False
        if x in seen:
            continue
        seen.add(x)
        if fn.prog.throws_in_block(fn, fn.blocks[x]):
            continue
        st += [s for s, _ in fn.succs(fn.blocks[x])]
    return True


def aligned(a, opnd, fact):
    """'ok', 'bad: why' or None (not decided) for the second operand of an operation on two tensors."""
    f = a.f
    site = block_of(f, site_node(fact))
    if opnd == ("param", 1):
        if site is not None and known_names_equal(a, f, site):
            return "ok"
        return "bad: elements of the second operand are used without bringing its edges to the order of the first"
    if opnd[0] != "var":
        return None
    v = opnd[1]
    init = a.init(f, v)
    asg = [n for n in a.sy.tables(f)[2].get(v, []) if n.k == "BinaryOperator"] + [n for n in a.assigned_calls(f).get(v, []) if n.callee.name == "operator="]
    if init is None:
        return None
    alts = []
    i = a.unwrap(init)
    # one initialisation
    def classify(n):
        n = a.unwrap(n)
        t = transposed(a, n)
        if t is not None:
            return "ok" if t == (1, 0) else "bad: the second operand is taken from %s, brought to the names of %s" % ("operand %d" % (t[0] + 1) if t[0] is not None else "?", "operand %d" % (t[1] + 1) if t[1] is not None else "?") if None not in t else None
        if n.k == "UnaryOperator" and n.op == "&":
            n = a.unwrap(n.kids[0])
        pa = a.sy.path(n)
        if pa is not None and len(pa) == 1 and pa[0][0] == "v":
            w = pa[0][1]
            if root_param(a, pa[0]) == 1:
                return "raw"
            if root_param(a, pa[0]) == 0:
                return "first"
            if w != v:
                ws = [x for x in a.assigned_calls(f).get(w, []) if x.callee.name == "operator="]
                wi = a.init(f, w)
                srcs = [x.args[1] for x in ws]
                if not srcs and wi is not None:
                    srcs = [wi]
                rs = {classify(x) for x in srcs}
                return rs.pop() if len(rs) == 1 else None
        return None
    if not asg:
        if i.k == "ConditionalOperator":
            cnd, x, y = i.kids[:3]
            rx, ry = classify(x), classify(y)
            for n, truth, r, o in ((cnd, True, rx, ry), (cnd, False, ry, rx)):
                at = atoms(a.sy, n, truth)
                if any(names_relation(a, m, t) is True for m, t, _ in at) and r in ("raw", "ok"):
                    return o if o != "raw" else "bad: elements of the second operand are used without bringing its edges to the order of the first"
            return None
        r = classify(init)
        if r == "raw":
            return "ok" if site is not None and known_names_equal(a, f, site) else "bad: elements of the second operand are used without bringing its edges to the order of the first"
        return r
    r0 = classify(init)
    if len(asg) != 1:
        return None
    rhs = asg[0].kids[1] if asg[0].k == "BinaryOperator" else asg[0].args[1]
    r1 = classify(rhs)
    if r1 is None or r0 not in ("raw", "ok", None):
        return None
    if r1 == "raw" and r0 in ("raw",):
        return "bad: elements of the second operand are used without bringing its edges to the order of the first"
    if r1 != "ok":
        return r1 if str(r1).startswith("bad") else None
    if r0 == "ok":
        return "ok"
    # the reassignment must happen whenever the names differ
    b = block_of(f, asg[0])
    extra = []
    for cn, br in edge_guards(f, b):
        ats = atoms(a.sy, cn, br)
        rels = [names_relation(a, m, t) for m, t, _ in ats]
        if False in rels and len([x for x in ats if x[0].k != "DeclRefExpr"]) == 1:
            continue
        if throws_otherwise(a, f, cn, br):
            continue
        if True in rels:
            return "bad: the second operand is brought to the order of the first only where the names are equal already"
        if "part" in rels:
            return "bad: the decision to bring the second operand to the order of the first compares only a part of the names"
        extra.append(cn)
    if extra:
        # `x && names differ` and the like: parts of one condition appear as separate guards
        known = [cn for cn, br in edge_guards(f, b) if False in [names_relation(a, m, t) for m, t, _ in atoms(a.sy, cn, br)]]
        if known:
            return "bad: the second operand is brought to the order of the first only under a further condition"
        return None
    return "ok"


def site_node(fact):
    """The node of the judged function from which the store is reached."""
    n, e = fact.node, fact.env
    while e is not None and e.call is not None:
        n, e = e.call, e.parent
    return n


def together(f, x, y):
    """Both stores can happen for one block: one is reachable from the other inside the loop over the blocks."""
    bx, by = block_of(f, site_node(x)), block_of(f, site_node(y))
    if bx is None or by is None or bx == by:
        return True
    outer = [l for l in loops(f) if bx in l.body and by in l.body]
    stop = {l.header for l in sorted(outer, key=lambda l: -len(l.body))[:1]}
    for u, v in ((bx, by), (by, bx)):
        seen, st = set(stop), [s for s, _ in f.succs(f.blocks[u])]
        while st:
            z = st.pop()
            if z == v:
                return True
            if z in seen:
                continue
            seen.add(z)
            st += [s for s, _ in f.succs(f.blocks[z])]
    return False


# ---------------------------------------------------------------- existence of blocks
def presence(a, cn, br):
    """[(operand, it has the block)] where the condition cn has the value br."""
    out = []
    for n, truth, _ in atoms(a.sy, cn, br):
        rel = relation(n, truth)
        s = a.unwrap(n)
        if s.is_call() and s.callee is not None and s.callee.name in ("count", "contains") and s.obj is not None:
            o = a.blocks_of(s.obj, None)
            if o is not None:
                out.append((o, truth))
        if rel is None or rel[0] not in ("==", "!="):
            continue
        for x, y in ((rel[1], rel[2]), (rel[2], rel[1])):
            e = a.iterator(x, None)
            m = a.made_by(y, END)
            if e is not None and e[0] == "found" and m is not None:
                o = a.blocks_of(e[1], None)
                if o is not None and o == a.blocks_of(m, None):
                    out.append((o, rel[0] == "!="))
            s = a.unwrap(x)
            if s.is_call() and s.callee is not None and s.callee.name in ("count",) and s.obj is not None and y.strip().iv in (0, 1):
                o = a.blocks_of(s.obj, None)
                if o is not None:
                    out.append((o, (y.strip().iv == 1) == (rel[0] == "==")))
    return out


def worlds(a):
    """block -> sets of presence facts under which it can be reached within one iteration over the blocks."""
    f = a.f
    if getattr(a, "_worlds", None) is not None:
        return a._worlds
    edge = {}
    for bid, blk in f.blocks.items():
        cn = blk.d.get("lcond", blk.d.get("cond", -1))
        if cn is None or cn < 0:
            continue
        for s, br in f.succs(blk):
            if br is not None and isinstance(br, bool):
                pr = presence(a, f.node(cn), br)
                if pr:
                    edge[(bid, s)] = pr
    tested = {b for b, _ in edge}
    fresh = {l.header for l in loops(f) if tested & set(l.body)}
    w = {f.entry: {frozenset()}}
    todo = [f.entry]
    while todo:
        x = todo.pop()
        for s, _ in f.succs(f.blocks[x]):
            new = set()
            for facts in w[x]:
                g = dict(facts)
                ok = True
                for o, t in edge.get((x, s), ()):
                    ok = ok and g.setdefault(o, t) == t
                if ok:
                    new.add(frozenset() if s in fresh else frozenset(g.items()))
            old = w.setdefault(s, set())
            if not new <= old:
                old |= new
                todo.append(s)
    a._worlds = w
    return w


def have(a, fact):
    """operand -> it has the block (True, False), or "mixed"."""
    out = {}
    f = a.f
    b = block_of(f, site_node(fact))
    if b is None:
        return out
    for cn, br in edge_guards(f, b):
        out.update(presence(a, cn, br))
    ws = [dict(x) for x in worlds(a).get(b, ())]
    for o in {o for x in ws for o in x}:
        vs = {x.get(o) for x in ws}
        if len(vs) == 1:
            out[o] = vs.pop()
        elif False in vs and o not in out:
            out[o] = "mixed"
    return out


# ---------------------------------------------------------------- coverage of blocks
def block_cover(c, a, facts, key):
    """Each iteration over a block reaches a store; reports iterations that certainly do not."""
    f = a.f
    ls = [l for l in loops(f) if any(True for n in l.nodes() if False) or True]
    loop = None
    for l in ls:
        # loop whose iterator is the key variable
        for n in l.nodes():
            if n.is_call() and n.callee is not None and n.callee.name in ("operator++",) and n.args and n.args[0].strip().k == "DeclRefExpr" and n.args[0].strip().var == key[1]:
                loop = l if loop is None or len(l.body) < len(loop.body) else loop
    if loop is None:
        return None
    stops = set()
    for x in facts:
        s = site_node(x)
        b = block_of(f, s)
        if b is None:
            return None
        inner = [l for l in loops(f) if b in l.body and l.header in loop.body and l.header != loop.header]
        # the outermost loop inside the block loop: passing its header counts as processing
        if inner:
            inner.sort(key=lambda l: -len(l.body))
            stops.add(inner[0].header)
        else:
            stops.add(b)
    seen, st = {}, [(s, None) for s, _ in f.succs(f.blocks[loop.header]) if s in loop.body]
    skip = None
    for s, _ in st:
        seen[s] = None
    while st:
        x, _ = st.pop()
        if x == loop.header:
            skip = x
            break
        if x in stops or x not in loop.body:
            continue
        if f.prog.throws_in_block(f, f.blocks[x]):
            continue
        for y, br in f.succs(f.blocks[x]):
            if y not in seen:
                seen[y] = x
                st.append((y, x))
    early = [e for e in exits(loop) if e[0] != loop.header]
    early = [e for e in early if not never_returns(f, e[3])]
    # conditions on the way
    def conds(x):
        out = []
        while x is not None:
            blk = f.blocks[x]
            cn = blk.d.get("lcond", blk.d.get("cond", -1))
            if cn is not None and cn >= 0 and len(f.succs(blk)) > 1:
                out.append(f.node(cn))
            x = seen.get(x)
        return out
    if skip is not None:
        cs = conds(seen[loop.header])
        return "skip", cs, loop
    if early:
        cs = []
        for e in early:
            if e[1] is not None:
                cs.append(e[1])
        return "leave", cs, loop
    return "full", [], loop


def excusable(a, n):
    """The condition may say that there is nothing to do."""
    for x in n.walk():
        if x.is_call() and x.callee is not None and x.callee.name in ("empty", "find", "end", "count"):
            return True
        if x.k == "DeclRefExpr" and x.var is not None:
            if x.var in a.params and "Tensor<" not in a.p.vtype(x.var) and "Singular<" not in a.p.vtype(x.var):
                return True
            s = a.source(x, None)
            if s is not None and s[0] is not x and s[0].id != n.id:
                for y in s[0].walk():
                    if y.is_call() and y.callee is not None and y.callee.name in ("empty", "find", "end", "count"):
                        return True
                    if y.k == "DeclRefExpr" and y.var in a.params and "Tensor<" not in a.p.vtype(y.var) and "Singular<" not in a.p.vtype(y.var):
                        return True
    rel = relation(n, True)
    if rel is not None and any(s.strip().iv == 0 for s in rel[1:]):
        return True
    return False


# ---------------------------------------------------------------- the operations
def bare(t):
    return t.replace("const ", "").rstrip("& ").strip()


def kind(t):
    t = bare(t)
    if t.startswith("TAT::Tensor<"):
        return "T"
    if t.startswith("TAT::Singular<"):
        return "S"
    if t in ("float", "double", "int", "long") or t.startswith("std::complex<"):
        return "n"
    return "?"


def operations(p):
    for f in p.repo_fns():
        if f.nocfg or not f.info.file.startswith(REPO + "/include/"):
            continue
        i = f.info
        ks = [kind(t) for t in i.param_types]
        if i.name in OPS and len(ks) == 2 and "T" in ks and "?" not in ks and "S" not in ks:
            yield f, "out", OPS[i.name], ks
        elif i.name in INOPS and len(ks) == 2 and ks[0] in ("T", "S") and ks[1] in ("T", "n"):
            yield f, "in", INOPS[i.name], ks
        elif i.q.startswith("TAT::Tensor<") and (i.cls or "").startswith("TAT::Tensor"):
            if i.name == "map" and len(ks) == 1:
                yield f, "map", None, ks
            elif i.name == "transform" and len(ks) == 1:
                yield f, "transform", None, ks
            elif i.name == "to" and not ks:
                yield f, "to", None, ks


def label(f):
    n = f.info.name
    return n if n.startswith("operator") else "Tensor::" + n


def judge(c, p, sy, f, what, op, ks):
    a = A(p, sy, f)
    facts = a.facts()
    nm = "%s(%s)" % (label(f), ", ".join({"T": "tensor", "S": "singular values", "n": "number", "?": "function"}[k] for k in ks))
    c.count("operations")
    if DEBUG:
        print("---", f.info.pretty[:150], what, len(facts), file=sys.stderr)
    if not facts:
        c.count("operations without element stores (delegating or not understood)")
        return
    bykey = {}
    undecided = False
    src = None
    for x in facts:
        dest = x.dest
        where = x.node.loc
        key = dest[2]
        bykey.setdefault(key, []).append(x)
        if DEBUG:
            print("   ", x.node.line, show(p, dest), "=", show(p, x.term), x.cover, file=sys.stderr)
        if x.cover == "bad" and [y for y in facts if y is not x and y.dest[1:3] == x.dest[1:3] and together(f, x, y)]:
            undecided = True    # one of several loops over the block
        elif x.cover == "bad":
            c.violation("cover:" + nm, where, "not-every-element", "%s: the loop does not run over every element of a block" % nm)
        elif x.cover == "full":
            c.count("loops over all elements of a block")
        else:
            undecided = True
        t = x.term
        if t is None:
            undecided = True
            continue
        # expected term
        hv = have(a, x)
        same = lambda o: ("E", o, key, dest[3])
        ops = []
        if what == "out" or what == "in":
            for j, k in enumerate(ks):
                if k == "n":
                    ops.append([("num", j)])
                else:
                    ops.append(None)
            # operands as they occur in the term
            occ = set()
            collect(t, occ)
            o2 = None
            if what == "out" and ks == ["T", "T"] or (what == "in" and ks == ["T", "T"]):
                for o in sorted(occ):
                    if o != ("param", 0):
                        r = aligned(a, o, x)
                        if DEBUG:
                            print("       operand", o, r, file=sys.stderr)
                        if r == "ok":
                            o2 = o
                            c.count("uses of the aligned second operand")
                        elif r is None:
                            undecided = True
                            o2 = o
                        elif r == "first":
                            c.violation("operand:" + nm, where, "wrong-operand", "%s: the first operand is used in place of the second" % nm)
                        else:
                            c.violation("align:" + nm, where, "not-aligned", "%s: %s" % (nm, r[5:]))
                            o2 = o
                if o2 is None:
                    cands = [o for o in hv if o != ("param", 0)]
                    o2 = cands[0] if len(cands) == 1 else ("param", 1)
                exp1 = ("c", 0.0) if hv.get(("param", 0)) is False else same(("param", 0))
                exp2 = ("c", 0.0) if hv.get(o2) is False else same(o2)
            elif ks[0] in ("T", "S"):
                exp1, exp2 = same(("param", 0)), ("num", 1)
            else:
                exp1, exp2 = ("num", 0), same(("param", 1))
            expect = {(op, exp1, exp2)}
            if exp1 == ("c", 0.0) and exp2 == ("c", 0.0):
                expect = {("c", 0.0)}
        elif what == "map":
            expect = {("call", 0, same(("this",)))}
        elif what == "transform":
            expect = {("call", 0, same(("this",)))}
        elif what == "to":
            fr, to = scalar_of(f.info.d, f), scalar_of_ret(f)
            e = same(("this",))
            expect = {("real", e)} if "complex" in (fr or "") and "complex" not in (to or "") else {e}
        if what == "in" and dest[1] != ("param", 0) or "mixed" in hv.values():
            undecided = True
            continue
        if what in ("out", "map", "to") and dest[1][0] == "param":
            undecided = True
            continue
        wrong = [(y, s) for y, s in alternatives(t) if not any(equal(y, e) for e in expect)]
        if wrong:
            if what == "to" and fr is None or all(s for _, s in wrong) or special_case(a, x):
                undecided = True
                continue
            t = [y for y, s in wrong if not s][0]
            c.violation("value:" + nm, where, "wrong-value", "%s: an element is computed as %s, expected %s" % (nm, show(p, t), " or ".join(sorted(show(p, e) for e in expect))))
        else:
            c.count("element formulas")
            c.sample("%s: %s = %s" % (nm, show(p, dest), show(p, t)))
        if what == "in" and ks[1] == "n" and has_ref(t) and ks[0] in ("T", "S"):
            c.violation("alias:" + nm, where, "number-read-again", "%s: the number is read through a reference while elements are overwritten; it may be one of them" % nm)
    for key, fs in bykey.items():
        if key[0] != "k":
            continue
        r = block_cover(c, a, fs, key)
        if r is None:
            undecided = True
            continue
        if r[0] == "full":
            c.count("loops over all blocks")
        elif any(excusable(a, n) for n in r[1]) or not r[1]:
            undecided = True
        else:
            c.violation("blocks:" + nm, r[1][0].loc, "not-every-block", "%s: a block is %s under a condition that does not say that it has no elements" % (nm, "left out" if r[0] == "skip" else "the last one"))
    if undecided:
        c.count("operations not decided completely")
    else:
        c.count("operations decided completely")


# ---------------------------------------------------------------- norms
def cfold(t):
    """Fold constants and write |x|^2 in one way."""
    if not isinstance(t, tuple) or t[0] in ("E", "c", "acc", "size", "num"):
        return t
    t = (t[0],) + tuple(cfold(x) for x in t[1:])
    cs = [x[1] for x in t[1:] if isinstance(x, tuple) and x[0] == "c"]
    if len(cs) == 2 and len(t) == 3:
        x, y = cs
        if t[0] == "/" and y != 0:
            return ("c", x / y)
        if t[0] in ("+", "-", "*"):
            return ("c", {"+": x + y, "-": x - y, "*": x * y}[t[0]])
    if t[0] == "*" and t[1] == t[2]:
        return ("pow", t[1], ("c", 2.0))
    if t[0] == "sqrt":
        return ("pow", t[1], ("c", 0.5))
    return t


def norms(p):
    for f in p.repo_fns():
        i = f.info
        if f.nocfg or i.name != "norm" or i.params or not (i.cls or "").startswith(("TAT::Tensor<", "TAT::Singular<")):
            continue
        ta = i.d.get("targs") or []
        try:
            yield f, int(str(ta[0]))
        except (IndexError, ValueError):
            continue


def in_any_loop(f, n):
    b = block_of(f, n)
    return any(b in l.body for l in loops(f))


def judge_norm(c, p, sy, f, order):
    a = A(p, sy, f)
    kindname = "Singular" if f.info.cls.startswith("TAT::Singular") else "Tensor"
    nm = "%s::norm<%d>" % (kindname, order)
    real = kindname == "Singular" or "complex" not in (scalar_of(f.info.d, f) or "")
    rets = [n for n in f.live_nodes() if n.k == "ReturnStmt" and n.kids]
    c.count("operations")
    def undec():
        c.count("operations not decided completely")
        if DEBUG:
            import inspect
            print("undecided", nm, inspect.currentframe().f_back.f_lineno, file=sys.stderr)
    if len(rets) != 1 or never_reaches(f):
        if not rets or never_reaches(f):
            c.count("operations without element stores (delegating or not understood)")
            return
        return undec()
    accs = [n.var for n in rets[0].walk() if n.k == "DeclRefExpr" and n.var is not None and p.vars[n.var]["k"] == "local" and a.reassigned(f, n.var)]
    if len(set(accs)) != 1:
        return undec()
    v = a.acc = accs[0]
    init = a.init(f, v)
    if init is None:
        return undec()
    i0 = a.term(init, None)
    if i0 is None or has_choice(i0):
        return undec()
    if i0 != ("c", 0.0):
        c.violation("norm-start:" + nm, init.loc, "wrong-start", "%s: the accumulation starts from %s, not from zero" % (nm, show(p, i0)))
        return
    ups = a.sy.tables(f)[2].get(v, [])
    inside = [u for u in ups if in_any_loop(f, u)]
    after = [u for u in ups if not in_any_loop(f, u)]
    if not inside:
        return undec()
    one = ("acc",)
    facts = []
    elem = None
    for u in inside:
        if u.k == "CompoundAssignOperator" and u.op == "+=":
            t = a.term(u.kids[1], None)
        elif u.k == "BinaryOperator" and u.op == "=":
            t = maximum(a, f, u) or a.term(u.kids[1], None)
            if t is not None and t[0] == "+" and ("acc",) in t[1:]:
                t = t[2] if t[1] == ("acc",) else t[1]
        else:
            t = None
        if t is None:
            return undec()
        t = cfold(t)
        if has_choice(t):
            return undec()
        es = set()
        places(t, es)
        if order == 0:
            good = t[0] == "size"
            key = t[2] if good else None
            cov = "full"
        else:
            if len(es) != 1:
                return undec() if len(es) > 1 else c.violation("norm:" + nm, u.loc, "wrong-value", "%s: accumulates %s" % (nm, show(p, t)))
            e = es.pop()
            if e[1] != ("this",):
                return undec()
            ab = ("abs", e)
            pw = lambda x: ("pow", x, ("c", float(order)))
            if order == -1:
                ok = {("max", ab)}
            elif order == 1:
                ok = {ab, pw(ab)}
            elif order == 2:
                ok = {("norm", e), pw(ab)} | ({pw(e)} if real else set())
            else:
                ok = {pw(ab)} | ({pw(e)} if real and order % 2 == 0 else set())
            good = t in ok
            key = e[2]
            cov = a.cover(f, u, e, None)
            if order == -1 and cov == "cond":
                cov = "full"
        if not good:
            c.violation("norm:" + nm, u.loc, "wrong-value", "%s: accumulates %s, which is not the %s of an element" % (nm, show(p, t), {0: "count", 1: "absolute value", -1: "maximum of the absolute value", 2: "squared absolute value"}.get(order, "power of the absolute value")))
            continue
        c.count("element formulas")
        c.sample("%s: accumulates %s" % (nm, show(p, t)))
        if cov == "bad":
            c.violation("cover:" + nm, u.loc, "not-every-element", "%s: the loop does not run over every element of a block" % nm)
        elif cov == "cond":
            return undec()
        elif cov == "full":
            c.count("loops over all elements of a block")
        else:
            return undec()
        facts.append(Fact(f, u, None, ("E", ("this",), key, ("all",)), t, cov))
    # what happens to the sum
    post = ("acc",)
    for u in after:
        if u.k == "BinaryOperator" and u.op == "=":
            t = a.term(u.kids[1], None)
        else:
            t = None
        if t is None or post != ("acc",) or avoidable(f, block_of(f, u)):
            return undec()
        post = cfold(t)
    r = a.term(rets[0].kids[0], None)
    if r is None:
        return undec()
    post = cfold(subst(r, post))
    if has_choice(post) or has_choice(i0):
        return undec()
    want = {("acc",)} if order in (-1, 0, 1) else set()
    want.add(("pow", ("acc",), ("c", 1.0 / order if order else 1.0)))
    near = post in want or any(isinstance(w, tuple) and post[0] == "pow" == w[0] and post[1] == w[1] and post[2][0] == "c" and abs(post[2][1] - w[2][1]) < 1e-9 for w in want)
    if not near:
        c.violation("norm-root:" + nm, (after[-1] if after else rets[0]).loc, "wrong-value", "%s: the sum is turned into %s, expected its %d-th root" % (nm, show(p, post), max(order, 1)))
        return
    for x in facts:
        r = block_cover(c, a, [x], x.dest[2])
        if r is None:
            return undec()
        if r[0] == "full":
            c.count("loops over all blocks")
        elif any(excusable(a, n) for n in r[1]) or not r[1]:
            return undec()
        else:
            c.violation("blocks:" + nm, r[1][0].loc, "not-every-block", "%s: a block is left out" % nm)
            return
    if facts:
        c.count("operations decided completely")


def avoidable(f, b):
    """The function can return without passing block b."""
    seen, st = {b}, [f.entry]
    while st:
        x = st.pop()
        if x == f.exit:
            return True
        if x in seen:
            continue
        seen.add(x)
        st += [s for s, _ in f.succs(f.blocks[x])]
    return False


def never_reaches(f):
    return never_returns(f, f.entry)


def subst(t, x):
    if t == ("acc",):
        return x
    if not isinstance(t, tuple) or t[0] in ("E", "c", "size"):
        return t
    return (t[0],) + tuple(subst(y, x) for y in t[1:])


def places(t, out):
    if isinstance(t, tuple):
        if t and t[0] == "E":
            out.add(t)
            return
        for x in t:
            places(x, out)


def maximum(a, f, u):
    """u assigns the larger of the accumulator and t: ('max', t)."""
    r = a.unwrap(u.kids[1])
    acc = ("acc",)
    if r.is_call() and r.callee is not None and r.callee.q == "std::max" and len(r.args) == 2:
        x, y = a.term(r.args[0], None), a.term(r.args[1], None)
        if acc in (x, y) and x is not None and y is not None:
            return ("max", y if x == acc else x)
        return None
    if r.k == "ConditionalOperator":
        cnd, x, y = r.kids[:3]
        rel = relation(cnd, True)
        if rel is None:
            return None
        op, l, m = rel[0], a.term(rel[1], None), a.term(rel[2], None)
        x, y = a.term(x, None), a.term(y, None)
        if None in (l, m, x, y) or {l, m} != {x, y} or acc not in (l, m):
            return None
        t = x if y == acc else y
        takes = (op in (">", ">=")) == (l == t)      # the condition says: t is larger
        if op not in (">", ">=", "<", "<="):
            return None
        return ("max", t) if (x == t) == takes else ("min", t)
    t = a.term(r, None)
    if t is None:
        return None
    for cn, br in edge_guards(f, block_of(f, u)):
        rel = relation(cn, br)
        if rel is None:
            continue
        l, m = a.term(rel[1], None), a.term(rel[2], None)
        if {repr(l), repr(m)} == {repr(t), repr(acc)} and rel[0] in (">", ">=", "<", "<="):
            return ("max", t) if (rel[0] in (">", ">=")) == (l == t) else ("min", t)
    return ("last", t)


def collect(t, out):
    if isinstance(t, tuple):
        if t and t[0] == "E":
            out.add(t[1])
            return
        for x in t:
            collect(x, out)


def scalar_of(d, f):
    m = re.search(r"Tensor<(std::complex<\w+>|float|double)", f.info.cls or "")
    return m.group(1) if m else None


def scalar_of_ret(f):
    m = re.search(r"Tensor<(std::complex<\w+>|float|double)", f.info.ret)
    return m.group(1) if m else None


def guarded(c, g, *args):
    """A construct the rules do not understand leaves one operation undecided, not all of them."""
    try:
        g(*args)
    except RecursionError:
        raise
    except (AttributeError, TypeError, KeyError, IndexError, ValueError):
        c.count("operations not decided completely")
        if DEBUG:
            import traceback
            traceback.print_exc()


def body(c):
    c.rules += [
        "every store of an element-wise operation is the operation it is named after, on elements of the same block and position, operands in their order",
        "the loops around a store run over every element of a block and over every block",
        "the second of two tensors is brought to the names of the first wherever the names differ; a block only one of them has counts as zero",
        "an in-place operation reads its number operand from a copy, since the reference may denote an element of the tensor",
    ]
    c.assumptions += ["rounding is outside; operations that delegate to others are judged through those"]
    for p in targets.extract_many(targets.tensor_jobs(c.thorough)[:2] + (targets.tensor_jobs(True)[3:] if c.thorough else [])):
        sy = Sym(p)
        for f, what, op, ks in operations(p):
            guarded(c, judge, c, p, sy, f, what, op, ks)
        for f, order in norms(p):
            guarded(c, judge_norm, c, p, sy, f, order)
    if not c.viol:
        c.need("operations", 20)
        c.need("element formulas", 20)


if __name__ == "__main__":
    report.main("C17", "symbolic evaluation of element formulas and loop coverage over the clang CFG of every element-wise operation", body)
