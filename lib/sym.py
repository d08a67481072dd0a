"""Symbolic access paths and integer values of expressions.

A path is a tuple (root, step...).  Roots are ('this',), ('v', var), ('tmp', fn, node).
Steps: field names, '[]' (container element), 'it' (iterator into the container).
Pointer and smart-pointer dereference are transparent, so `*p`, `p->x`, `p.get()`
all name the pointee.  Integers: ('c', n), ('size', path), ('p', path) and sums/products.
"""
from ir import Node

ITER_MAKERS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound", "upper_bound", "data", "c_str"}
ELEM = {"operator[]", "at", "front", "back", "emplace_back", "const_at"}
PTR_GET = {"get", "operator->", "operator*", "value"}


def is_iter(t):
    return "iterator" in t and not t.startswith("std::istream")


class Sym:
    def __init__(self, prog):
        self.p = prog
        self._rr = {}

    # ---- tables
    def tables(self, fn):
        t = getattr(fn, "_symtab", None)
        if t is None:
            init, bind, assigned = {}, {}, {}
            for n in fn.nodes():
                if n.k == "DeclStmt":
                    for d in n.d["ds"]:
                        if "init" in d and d["init"] >= 0:
                            init[d["v"]] = fn.node(d["init"])
                        for x in d.get("bindings", []):
                            if x.get("e", -1) >= 0:
                                bind[x["v"]] = fn.node(x["e"])
                            if "hv" in x and x.get("hi", -1) >= 0:
                                init[x["hv"]] = fn.node(x["hi"])
                elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                    s = n.kids[0].strip()
                    if s.k == "DeclRefExpr" and s.var is not None:
                        assigned.setdefault(s.var, []).append(n)
                elif n.k == "UnaryOperator" and n.op in ("++", "--", "post++", "post--", "pre++", "pre--", "&"):
                    s = n.kids[0].strip()
                    if s.k == "DeclRefExpr" and s.var is not None:
                        assigned.setdefault(s.var, []).append(n)
                elif n.is_call() and n.callee is not None:
                    c = n.callee
                    pts = c.param_types
                    for i, a in enumerate(n.params_args):
                        if i < len(pts) and pts[i].endswith("&") and not pts[i].startswith("const ") and not pts[i].endswith("&&"):
                            s = a.strip()
                            if s.k == "DeclRefExpr" and s.var is not None:
                                assigned.setdefault(s.var, []).append(n)
            t = fn._symtab = (init, bind, assigned)
        return t

    # ---- paths
    def path(self, n, env=None, depth=0):
        if depth > 60 or n is None:
            return None
        n = n.strip()
        k = n.k
        if k == "CXXThisExpr":
            return env["this"] if env and "this" in env else (("this",),)
        if k == "UnaryOperator" and n.op == "*":
            return self.deref(self.path(n.kids[0], env, depth + 1))
        if k == "UnaryOperator" and n.op == "&":
            return self.path(n.kids[0], env, depth + 1)
        if k == "DeclRefExpr":
            if n.var is None:
                return None
            return self.var_path(n.fn, n.var, env, depth)
        if k == "MemberExpr" and "fn" not in n.d:
            if not n.kids:
                return (("v", n.var),) if n.var is not None else None
            b = self.path(n.kids[0], env, depth + 1)
            if b is None:
                return None
            return b + (n.d["m"],)
        if k == "ArraySubscriptExpr":
            b = self.path(n.kids[0], env, depth + 1)
            return self.deref(b) if b and b[-1] == "it" else (b + ("[]",) if b else None)
        if k == "BinaryOperator" and n.op in ("+", "-") and n.type.endswith("*"):
            return self.path(n.kids[0], env, depth + 1)
        if k == "ConditionalOperator":
            return None
        if n.is_call():
            c = self.p.resolve(n)
            if c is None:
                return None
            if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                a = n.args
                if len(a) == 1 and (is_iter(n.type) or c.d.get("ctor") in ("copy", "move")):
                    pa = self.path(a[0], env, depth + 1)
                    if is_iter(n.type) or "reference_wrapper" in n.type:
                        return pa
                    s = a[0].strip()
                    return pa if s.is_call() and c.d.get("ctor") == "move" else pa
                return (("tmp", n.fn.info.id, n.id),)
            o = n.obj
            if o is not None and not (c.body is not None and c.in_repo):
                b = self.path(o, env, depth + 1)
                if b is None:
                    return None
                if c.name in ITER_MAKERS:
                    return b + ("it",)
                if c.name in ELEM:
                    return self.deref(b) if b[-1] == "it" else b + ("[]",)
                if c.name in PTR_GET:
                    return self.deref(b)
                if c.name in ("operator++", "operator--", "operator+", "operator-", "operator+=", "base") and b[-1] == "it":
                    return b
                if c.name == "operator=":
                    return b
                return None
            if c.q in ("std::get",) and n.args:
                b = self.path(n.args[0], env, depth + 1)
                ta = c.d.get("targs") or []
                return b + ("#%s" % (str(ta[0]) if ta else "?"),) if b else None
            if c.q in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::data") and n.args:
                b = self.path(n.args[0], env, depth + 1)
                return b + ("it",) if b else None
            if c.q in ("std::next", "std::prev") and n.args:
                return self.path(n.args[0], env, depth + 1)
            if c.body is not None and (c.ret.endswith("&") or c.ret.endswith("*") or is_iter(c.ret)):
                r = self.ret_ref(c.body)
                if r is not None:
                    a = self.actual(n, c, r[0])
                    b = self.path(a, env, depth + 1) if a is not None else None
                    if b is not None:
                        return b + r[1:]
            return (("tmp", n.fn.info.id, n.id),)
        return None

    def deref(self, b):
        if b is None:
            return None
        if b[-1] == "it":
            return b[:-1] + ("[]",)
        return b

    def var_path(self, fn, v, env, depth):
        if env is not None and v in env:
            return env[v]
        d = self.p.vars[v]
        init, bind, assigned = self.tables(fn)
        if d["k"] == "binding":
            e = bind.get(v)
            if e is not None:
                r = self.path(e, env, depth + 1)
                if r is not None:
                    return r
            return (("v", v),)
        if d["k"] == "local":
            t = self.p.types[d["t"]]
            if t.endswith("&") or t.endswith("*") or is_iter(t) or t.endswith("*const"):
                if v in init and not (not t.endswith("&") and any(a.k in ("BinaryOperator",) or a.is_call() for a in assigned.get(v, []))):
                    r = self.path(init[v], env, depth + 1)
                    if r is not None:
                        return r
        return (("v", v),)

    def actual(self, call, c, root):
        if root == ("this",):
            return call.obj
        if root[0] == "v" and root[1] in c.params:
            i = c.params.index(root[1])
            pa = call.params_args
            return pa[i] if i < len(pa) else None
        return None

    def ret_ref(self, fn):
        if fn.info.id in self._rr:
            return self._rr[fn.info.id]
        self._rr[fn.info.id] = None
        res = set()
        for n in fn.live_nodes():
            if n.k == "ReturnStmt" and n.kids:
                res.add(self.path(n.kids[0]))
        r = res.pop() if len(res) == 1 else None
        if r is not None and not (r[0] == ("this",) or (r[0][0] == "v" and r[0][1] in fn.info.params)):
            r = None
        self._rr[fn.info.id] = r
        return r

    def call_env(self, call, c, env):
        """Environment of the callee's formals for this call."""
        e = {}
        o = call.obj
        if o is not None:
            e["this"] = self.path(o, env)
        for i, a in enumerate(call.params_args):
            if i < len(c.params):
                t = self.p.types[self.p.vars[c.params[i]]["t"]] if c.params[i] is not None else ""
                if t.endswith("&") or t.endswith("*") or is_iter(t):
                    e[c.params[i]] = self.path(a, env)
        return {k: v for k, v in e.items() if v is not None}

    # ---- integers
    def value(self, n, env=None, depth=0):
        if n is None or depth > 40:
            return None
        if n.iv is not None:
            return ("c", n.iv)
        n = n.strip()
        if n.iv is not None:
            return ("c", n.iv)
        if n.k == "BinaryOperator" and n.op in ("*", "+", "-"):
            a, b = self.value(n.kids[0], env, depth + 1), self.value(n.kids[1], env, depth + 1)
            if a is None or b is None:
                return None
            if n.op != "-" and repr(b) < repr(a):
                a, b = b, a
            return (n.op, a, b)
        if n.k == "DeclRefExpr" and n.var is not None:
            if env is not None and ("val", n.var) in env:
                return env[("val", n.var)]
            d = self.p.vars[n.var]
            init, bind, assigned = self.tables(n.fn)
            if d["k"] == "local" and n.var in init and n.var not in assigned:
                r = self.value(init[n.var], env, depth + 1)
                if r is not None:
                    return r
            p = self.var_path(n.fn, n.var, env, 0)
            return ("p", p) if p else None
        if n.is_call():
            c = self.p.resolve(n)
            if c is not None and n.obj is not None and c.name in ("size", "length"):
                b = self.path(n.obj, env)
                return ("size", b) if b else None
            if c is not None and c.q == "std::size" and n.args:
                b = self.path(n.args[0], env)
                return ("size", b) if b else None
            if c is not None and c.q == "std::distance" and len(n.args) == 2:
                b = self.path(n.args[0], env)
                return ("size", b[:-1]) if b and b[-1] == "it" else None
        p = self.path(n, env)
        return ("p", p) if p else None
