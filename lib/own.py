"""Ownership dataflow for copy-on-write handles.

Decides, for every write-capable access to the shared tensor storage, whether
the handle is provably the only owner on every path.  Interprocedural and
context sensitive; a handle is unique (U) when it was just created by
make_shared/new, came out of a function that only returns fresh storage, was
moved from a unique handle, or a test of its use count established it.
"""
import re
from ir import Node
from flow import forward, parents

HANDLE_RE = re.compile(r"^(const )?(TAT::propagate_const_shared_ptr|std::shared_ptr)<TAT::Core<")
CORE_NONCONST = re.compile(r"^TAT::Core<.*> ?[*&]")
CORE_ANY = re.compile(r"^(const )?TAT::Core<.*> ?[*&]")
ACCESSORS = {"at", "begin", "end", "find", "front", "back", "data", "operator[]", "lower_bound", "upper_bound", "operator->", "operator*", "rbegin", "rend", "operator++", "operator--", "operator+", "operator-", "get", "value"}
GROW = {"insert", "emplace", "push_back", "emplace_back", "operator[]", "insert_or_assign", "try_emplace", "push_front", "emplace_front"}
SHRINK = {"clear", "erase", "pop_back", "pop_front", "extract", "swap", "operator=", "resize", "assign", "merge"}


def is_handle(t):
    t = t[:-2] if t.endswith(" &") else t
    return bool(HANDLE_RE.match(t))


def nonconst_ref(t):
    return t.endswith("&") and not t.endswith("&&") and not t.startswith("const ")


def carries_ref(t):
    """A by-value type through which the storage could still be written."""
    if t.startswith("const ") and not (t.endswith("*")):
        return False
    if t.endswith("*") or t.endswith("*__restrict") or "*" in t.split("<")[0]:
        return not t.startswith("const ")
    if "_const_iterator" in t or "__normal_iterator<const " in t:
        return False
    if "iterator" in t:
        return True
    return False


class Own:
    def __init__(self, prog, handle=is_handle, core_access=None):
        self.p = prog
        self.memo = {}
        self.active = set()
        self.accesses = {}  # (fn id, node id) -> (node, unique?, path)
        self.fieldnames = {}
        for r in prog.records:
            self.fieldnames[prog.types[r["t"]]] = [f["n"] for f in r["fields"]]

    # ------------------------------------------------------------ paths
    def path(self, n, depth=0):
        """Access path of an lvalue/xvalue expression, or None."""
        if depth > 40:
            return None
        n = n.strip()
        if n.k == "CXXThisExpr":
            return (("this",),)
        if n.k == "UnaryOperator" and n.op == "*":
            s = n.kids[0].strip()
            if s.k == "CXXThisExpr":
                return (("this",),)
            return None
        if n.k == "DeclRefExpr" and n.var is not None:
            return self.var_path(n.fn, n.var, depth)
        if n.k == "MemberExpr" and "fn" not in n.d:
            b = self.path(n.kids[0], depth + 1) if n.kids else None
            if b is None:
                s = n.kids[0].strip() if n.kids else None
                if s is not None and s.is_call():
                    b = (("tmp", s.id),)
                else:
                    return None
            return b + (n.d["m"],)
        if n.k in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr"):
            c = self.p.resolve(n)
            if c is not None and c.body is not None and c.ret.endswith("&"):
                r = self.ret_ref(c.body)
                if r is not None:
                    a = self.actual(n, r[0])
                    if a is not None:
                        b = self.path(a, depth + 1)
                        if b is None and a.strip().is_call():
                            b = (("tmp", a.strip().id),)
                        if b is not None:
                            return b + r[1]
        return None

    def var_path(self, fn, v, depth=0):
        d = self.p.vars[v]
        t = self.p.types[d["t"]]
        if d["k"] == "binding":
            e = self.binding_expr(fn, v)
            if e is not None:
                return self.path(e, depth + 1)
            return (("v", v),)
        if d["k"] == "local" and t.endswith("&"):
            i = self.var_init(fn, v)
            if i is not None:
                r = self.path(i, depth + 1)
                if r is not None:
                    return r
        return (("v", v),)

    def var_table(self, fn):
        t = getattr(fn, "_vartab", None)
        if t is None:
            t = {}
            b = {}
            for n in fn.nodes():
                if n.k == "DeclStmt":
                    for d in n.d["ds"]:
                        if "init" in d:
                            t[d["v"]] = fn.node(d["init"])
                        for x in d.get("bindings", []):
                            if x.get("e", -1) >= 0:
                                b[x["v"]] = fn.node(x["e"])
                            if "hv" in x and x.get("hi", -1) >= 0:
                                t[x["hv"]] = fn.node(x["hi"])
            fn._vartab = t
            fn._bindtab = b
        return t

    def var_init(self, fn, v):
        return self.var_table(fn).get(v)

    def binding_expr(self, fn, v):
        self.var_table(fn)
        return fn._bindtab.get(v)

    def formal_of(self, fn, path):
        """('this',) or ('v',param)."""
        return path[0]

    def actual(self, call, formal):
        """Actual argument node for a formal root of the callee."""
        c = self.p.resolve(call)
        if formal == ("this",):
            if call.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                return None
            return call.obj
        if formal[0] == "v" and c is not None and formal[1] in c.params:
            i = c.params.index(formal[1])
            pa = call.params_args
            return pa[i] if i < len(pa) else None
        return None

    def ret_ref(self, fn):
        """(formal root, subpath) that the function returns a reference to, if always the same."""
        key = ("retref", fn.info.id)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        res = set()
        for n in fn.live_nodes():
            if n.k == "ReturnStmt" and n.kids:
                p = self.path(n.kids[0])
                res.add((p[0], p[1:]) if p else None)
        r = res.pop() if len(res) == 1 else None
        if r is not None and r[0][0] == "v" and r[0][1] not in fn.info.params:
            r = None
        if r is not None and r[0][0] == "tmp":
            r = None
        self.memo[key] = r
        return r

    # ------------------------------------------------------------ values
    def value(self, n, st):
        """Unique sub-handles of the value of expression n: dict subpath -> list of S-conditions.
        A sub-path is unique iff present with an empty list of conditions under which it is shared.
        Returns set of subpaths known unique, given state."""
        n = n.strip(moves=False)
        k = n.k
        U = st[0]
        if k == "CallExpr" and n.callee is not None and n.callee.q in ("std::move", "std::forward"):
            return self.sub(n.args[0], st)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            c = self.p.resolve(n)
            if c is None:
                return frozenset()
            if c.q in ("std::make_shared", "std::allocate_shared", "std::make_unique"):
                return frozenset([()])
            if c.ret.endswith("&&"):
                return self.sub(n, st)
            if c.ret.endswith("&"):
                return frozenset()
            if c.body is not None:
                return self.call(n, c.body, st)[1]
            return frozenset()
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            c = n.callee
            args = n.args
            kind = c.d.get("ctor")
            if len(args) == 1 and kind in ("copy", "move"):
                a = args[0]
                s = a.strip(moves=False)
                if s.is_call() and not (s.callee is not None and s.callee.q in ("std::move", "std::forward")) and s.d.get("vc") is None:
                    return self.value(s, st)
                if kind == "move" or a.strip(False).d.get("vc") == "x":
                    return self.sub(a, st)
                return frozenset()
            ct = c.cls or ""
            if is_handle(ct):
                if len(args) >= 1:
                    a = args[0].strip(moves=False)
                    if a.k == "CXXNewExpr":
                        return frozenset([()])
                    pt = c.param_types[0] if c.param_types else ""
                    if pt.endswith("&&") or a.d.get("vc") is None:
                        return self.value(a, st)
                return frozenset()
            if c.body is not None:
                return self.call(n, c.body, st)[1]
            return frozenset()
        if k == "InitListExpr":
            if "sem" in n.d and n.d["sem"] >= 0:
                n = n.fn.node(n.d["sem"])
            fs = self.fieldnames.get(n.type.replace("const ", ""), [])
            out = set()
            kids = n.kids
            if len(kids) == 1 and not fs:
                return self.value(kids[0], st)
            for f, kid in zip(fs, kids):
                for s in self.value(kid, st):
                    out.add((f,) + s)
            return frozenset(out)
        if k == "ConditionalOperator":
            ks = n.kids
            return self.value(ks[1], st) & self.value(ks[2], st)
        if k == "CXXNewExpr":
            return frozenset([()])
        if n.d.get("vc") in ("l", "x"):
            # reading a value out of an lvalue without a constructor (e.g. implicit move on return)
            return self.sub(n, st)
        return frozenset()

    def sub(self, n, st):
        """Unique sub-handles reachable through lvalue n (used when moving from it)."""
        p = self.path(n)
        if p is None:
            s = n.strip(moves=False)
            if s.is_call() and s.d.get("vc") is None:
                return self.value(s, st)
            return frozenset()
        if p[0][0] == "tmp":
            base = n.fn.node(p[0][1])
            v = self.value(base, st)
            # operations that make the temporary unique in place (e.g. T(...).zero())
            return frozenset(x[len(p) - 1:] for x in v if x[:len(p) - 1] == p[1:]) | self.tmp_unique(n, st, p)
        return frozenset(x[len(p):] for x in st[0] if x[:len(p)] == p)

    def tmp_unique(self, n, st, p):
        s = n.strip()
        if s.is_call():
            c = self.p.resolve(s)
            if c is not None and c.body is not None:
                ex = self.call(s, c.body, st)[0]
                return frozenset(x[1:] for x in ex if x[0] == ("this",))
        return frozenset()

    def nonempty(self, n, st):
        n = n.strip()
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            for a in n.args:
                s = a.strip()
                if s.k == "CXXStdInitializerListExpr":
                    t = s.kids[0].strip() if s.kids else None
                    if t is not None and t.k == "InitListExpr" and len(t.kids) >= 1:
                        return True
                if n.callee.d.get("ctor") in ("copy", "move") and self.nonempty(s, st):
                    return True
            return False
        if n.k == "InitListExpr":
            return False
        if n.k == "ConditionalOperator":
            return self.nonempty(n.kids[1], st) and self.nonempty(n.kids[2], st)
        p = self.path(n)
        return p is not None and p in st[1]

    # ------------------------------------------------------------ calls
    def call(self, n, body, st):
        """Effect of a call: (exit unique formal paths, unique subpaths of the result)."""
        entry = set()
        fm = [("v", v) for v in body.info.params]
        if body.info.cls and not body.info.d.get("static") and not body.info.is_ctor:
            fm.append(("this",))
        for f in fm:
            a = self.actual(n, f)
            if a is None:
                continue
            if f[0] == "v":
                t = self.p.vtype(f[1])
                if not t.endswith("&"):
                    for s in self.value(a, st):
                        entry.add((f,) + s)
                    continue
            for s in self.sub(a, st):
                entry.add((f,) + s)
        if body.info.is_lambda:
            for x in st[0]:
                if x[0][0] == "v" or x[0] == ("this",):
                    entry.add(x if x[0] != ("this",) else (("this",),) + x[1:])
        ne = frozenset((f,) for f in fm if self.actual(n, f) is not None and self.nonempty(self.actual(n, f), st))
        ex, rets = self.analyze(body, frozenset(entry), ne)
        return ex, rets

    def analyze(self, fn, entryU, entryNE=frozenset()):
        """(unique formal paths at exit, unique subpaths of returned value)."""
        # emptiness facts matter only when the callee tests emptiness of a formal
        entryNE = entryNE & self.tested_empty(fn)
        key = (fn.info.id, entryU, entryNE)
        if key in self.memo:
            return self.memo[key]
        if fn.info.id in self.active or fn.nocfg:
            return (frozenset(), frozenset())
        self.active.add(fn.info.id)
        res = self.run(fn, entryU, entryNE)
        self.active.discard(fn.info.id)
        self.memo[key] = res
        return res

    def tested_empty(self, fn):
        key = ("te", fn.info.id)
        if key not in self.memo:
            self.memo[key] = frozenset()
            out = set()
            for n in fn.live_nodes():
                if n.k == "CXXMemberCallExpr":
                    c = n.callee
                    if c is not None and c.name in ("empty", "size") and n.obj is not None:
                        p = self.path(n.obj)
                        if p is not None and len(p) == 1:
                            out.add(p)
                if n.is_call():
                    c = self.p.resolve(n)
                    if c is not None and c.body is not None and c.in_repo and not c.is_ctor:
                        for f in self.tested_empty(c.body):
                            a = self.actual(n, f[0])
                            p = self.path(a) if a is not None else None
                            if p is not None and len(p) == 1:
                                out.add(p)
            self.memo[key] = frozenset(out)
        return self.memo[key]

    def run(self, fn, entryU, entryNE):
        info = fn.info
        rets = []

        def kill(st, path, also_ne=True):
            U = frozenset(x for x in st[0] if x[:len(path)] != path)
            NE = frozenset(x for x in st[1] if x[:len(path)] != path) if also_ne else st[1]
            PR = frozenset(x for x in st[3] if x[1][:len(path)] != path and path[:len(x[1])] != x[1])
            return (U, NE, st[2], PR)

        def assign(st, path, subs, ne=False):
            st = kill(st, path)
            U = st[0] | frozenset(path + s for s in subs)
            NE = st[1] | ({path} if ne else set())
            return (U, frozenset(NE), st[2], st[3])

        def share(st, n):
            """copying a handle out of lvalue n makes n's handle shared"""
            p = self.path(n)
            return kill(st, p, False) if p is not None else st

        def pred_of(n, st):
            """(path, polarity): condition true means handle at path is unique (polarity True) / cond false means unique."""
            n = n.strip()
            if n.k == "UnaryOperator" and n.op == "!":
                r = pred_of(n.kids[0], st)
                return None if r is None else (r[0], not r[1])
            if n.k == "DeclRefExpr" and n.var is not None:
                for x in st[3]:
                    if x[0] == n.var:
                        return (x[1], x[2])
                return None
            if n.k == "BinaryOperator" and n.op in ("==", "!=", ">", "<", ">=", "<="):
                a, b = n.kids[0].strip(), n.kids[1].strip()
                op = n.op
                pa, pb = self.use_count(a), self.use_count(b)
                if pb is not None and pa is None:
                    a, b, pa = b, a, pb
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if pa is None or b.iv is None:
                    return None
                v = b.iv
                if op == "==" and v == 1 or op == "<" and v == 2 or op == "<=" and v == 1:
                    return (pa, True)
                if op == "!=" and v == 1 or op == ">" and v == 1 or op == ">=" and v == 2:
                    return (pa, False)
                return None
            if n.k == "CXXMemberCallExpr" and n.callee is not None:
                if n.callee.name == "unique" and n.obj is not None and is_handle(n.obj.type):
                    p = self.path(n.obj)
                    return (p, True) if p else None
            if n.k in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr"):
                c = self.p.resolve(n)
                if c is not None and c.body is not None and c.ret == "bool":
                    r = self.bool_summary(c.body)
                    if r is not None:
                        a = self.actual(n, r[0][0])
                        p = self.path(a) if a is not None else None
                        if p is not None:
                            return (p + r[0][1:], r[1])
            return None

        self._pred_of = pred_of

        def empt(n):
            """(path, polarity) for emptiness tests."""
            n = n.strip()
            if n.k == "UnaryOperator" and n.op == "!":
                r = empt(n.kids[0])
                return None if r is None else (r[0], not r[1])
            if n.k == "CXXMemberCallExpr" and n.callee is not None and n.callee.name == "empty" and n.obj is not None:
                p = self.path(n.obj)
                return (p, True) if p else None
            if n.k == "BinaryOperator" and n.op in ("==", "!=", ">", "<"):
                a, b = n.kids[0].strip(), n.kids[1].strip()
                if a.iv == 0 and n.op in ("==", "!=", "<"):
                    a, b = b, a
                    pos = n.op == "=="
                elif b.iv == 0 and n.op in ("==", "!=", ">"):
                    pos = n.op == "=="
                else:
                    return None
                if a.k == "CXXMemberCallExpr" and a.callee is not None and a.callee.name == "size" and a.obj is not None:
                    p = self.path(a.obj)
                    return (p, pos) if p else None
            return None

        def refine(b, c, br, st):
            r = pred_of(c, st)
            if r is not None and br == r[1]:
                st = (st[0] | {r[0]}, st[1], st[2], st[3])
            e = empt(c)
            if e is not None:
                is_empty = (br == e[1])
                if is_empty and e[0] in st[1]:
                    return None
            return st

        def do_call(n, st):
            c = self.p.resolve(n)
            if c is None:
                return st
            # lambda invoked directly or passed as argument: its effects on captured state
            for a in n.args:
                s = a.strip()
                lam = None
                if s.k == "LambdaExpr":
                    lam = s
                elif s.k == "DeclRefExpr" and s.var is not None and "(lambda" in self.p.vtype(s.var):
                    i = self.var_init(n.fn, s.var)
                    if i is not None and i.strip().k == "LambdaExpr":
                        lam = i.strip()
                if lam is not None:
                    bodies = []
                    if "fn" in lam.d:
                        bodies.append(self.p.fninfo[lam.d["fn"]].body)
                    for sp in lam.d.get("specs", []):
                        bodies.append(self.p.fninfo[sp].body)
                    for bd in bodies:
                        if bd is not None:
                            ex, _ = self.analyze(bd, frozenset(x for x in st[0]), frozenset())
                            st = (frozenset(x for x in st[0] if x in ex), st[1], st[2], st[3])
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if c.d.get("ctor") == "copy" and n.args and n.args[0].strip(False).d.get("vc") == "l":
                    return share(st, n.args[0])
                if c.in_repo and c.body is not None and c.d.get("ctor") == "other":
                    st = formals_effect(n, c, st)
                elif is_handle(c.cls or "") and n.args and n.args[0].strip(False).d.get("vc") == "l":
                    return share(st, n.args[0])
                return st
            # assignment operators
            if c.name == "operator=" and n.obj is not None:
                p = self.path(n.obj)
                a = n.params_args[0]
                rhs_l = a.strip(False).d.get("vc") == "l" and c.d.get("ctor") is None and not (c.param_types and c.param_types[0].endswith("&&"))
                subs = frozenset() if rhs_l else self.value(a, st)
                if not rhs_l and not subs and a.strip(False).d.get("vc") == "x":
                    subs = self.sub(a, st)
                ne = self.nonempty(a, st)
                if rhs_l:
                    st = share(st, a)
                if p is not None:
                    st = assign(st, p, subs, ne)
                return st
            # container growth / emptiness
            if n.obj is not None:
                p = self.path(n.obj)
                if p is not None:
                    if c.name in GROW:
                        st = (st[0], st[1] | {p}, st[2], st[3])
                    elif c.name in SHRINK:
                        st = (st[0], frozenset(x for x in st[1] if x != p), st[2], st[3])
                    if c.name in ("reset", "swap") and is_handle(n.obj.type):
                        st = kill(st, p)
            if c.body is not None and c.in_repo:
                st = formals_effect(n, c, st)
            else:
                # std::move/forward are not effects; other externals: a non-const reference may change emptiness
                if c.q not in ("std::move", "std::forward"):
                    for i, a in enumerate(n.params_args):
                        if i < len(c.param_types) and nonconst_ref(c.param_types[i]):
                            p = self.path(a)
                            if p is not None:
                                st = (st[0], frozenset(x for x in st[1] if x[:len(p)] != p), st[2], st[3])
                        # a handle/tensor copied into an external by-value/const-ref sink may be shared afterwards
                        t = a.type
                        if ("TAT::Tensor<" in t or is_handle(t)) and a.strip(False).d.get("vc") == "l" and c.name not in ("use_count", "operator bool", "get", "operator->", "operator*"):
                            if "Tensor<" in t and not t.startswith("std::"):
                                st = share(st, a)
            return st

        def formals_effect(n, c, st):
            ex, _ = self.call(n, c.body, st)
            fm = [("v", v) for v in c.params]
            if c.cls and not c.d.get("static") and not c.is_ctor:
                fm.append(("this",))
            new = st
            for f in fm:
                a = self.actual(n, f)
                if a is None:
                    continue
                byref = f == ("this",) or self.p.vtype(f[1]).endswith("&")
                p = self.path(a)
                if p is None or p[0][0] == "tmp":
                    continue
                if byref:
                    # U stays/gets established according to the callee's exit state
                    if any(x[:len(p)] == p for x in st[0]) or any(x[0] == f for x in ex):
                        U = frozenset(x for x in new[0] if x[:len(p)] != p) | frozenset(p + x[1:] for x in ex if x[0] == f)
                        new = (U, new[1], new[2], new[3])
            return new

        def transfer(e, st):
            if isinstance(e, dict):
                if e["k"] == "init" and e.get("init", -1) >= 0:
                    n = fn.node(e["init"])
                    if "m" in e:
                        s = n.strip(False)
                        subs = self.value(n, st)
                        return assign(st, (("this",), e["m"]), subs)
                    if e.get("deleg") or "base" in e:
                        subs = self.value(n, st)
                        return assign(st, (("this",),), subs)
                return st
            n = e
            k = n.k
            if k == "DeclStmt":
                for d in n.d["ds"]:
                    if "init" in d:
                        v = d["v"]
                        t = self.p.vtype(v)
                        init = fn.node(d["init"])
                        if t.endswith("&"):
                            pa = self.path(init)
                            if pa is None:
                                # reference bound to a temporary: owns its value
                                st = assign(st, (("v", v),), self.value(init, st), self.nonempty(init, st))
                            continue
                        st = assign(st, (("v", v),), self.value(init, st), self.nonempty(init, st))
                        if t == "bool" or t == "const bool":
                            r = pred_of(init, st)
                            if r is not None:
                                st = (st[0], st[1], st[2], st[3] | {(v, r[0], r[1])})
                return st
            if n.is_call():
                self.check_access(n, st, entryU)
                return do_call(n, st)
            if k == "ReturnStmt":
                if n.kids:
                    rets.append(self.value(n.kids[0], st))
                return st
            return st

        def join(a, b):
            return (a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3])

        self._recording = False
        init = (entryU, entryNE, frozenset(), frozenset())
        # fixpoint first, then a recording pass over the stable states
        saved = self.check_access
        self.check_access = lambda *a: None
        try:
            ins, outs = forward(fn, init, transfer, join, refine)
        finally:
            self.check_access = saved
        rets.clear()
        for bid, st in ins.items():
            els, _ = fn.block_elems(fn.blocks[bid])
            for e in els:
                st = transfer(e, st)
        exit_state = ins.get(fn.exit)
        if info.is_ctor:
            r = frozenset(x[1:] for x in (exit_state[0] if exit_state else ()) if x[0] == ("this",))
            return (exit_state[0] if exit_state else frozenset(), r)
        # explicit returns are analysed in the recording pass, where each live return is seen once
        ret = frozenset.intersection(*rets) if rets else frozenset()
        return (exit_state[0] if exit_state else frozenset(), ret)

    def use_count(self, n):
        n = n.strip()
        if n.k == "CXXMemberCallExpr" and n.callee is not None and n.callee.name == "use_count" and n.obj is not None:
            return self.path(n.obj)
        return None

    def bool_summary(self, fn):
        key = ("bs", fn.info.id)
        if key not in self.memo:
            self.memo[key] = None
            rs = [n for n in fn.live_nodes() if n.k == "ReturnStmt" and n.kids]
            if len(rs) == 1:
                n = rs[0].kids[0].strip()
                neg = False
                while n.k == "UnaryOperator" and n.op == "!":
                    neg = not neg
                    n = n.kids[0].strip()
                r = None
                if n.k == "BinaryOperator":
                    a, b = n.kids[0].strip(), n.kids[1].strip()
                    op = n.op
                    pa = self.use_count(a)
                    if pa is None:
                        pa = self.use_count(b)
                        a, b = b, a
                        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                    if pa is not None and b.iv is not None:
                        v = b.iv
                        if op == "==" and v == 1 or op == "<" and v == 2 or op == "<=" and v == 1:
                            r = (pa, True)
                        elif op == "!=" and v == 1 or op == ">" and v == 1 or op == ">=" and v == 2:
                            r = (pa, False)
                if r is not None and (r[0][0] == ("this",) or (r[0][0][0] == "v" and r[0][0][1] in fn.info.params)):
                    self.memo[key] = (r[0], r[1] != neg)
        return self.memo[key]

    # ------------------------------------------------------------ accesses
    def check_access(self, n, st, entryU):
        c = n.callee
        if c is None or c.name not in ("operator->", "operator*", "get"):
            return
        if not CORE_ANY.match(c.ret):
            return
        o = n.obj
        if o is None or not (is_handle(o.type) or is_handle(o.strip().type)):
            return
        if n.fn.info.clsn in ("TAT::propagate_const_shared_ptr",):
            return
        p = self.path(o)
        if p is None:
            s = o.strip()
            u = False
        elif p[0][0] == "tmp":
            u = () in self.sub(o, st)
        else:
            u = p in st[0]
        key = (n.fn.info.id, n.id)
        old = self.accesses.get(key)
        self.accesses[key] = (n, u if old is None else (u and old[1]), p)


def write_capable(own, n, const=False, depth=0, seen=None):
    """Can the storage reached by access node n be modified through it?  Returns the
    node that makes it so, or None when every use only reads."""
    if seen is None:
        seen = set()
    fn = n.fn
    par = parents(fn)
    stack = [(n, const)]
    while stack:
        x, cst = stack.pop()
        if (x.id, cst) in seen:
            continue
        seen.add((x.id, cst))
        for pid in par.get(x.id, []):
            p = fn.node(pid)
            k = p.k
            if k in ("CXXConstCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr"):
                t = p.type
                tt = t if p.d.get("vc") else t
                nowconst = tt.startswith("const ")
                if cst and not nowconst and ("*" in tt or p.d.get("vc") == "l"):
                    return p
                stack.append((p, nowconst))
                continue
            if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
                ck = p.d.get("ck")
                if ck == "LValueToRValue":
                    if carries_ref(p.type):
                        stack.append((p, cst or p.type.startswith("const ")))
                    continue
                if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BitCast", "ArrayToPointerDecay"):
                    if p.type.startswith("const "):
                        stack.append((p, True))
                    else:
                        stack.append((p, cst))
                    continue
                if carries_ref(p.type):
                    stack.append((p, cst))
                continue
            if k in ("ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ConstantExpr"):
                stack.append((p, cst))
                continue
            if k == "MemberExpr":
                if "fn" in p.d:
                    stack.append((p, cst))  # method: handled at the call
                else:
                    stack.append((p, cst))
                continue
            if k == "ConditionalOperator":
                if p.kids[0].id != x.id:
                    stack.append((p, cst))
                continue
            if k == "ArraySubscriptExpr":
                stack.append((p, cst))
                continue
            if k == "UnaryOperator":
                if p.op in ("++", "--"):
                    if x.d.get("vc") == "l" and not carries_ref(x.type):
                        if not cst:
                            return p
                    continue
                if p.op in ("*", "&"):
                    stack.append((p, cst or p.type.startswith("const ")))
                continue
            if k in ("BinaryOperator", "CompoundAssignOperator"):
                if p.op == "=" or k == "CompoundAssignOperator":
                    if p.kids[0].id == x.id:
                        if not cst and not (carries_ref(x.type) and x.k == "DeclRefExpr"):
                            return p
                    elif carries_ref(p.type) and not cst:
                        l = p.kids[0].strip()
                        if l.k == "DeclRefExpr" and l.var is not None:
                            for u in uses(fn, l.var):
                                stack.append((u, cst))
                        else:
                            return p
                elif p.op in ("+", "-") and carries_ref(p.type):
                    stack.append((p, cst))
                elif p.op == ",":
                    if p.kids[-1].id == x.id:
                        stack.append((p, cst))
                continue
            if k == "DeclStmt":
                for d in p.d["ds"]:
                    if d.get("init") == x.id:
                        v = d["v"]
                        t = own.p.vtype(v)
                        isref = t.endswith("&")
                        if isref:
                            c2 = cst or t.startswith("const ")
                        elif carries_ref(t):
                            c2 = cst
                        elif d.get("bindings"):
                            c2 = True if not carries_pair(t) else cst
                        else:
                            continue
                        for u in uses(fn, v):
                            stack.append((u, c2))
                        for b in d.get("bindings", []):
                            for u in uses(fn, b["v"]):
                                stack.append((u, c2 or u.type.startswith("const ")))
                            if "hv" in b:
                                for u in uses(fn, b["hv"]):
                                    stack.append((u, c2))
                continue
            if k == "ReturnStmt":
                t = fn.info.ret
                if (nonconst_ref(t) or t.endswith("&&") or carries_ref(t)) and not cst:
                    return p
                continue
            if k == "CXXForRangeStmt":
                continue
            if p.is_call():
                c = own.p.resolve(p)
                if c is None:
                    if not cst:
                        return p
                    continue
                if c.q in ("std::move", "std::forward", "std::as_const", "std::addressof", "std::begin", "std::end", "std::data", "std::size", "std::get", "std::tie"):
                    if c.q == "std::size":
                        continue
                    stack.append((p, cst or c.q == "std::as_const"))
                    continue
                callee_node = p.d.get("callee", -1)
                isobj = (p.obj is not None and contains(p.obj, x.id)) or callee_node == x.id
                if isobj and (p.d.get("mc") or p.d.get("omem")):
                    if c.is_const:
                        # const method: result may still point into it if it returns pointers (iterators are const)
                        if nonconst_ref(c.ret) or carries_ref(c.ret):
                            stack.append((p, cst))
                        continue
                    if c.name in ACCESSORS and not cst:
                        if c.name == "operator[]" and "map" in (c.clsn or ""):
                            return p
                        stack.append((p, cst or c.ret.startswith("const ")))
                        continue
                    if c.name in ("size", "empty", "use_count", "count"):
                        continue
                    if not cst:
                        return p
                    continue
                # argument
                pa = p.params_args
                hit = False
                for i, a in enumerate(pa):
                    if a.id == x.id or contains(a, x.id):
                        hit = True
                        pt = c.param_types[i] if i < len(c.param_types) else ""
                        if nonconst_ref(pt) or pt.endswith("&&") or carries_ref(pt):
                            if cst:
                                continue
                            if c.q in ("std::make_shared", "std::make_unique", "std::allocate_shared") and not is_moved(a):
                                continue
                            # iterator/pointer comparisons and reads
                            if c.name in ("operator==", "operator!=", "operator<", "operator-"):
                                continue
                            if c.is_ctor and pt.endswith("&&") and not is_moved(a):
                                continue
                            if p.d.get("vc") is None and c.is_ctor and carries_ref(c.cls or ""):
                                stack.append((p, cst))
                                continue
                            # repo callee: does it write through this parameter?
                            if c.body is not None and depth < 6:
                                r = None
                                for u in uses(c.body, c.params[i]):
                                    r = r or write_capable(own, u, False, depth + 1)
                                    if r:
                                        break
                                if r is None:
                                    continue
                            return p
                if not hit and not isobj and not cst:
                    return p
                continue
            if k == "LambdaExpr":
                continue
            if k in ("InitListExpr", "CXXStdInitializerListExpr"):
                if not cst and carries_ref(x.type):
                    return p
                stack.append((p, cst))
                continue
            if k in ("IfStmt", "WhileStmt", "ForStmt", "CompoundStmt", "DoStmt", "SwitchStmt", "CXXThrowExpr", "NullStmt"):
                continue
            if not cst:
                return p
    return None


def carries_pair(t):
    return "pair<" in t and "iterator" in t


def is_moved(a):
    s = a.strip(moves=False)
    return s.d.get("vc") == "x"


def contains(n, id):
    while True:
        if n.id == id:
            return True
        if n.k in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups"):
            ks = n.kids
            if len(ks) == 1:
                n = ks[0]
                continue
        return False


def uses(fn, v):
    t = getattr(fn, "_uses", None)
    if t is None:
        t = {}
        for n in fn.nodes():
            if n.k == "DeclRefExpr" and n.var is not None:
                t.setdefault(n.var, []).append(n)
        fn._uses = t
    return t.get(v, [])
