"""C16: names, name index and edges of every tensor agree.

A disjunctive typestate analysis follows every path of each function that writes the names, the
name index or the edges of a tensor.  Contents are tracked as tokens (the names of tensor Y on
entry, the value written at node n, ...); at every normal exit the index must have been built from
the present names, and names written anew must have been checked against the present edges."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import report
import targets
from ir import Node, REPO, extract_many
from sym import Sym
from loops import loops, trip, block_of
from cond import edge_guards, atoms

TENSOR = re.compile(r"^(const )?TAT::Tensor<")
FIELDS = ("names", "name_to_index", "core")
QUIET = {"reserve", "shrink_to_fit", "begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty", "at", "find", "data", "front", "back", "operator[]", "count", "capacity",
         "operator->", "operator*", "get", "use_count", "operator bool", "unique"}
LIMIT = 200


class TooMany(Exception):
    pass


def bare(t):
    return t.replace("const ", "").rstrip("& ").strip()


def is_tensor(t):
    return bool(TENSOR.match(bare(t))) or bare(t).startswith("Tensor<")


class Labels:
    def __init__(self, p):
        self.p = p
        self.sy = Sym(p)
        self.inlined = set()
        self.tfields = {}
        self.touch = {}
        for f in p.repo_fns():
            if not f.nocfg:
                self.touches(f.info)

    # which functions write tracked parts, directly or through callees
    def touches(self, i, depth=0):
        if i.id in self.touch:
            return self.touch[i.id]
        self.touch[i.id] = False
        f = i.body
        r = False
        if f is not None and not f.nocfg and depth < 12:
            if i.clsn and is_tensor(i.clsn + "<") and i.is_ctor:
                r = True
            for n in f.live_nodes():
                if self.direct_write(n):
                    r = True
                    break
            if not r:
                for n in f.calls():
                    c = self.p.resolve(n)
                    if c is not None and c.in_repo and c.body is not None and self.hands_tracked(n, c) and self.touches(c, depth + 1):
                        r = True
                        break
        self.touch[i.id] = r
        return r

    def hands_tracked(self, n, c):
        """The call gives the callee write access to a tensor or a part of one."""
        if c.is_lambda:
            return True
        if n.obj is not None and not c.is_const and is_tensor(n.obj.type):
            return True
        for t, a in zip(c.param_types, n.params_args):
            if t.endswith("&") and not t.startswith("const ") and not t.endswith("&&"):
                if is_tensor(t) or self.part(a) is not None:
                    return True
        return False

    def part(self, n, env=None):
        """(tensor path, field) if n designates names, name_to_index, core or core->edges of a tensor."""
        n = n.strip()
        chain = []
        m = n
        while True:
            m = m.strip()
            if m.k == "MemberExpr" and "fn" not in m.d and m.kids:
                chain.append(m.d["m"])
                if m.d["m"] in FIELDS and is_tensor(m.kids[0].strip().type.rstrip("*").strip()):
                    pt = self.sy.path(m.kids[0], env)
                    if pt is None:
                        return None
                    rest = chain[:-1]
                    if not rest:
                        return (pt, m.d["m"])
                    if m.d["m"] == "core" and rest == ["edges"]:
                        return (pt, "edges")
                    return None
                m = m.kids[0]
                continue
            if m.is_call() and m.callee is not None and m.callee.name in ("operator->", "operator*", "get") and m.obj is not None:
                m = m.obj
                continue
            if m.k == "UnaryOperator" and m.op in ("*", "&"):
                m = m.kids[0]
                continue
            return None

    def direct_write(self, n):
        if n.is_call():
            c = n.callee
            if c is None:
                return False
            if n.obj is not None and self.part(n.obj) is not None and not c.is_const and c.name not in QUIET:
                return True
            if n.k == "CXXOperatorCallExpr" and c.name in ("operator[]",) and n.obj is not None and self.part(n.obj) is not None and self.part(n.obj)[1] == "name_to_index":
                return True
            for t, a in zip(c.param_types, n.params_args):
                if t.endswith("&") and not t.startswith("const ") and self.part(a) is not None and c.q not in ("std::move", "std::forward"):
                    return True
        return False

    def rel_local(self, f, n):
        n = n.strip()
        return n.k == "DeclRefExpr" and n.var is not None and n.var in self.relevant(f)

    def relevant(self, f):
        """Local lists that have to do with names of tensors."""
        r = getattr(f, "_relvars", None)
        if r is None:
            r = set()
            for n in f.nodes():
                if n.is_call() and n.callee is not None and (n.callee.name in ("check_valid_name", "construct_name_to_index") or self.direct_write(n)):
                    r |= {m.var for m in n.walk() if m.k == "DeclRefExpr" and m.var is not None}
            f._relvars = r
        return r

    # ---- tokens
    def key(self, n, env):
        """Tracked place designated by n: part of a tensor, or a local vector/map/shared pointer."""
        pt = self.part(n, env)
        if pt is not None:
            return pt[0] + (pt[1],)
        p = self.sy.path(n, env)
        if p is None:
            return None
        if p[-1] == "edges" and len(p) > 1:
            # edges of a core held in a local pointer
            return p
        return p

    def default(self, k):
        if k[-1] == "names":
            return ("n0", k[:-1])
        if k[-1] == "name_to_index":
            return ("idx", ("n0", k[:-1]))
        if k[-1] == "edges":
            b = k[:-1]
            return ("e0", b)
        return ("v0", k)

    def tok(self, st, k):
        return st.get(k, self.default(k))

    def value(self, n, st, env):
        """Token of the value of an expression of a tracked kind."""
        n = n.strip()
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXStdInitializerListExpr"):
            a = n.args if n.is_call() else n.kids
            a = [x for x in a if x.strip().k != "CXXDefaultArgExpr" and not re.match(r"(const )?std::(pmr::polymorphic_)?allocator", bare(x.type))]
            if n.k == "InitListExpr" and len(a) == 1:
                return self.value(a[0], st, env)
            if not a:
                return ("empty",)
            if len(a) == 2:
                it = []
                for x in a:
                    s = x.strip()
                    while s.k == "CXXConstructExpr" and len(s.args) == 1:
                        s = s.args[0].strip()
                    if s.is_call() and s.callee is not None and s.callee.name in ("begin", "end", "cbegin", "cend") and s.obj is not None:
                        it.append((s.callee.name.lstrip("c"), self.key(s.obj, env)))
                if len(it) == 2 and it[0][0] == "begin" and it[1][0] == "end" and it[0][1] is not None and it[0][1] == it[1][1]:
                    return self.tok(st, it[0][1])
                return ("?", n.fn.info.id, n.id)
            if len(a) == 1:
                return self.value(a[0], st, env)
            return ("?", n.fn.info.id, n.id)
        if n.is_call():
            c = self.p.resolve(n)
            if c is None:
                return ("?", n.fn.info.id, n.id)
            if c.name == "construct_name_to_index" and n.params_args:
                return ("idx", self.value(n.params_args[0], st, env))
            if c.q in ("std::make_shared", "std::allocate_shared") and "Core<" in c.ret:
                a = n.params_args if c.q == "std::make_shared" else n.params_args[1:]
                if not a:
                    return ("empty",)
                s = a[0].strip()
                t = self.core_tok(s, st, env)
                if t is not None:
                    return t
                k = self.key(s, env)
                if k is not None and k[-1] == "edges":
                    return self.tok(st, k)
                return ("?", n.fn.info.id, n.id)
            if c.name == "operator=" and n.obj is not None:
                k = self.key(n.obj, env)
                return self.tok(st, k) if k is not None else ("?", n.fn.info.id, n.id)
        t = self.core_tok(n, st, env)
        if t is not None:
            return t
        k = self.key(n, env)
        if k is not None and not (k[0][0] == "tmp" and len(k) == 1):
            return self.tok(st, k)
        return ("?", n.fn.info.id, n.id)

    def core_tok(self, n, st, env):
        """Token of the edges if n is a core (or a pointer to one)."""
        pt = self.part(n, env)
        if pt is not None and pt[1] == "core":
            return self.tok(st, pt[0] + ("edges",))
        t = n.strip().type
        if "Core<" in t and "Tensor<" not in t.split("Core<")[0]:
            p = self.sy.path(n, env)
            if p is not None and p[0][0] == "v":
                return self.tok(st, p + ("edges",))
        return None

    # ---- interpretation
    def fresh(self, st, k, n, kind="w"):
        t = (kind, n.fn.info.id, n.id)
        for x, v in list(st.items()):
            if v == ("idx", t):
                st[x] = ("idx", ("old", t))
        f = st.get("valid")
        if f:
            st["valid"] = frozenset(x for x in f if x[0] != t)
        st[k] = t

    def copy_tensor(self, st, dst, src):
        for f in ("names", "name_to_index", "edges"):
            st[dst + (f,)] = self.tok(st, src + (f,))

    def valid_tensor(self, st, dst, n):
        """A tensor produced by a function that is analysed on its own."""
        o = ("obj", n.fn.info.id, n.id)
        st[dst + ("names",)] = ("n0", (o,))
        st[dst + ("name_to_index",)] = ("idx", ("n0", (o,)))
        st[dst + ("edges",)] = ("e0", (o,))

    def rank(self, n, st, env):
        v = self.sy.value(n, env)
        if v is None or v[0] != "size":
            s = n.strip()
            while s.k in ("CXXConstructExpr",) and len(s.args) == 1:
                s = s.args[0].strip()
            v = self.sy.value(s, env)
        if v is None or v[0] != "size":
            return None
        p = v[1]
        if p[-1] == "edges":
            ps = tuple(x for x in p)
            if "core" in ps:
                return ("rank", self.tok(st, ps[:ps.index("core")] + ("edges",)))
            return ("rank", self.tok(st, ps))
        return ("len", self.tok(st, p))

    def run(self, f, st0, env, depth):
        """[(return key or None, state)] at the normal exits."""
        if depth > 5:
            raise TooMany()
        ins = {f.entry: {self.freeze(st0)}}
        work = [f.entry]
        outs = []
        seen_out = set()
        steps = 0
        while work:
            steps += 1
            if steps > 4000:
                raise TooMany()
            bid = work.pop()
            b = f.blocks[bid]
            todo = ins[bid]
            done = getattr(self, "_done", None)
            for fs in list(todo):
                if (bid, fs) in self.mark[-1]:
                    continue
                self.mark[-1].add((bid, fs))
                states = [dict(fs)]
                ret = None
                els, dead = f.block_elems(b)
                returned = False
                for e in els:
                    nxt = []
                    for st in states:
                        nxt += self.elem(f, e, st, env, depth)
                    states = nxt
                    if isinstance(e, Node) and e.k == "ReturnStmt":
                        returned = True
                    if isinstance(e, Node) and e.k == "CXXThrowExpr":
                        dead = True
                if dead:
                    continue
                for st in states:
                    if bid == f.exit or not f.succs(b):
                        fz = self.freeze(st)
                        if fz not in seen_out:
                            seen_out.add(fz)
                            outs.append(st)
                        continue
                    for s, br in f.succs(b):
                        fz = self.freeze(st)
                        if fz not in ins.setdefault(s, set()):
                            ins[s].add(fz)
                            if len(ins[s]) > LIMIT:
                                raise TooMany()
                        work.append(s) if (s, fz) not in self.mark[-1] else None
        return outs

    def freeze(self, st):
        return frozenset(st.items())

    def elem(self, f, e, st, env, depth):
        one = [st]
        if not isinstance(e, Node):
            # constructor initialisers
            if e.get("init") is not None and e.get("m") in FIELDS and env.get("this") is not None:
                n = f.node(e["init"]) if e["init"] >= 0 else None
                m = e["m"]
                k = env["this"] + ("edges" if m == "core" else m,)
                st[k] = self.value(n, st, env) if n is not None else ("empty",)
            return one
        n = e
        if n.k == "DeclStmt":
            for d in n.d["ds"]:
                i = d.get("init", -1)
                if i is None or i < 0:
                    continue
                t = self.p.vtype(d["v"])
                if t.endswith("&"):
                    continue
                iv = f.node(i)
                if is_tensor(t):
                    self.assign_tensor(st, (("v", d["v"]),), iv, env)
                elif d["v"] in self.relevant(f) and re.search(r"(vector|map)<", t) and "Core<" not in t:
                    st[(("v", d["v"]),)] = self.value(iv, st, env)
                    if st[(("v", d["v"]),)][0] == "?":
                        self.fresh(st, (("v", d["v"]),), n)
                elif "Core<" in t and "Tensor<" not in t:
                    st[(("v", d["v"]), "edges")] = self.value(iv, st, env)
            return one
        if n.k == "ReturnStmt" and n.kids:
            s = n.kids[0].strip()
            if is_tensor(s.type):
                self.assign_tensor(st, (("ret",),), n.kids[0], env)
            return one
        if not n.is_call():
            return one
        c = self.p.resolve(n)
        if c is None:
            return one
        if c.name == "check_valid_name" and len(n.params_args) == 2:
            t = self.value(n.params_args[0], st, env)
            st["valid"] = st.get("valid", frozenset()) | {(t, self.rank(n.params_args[1], st, env))}
            return one
        if n.k == "CXXOperatorCallExpr" and c.name == "operator=" and n.obj is not None and len(n.params_args) == 1:
            if is_tensor(n.obj.type):
                k = self.sy.path(n.obj, env)
                if k is not None:
                    self.assign_tensor(st, k, n.params_args[0], env)
                return one
            pt = self.part(n.obj, env)
            if pt is not None:
                k = pt[0] + ("edges" if pt[1] == "core" else pt[1],)
                v = self.value(n.params_args[0], st, env)
                if v[0] == "?":
                    self.fresh(st, k, n)
                else:
                    st[k] = v
                return one
            k = self.sy.path(n.obj, env)
            if k is not None and re.search(r"(vector|map)<", n.obj.type) and (len(k) == 1 and k[0][0] == "v" and k[0][1] in self.relevant(f) or k[-1] == "edges"):
                v = self.value(n.params_args[0], st, env)
                if v[0] == "?":
                    self.fresh(st, k, n)
                else:
                    st[k] = v
            return one
        if c.in_repo and c.body is not None and not c.body.nocfg and self.hands_tracked(n, c) and self.touches(c) and not (c.is_ctor and is_tensor(c.cls or "")):
            e2 = self.sy.call_env(n, c, env)
            e2 = dict(e2)
            if c.is_lambda:
                # captured objects keep their names
                e2.pop("this", None)
                e2 = dict(env) | e2
            self.inlined.add(c.id)
            self.mark.append(set())
            try:
                r = self.run(c.body, st, e2, depth + 1)
            finally:
                self.mark.pop()
            for s in r:
                for f_ in ("names", "name_to_index", "edges"):
                    s.pop((("ret",), f_), None)
            return r
        # writes
        if n.obj is not None and not c.is_const and n.k != "CXXConstructExpr":
            k = self.key(n.obj, env) if self.part(n.obj, env) is not None or self.rel_local(f, n.obj) else None
            if k is not None and k[-1] == "name_to_index" and c.name not in QUIET - {"operator[]"}:
                st[k] = ("iw", n.fn.info.id, n.id)
                return one
            if k is not None and c.name not in QUIET:
                pt = self.part(n.obj, env)
                if pt is not None and pt[1] == "core":
                    if c.name in ("reset",) and not n.params_args:
                        st[pt[0] + ("edges",)] = ("empty",)
                    else:
                        self.fresh(st, pt[0] + ("edges",), n)
                else:
                    self.fresh(st, k, n)
        for t, a in zip(c.param_types, n.params_args):
            if t.endswith("&") and not t.startswith("const ") and not c.q in ("std::move", "std::forward", "std::get", "std::make_shared", "std::allocate_shared", "std::as_const", "std::make_tuple", "std::make_pair", "std::tie") and not (t.endswith("&&") and not a.strip(False).k == "CallExpr" and n.k == "CXXConstructExpr"):
                pt = self.part(a, env)
                if pt is None:
                    continue
                if c.name in ("begin", "end", "cbegin", "cend", "size"):
                    continue
                k = pt[0] + ("edges" if pt[1] == "core" else pt[1],)
                if pt[1] == "name_to_index":
                    st[k] = ("iw", n.fn.info.id, n.id)
                else:
                    self.fresh(st, k, n)
        return one

    def assign_tensor(self, st, dst, n, env):
        s = n.strip()
        while s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(s.args) == 1 and s.callee is not None and s.callee.d.get("ctor") in ("copy", "move"):
            s = s.args[0].strip()
        if s.k == "InitListExpr" and not s.kids:
            for f in ("names", "edges"):
                st[dst + (f,)] = ("empty",)
            st[dst + ("name_to_index",)] = ("idx", ("empty",))
            return
        if s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXScalarValueInitExpr"):
            if not s.args:
                for f in ("names", "edges"):
                    st[dst + (f,)] = ("empty",)
                st[dst + ("name_to_index",)] = ("idx", ("empty",))
            else:
                self.valid_tensor(st, dst, s)
            return
        p = self.sy.path(s, env)
        if p is not None and p[0][0] != "tmp":
            self.copy_tensor(st, dst, p)
        else:
            self.valid_tensor(st, dst, s)


def own_test(f):
    """The function compares elements of a list of names itself, or counts distinct names."""
    def local(n):
        n = n.strip()
        return n.k == "DeclRefExpr" and n.var is not None and f.prog.vars[n.var]["k"] == "local" and n.var not in f.info.params
    for n in f.live_nodes():
        if n.is_call() and n.callee is not None and n.callee.name in ("unique", "adjacent_find"):
            return True
        if n.is_call() and n.callee is not None and n.callee.name == "size" and n.obj is not None and re.search(r"\b(set|map)<", n.obj.type) and local(n.obj):
            return True
        if n.is_call() and n.callee is not None and n.callee.name in ("insert", "emplace", "find", "count") and n.obj is not None and re.search(r"\bset<", n.obj.type) and local(n.obj):
            return True
    return False


def typestate(c, p):
    L = Labels(p)
    todo = []
    for f in p.repo_fns():
        if f.nocfg or not L.touches(f.info):
            continue
        todo.append(f)
    res = {}
    for f in todo:
        i = f.info
        if i.d.get("ctor") in ("copy", "move") or i.d.get("defaulted"):
            continue
        env = {}
        if i.clsn and not i.d.get("static"):
            env["this"] = (("this",),)
        L.mark = [set()]
        try:
            res[f] = L.run(f, {"valid": frozenset()}, env, 0)
        except TooMany:
            c.count("functions not decided")
            c.sample("not decided: " + i.pretty)
        except RecursionError:
            c.count("functions not decided")
    for f, outs in res.items():
        i = f.info
        if i.id in L.inlined:
            c.count("functions judged at their callers")
            continue
        c.count("functions")
        xs = []
        if i.cls and is_tensor(i.cls) and not i.is_const and not i.is_lambda:
            xs.append(((("this",),), "*this"))
        for v, t in zip(i.params, i.param_types):
            if t.endswith("&") and not t.startswith("const ") and is_tensor(t):
                xs.append(((("v", v),), p.vname(v)))
        xs.append(((("ret",),), "the returned tensor"))
        for st in outs:
            c.count("exit states")
            for X, nm in xs:
                if not any(X + (g,) in st for g in ("names", "name_to_index", "edges")):
                    continue
                t, ix, e = (L.tok(st, X + (g,)) for g in ("names", "name_to_index", "edges"))
                c.count("tensors at exits")
                if os.environ.get("C16_DUMP"):
                    print(i.pretty[:60], nm, t, ix, e)
                if ix[0] == "iw":
                    c.count("indices built by hand")
                elif ix != ("idx", t):
                    c.violation("index:%s:%s" % (i.q, nm), i.loc, "stale-name-index", "%s leaves the name index of %s built from other names than it has" % (i.q, nm))
                if t[0] == "n0" and t[1] == X and e == ("e0", X):
                    continue
                if t[0] == "n0" or t[0] == "empty":
                    if t[0] == "n0" and e[0] == "e0" and t[1] != e[1] and t[1][0][0] not in ("tmp",):
                        c.count("names and edges of different tensors")
                    continue
                facts = [r for (x, r) in st.get("valid", ()) if x == t]
                if not facts:
                    if own_test(f):
                        c.count("names tested by hand")
                    else:
                        c.violation("unchecked:%s:%s" % (i.q, nm), i.loc, "unchecked-names", "%s gives %s new names on a path that does not check that they are distinct and as many as its edges" % (i.q, nm))
                    continue
                ok = False
                for r in facts:
                    if r is None or r[0] == "rank" and r[1] == e or r[0] == "len" and r[1][0] == "n0" and e == ("e0", r[1][1]):
                        ok = True
                    elif r[0] == "len" and r[1] != t and r[1][0] != "n0":
                        ok = True
                if not ok:
                    c.violation("rank:%s:%s" % (i.q, nm), i.loc, "names-against-wrong-rank", "%s checks the new names of %s, but not against the number of its edges" % (i.q, nm))


def lookup(c, p):
    """An index taken from the name table of one tensor is used with that tensor."""
    L = Labels.__new__(Labels)
    L.p, L.sy = p, Sym(p)
    for f in p.repo_fns():
        if f.nocfg:
            continue
        for n in f.live_nodes():
            if not (n.is_call() and n.callee is not None and n.callee.name in ("operator[]", "at") and n.obj is not None and n.params_args):
                continue
            pt = L.part(n.obj)
            if pt is None or pt[1] not in ("names", "edges"):
                continue
            v = L.sy.value(n.params_args[0])
            if v is None or v[0] != "p" or "name_to_index" not in v[1]:
                continue
            src = v[1][:v[1].index("name_to_index")]
            c.count("lookups by name")
            if src != pt[0] and src and pt[0]:
                c.violation("lookup:%s:%s" % (f.info.q, n.line), n.loc, "index-of-other-tensor", "%s uses an index from the name table of one tensor with the %s of another" % (f.info.q, pt[1]))


def pairs_check(c, p):
    """construct_name_to_index and check_valid_name themselves."""
    sy = Sym(p)
    done = set()
    for f in p.repo_fns():
        i = f.info
        if f.nocfg:
            continue
        # M[V[a]] = b
        for n in f.live_nodes():
            if n.k == "BinaryOperator" and n.op == "=":
                l = n.kids[0].strip()
                if l.is_call() and l.callee and l.callee.name == "operator[]" and l.obj is not None and re.search(r"map<", l.obj.type) and l.params_args:
                    k = l.params_args[0].strip()
                    if k.is_call() and k.callee and k.callee.name in ("operator[]", "at") and k.params_args and n.kids[0].strip().type in ("unsigned short", "unsigned int", "unsigned long", "int") and "name" in i.name:
                        a, b = sy.value(k.params_args[0]), sy.value(n.kids[1])
                        c.count("entries of name indices")
                        if a is not None and b is not None and a != b:
                            c.violation("entry:" + i.q, n.loc, "wrong-name-index", "%s enters a name with another position than its own" % i.q)
        if i.name == "construct_name_to_index":
            for lp in loops(f):
                t = trip(sy, lp)
                if t is not None and t[0] == "count" and t[1][0] == "size":
                    c.count("name index loops")
                    if t[2] != 0:
                        c.violation("short:" + i.q, i.loc, "wrong-name-index", "%s does not enter every name" % i.q)
        if i.name == "check_valid_name":
            check_pairs(c, p, sy, f)


def check_pairs(c, p, sy, f):
    i = f.info
    nv, rv = i.params[0], i.params[1]
    # the length
    found = False
    for n in f.live_nodes():
        if n.k == "BinaryOperator" and n.op in ("!=", "=="):
            vs = [sy.value(k) for k in n.kids]
            if ("size", (("v", nv),)) in vs and ("p", (("v", rv),)) in vs:
                found = True
        if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">="):
            vs = [sy.value(k) for k in n.kids]
            if ("size", (("v", nv),)) in vs and ("p", (("v", rv),)) in vs:
                par = [m for m in f.live_nodes() if m.k == "BinaryOperator" and m.op in ("||", "&&") and any(k.strip().id == n.id for k in m.kids)]
                if not par and not any(block_of(f, n) == lp.header for lp in loops(f)):
                    found = "weak"
    if any(n.is_call() and p.resolve(n) is not None and p.resolve(n).in_repo and p.resolve(n).body is not None and any(a.strip().k == "DeclRefExpr" and a.strip().var == nv for a in n.args) for n in f.live_nodes()):
        c.count("name checks not decided")
        return
    if found is not True:
        c.violation("length:" + i.q, i.loc, "name-check", "%s does not compare the number of names with the number of edges" % i.q if not found else "%s accepts another number of names than edges" % i.q)
    if any(n.is_call() and n.callee and (n.callee.name in ("sort", "unique", "adjacent_find", "insert", "emplace", "count", "find", "any_of") or n.k == "CXXConstructExpr" and re.search(r"\b(unordered_)?(set|map)<", n.type)) for n in f.live_nodes()):
        c.count("name checks not decided")
        return
    cmpn = []
    for n in f.live_nodes():
        if n.is_call() and n.callee and n.callee.name in ("operator==", "operator!=") and len(n.args) == 2 or n.k == "BinaryOperator" and n.op in ("==", "!="):
            ks = [k.strip() for k in (n.args if n.is_call() else n.kids)]
            if all(k.is_call() and k.callee and k.callee.name in ("operator[]", "at") and k.obj is not None and sy.path(k.obj) == (("v", nv),) for k in ks):
                cmpn.append((n, [sy.value(k.params_args[0]) for k in ks]))
    if len(cmpn) != 1:
        c.count("name checks not decided")
        return
    n, (a, b) = cmpn[0]
    lps = [lp for lp in loops(f) if block_of(f, n) in lp.body]
    c.count("name checks")
    if len(lps) < 2:
        if a != b and len(lps) == 1:
            c.violation("pairs:" + i.q, n.loc, "name-check", "%s does not compare every pair of names" % i.q)
        return
    lps.sort(key=lambda l: -len(l.body))
    outer, inner = lps[0], lps[1]
    t = trip(sy, outer)
    bounds = (("p", (("v", rv),)), ("size", (("v", nv),)))
    if t is not None and t[0] == "count" and t[1] in bounds and t[2] not in (0, -1):
        c.violation("pairs:" + i.q, n.loc, "name-check", "%s does not compare every pair of names" % i.q)
    # inner loop: from outer + 1, or from 0 up to outer
    ex = [e for e in __import__("loops").exits(inner) if e[1] is not None]
    for m in f.nodes():
        if m.k != "DeclStmt":
            continue
        for d in m.d["ds"]:
            if d["v"] in [v[1][0][1] for v in (a, b) if v and v[0] == "p" and len(v[1]) == 1 and v[1][0][0] == "v"] and d.get("init", -1) >= 0:
                iv = f.node(d["init"]).strip()
                if iv.k == "BinaryOperator" and iv.op == "+" and any(k.strip().iv not in (None, 0, 1) for k in iv.kids):
                    c.violation("pairs:" + i.q, n.loc, "name-check", "%s does not compare every pair of names" % i.q)
    for blk, cn, br, _ in ex:
        cn = cn.strip()
        if cn.k == "BinaryOperator" and cn.op in ("<", "!=") and cn.kids[1].strip().k == "BinaryOperator" and cn.kids[1].strip().op == "-" and sy.value(cn.kids[1].strip().kids[0]) in bounds:
            c.violation("pairs:" + i.q, n.loc, "name-check", "%s does not compare every pair of names" % i.q)
    # equality is fatal or the answer is false
    b0 = block_of(f, n)
    blk = f.blocks[b0]
    eq = n.callee.name == "operator==" if n.is_call() else n.op == "=="
    for s, br in f.succs(blk):
        if br is None:
            continue
        if (br is True) == eq:
            tgt = f.blocks[s]
            els, dead = f.block_elems(tgt)
            if not dead and not any(isinstance(x, Node) and x.k in ("ReturnStmt", "CXXThrowExpr") for x in els):
                c.violation("accept:" + i.q, n.loc, "name-check", "%s accepts two equal names" % i.q)


def origins(L, f, n, env=None, depth=0):
    """Where names and edges in an expression come from: {('names'|'edges', tensor, position)}; position is an
    index value or ('name', path of the name it is looked up by)."""
    sy = L.sy
    out = set()
    if depth > 8:
        return out
    n = n.strip()
    if n.k == "DeclRefExpr" and n.var is not None:
        init, bind, assigned = sy.tables(f)
        if n.var in init and n.var not in assigned and p_local(L.p, n.var):
            return origins(L, f, init[n.var], env, depth + 1)
        if n.var in bind:
            return out
        return out
    if n.is_call() and n.callee is not None and n.callee.name in ("operator[]", "at") and n.obj is not None and n.params_args:
        pt = L.part(n.obj)
        if pt is not None and pt[1] in ("names", "edges"):
            v = sy.value(n.params_args[0])
            a = n.params_args[0].strip()
            d = 0
            while a.k == "DeclRefExpr" and a.var in sy.tables(f)[0] and a.var not in sy.tables(f)[2] and d < 5:
                a = sy.tables(f)[0][a.var].strip()
                d += 1
            if a.is_call() and a.callee is not None and a.callee.name == "at" and a.obj is not None and L.part(a.obj) is not None and L.part(a.obj)[1] == "name_to_index":
                v = ("name", sy.path(a.params_args[0]))
            return {(pt[1], pt[0], v)}
    for k in n.kids:
        out |= origins(L, f, k, env, depth + 1)
    return out


def p_local(p, v):
    return p.vars[v]["k"] == "local"


def push_pairs(c, p):
    """A name and an edge collected together belong together."""
    L = Labels.__new__(Labels)
    L.p, L.sy = p, Sym(p)
    for f in p.repo_fns():
        if f.nocfg:
            continue
        lists = {}
        for n in f.live_nodes():
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and is_tensor(n.type) and len(n.args) >= 2:
                a, b = n.args[0].strip(), n.args[1].strip()
                if a.k == "DeclRefExpr" and b.k == "DeclRefExpr":
                    lists[a.var] = b.var
        for bid in f.live():
            els, _ = f.block_elems(f.blocks[bid])
            got = {}
            for n in els:
                if not (isinstance(n, Node) and n.is_call() and n.callee is not None and n.obj is not None and n.callee.name in ("push_back", "emplace_back", "insert", "emplace", "try_emplace")):
                    continue
                o = set()
                names_of = set()
                for a in n.params_args:
                    o |= origins(L, f, a)
                    for m in a.walk():
                        if m.k == "DeclRefExpr" and m.var is not None and re.match(r"TAT::FastName$|std::(__cxx11::)?basic_string<", bare(m.type)):
                            names_of.add(L.sy.path(m))
                nn = [x for x in o if x[0] == "names"]
                ee = [x for x in o if x[0] == "edges"]
                if ee and (nn or names_of):
                    judge(c, f, n, nn, ee, names_of)
                t = n.obj.strip()
                if t.k == "DeclRefExpr":
                    got.setdefault(t.var, []).append((n, nn, ee, names_of))
            for a, b in lists.items():
                if len(got.get(a, [])) == 1 and len(got.get(b, [])) == 1:
                    n, nn, _, nof = got[a][0]
                    judge(c, f, n, nn, got[b][0][2], nof)


def judge(c, f, n, nn, ee, names_of):
    if nn and ee:
        if not all(simple(x[2]) for x in nn + ee):
            return
        c.count("names paired with edges")
        if not {x[1:] for x in nn} & {x[1:] for x in ee}:
            c.violation("pair:%s" % f.info.q, n.loc, "name-of-other-edge", "%s pairs the name at one position with the edge at another" % f.info.q)
    elif ee and names_of:
        want = {x[2][1] for x in ee if x[2] is not None and x[2][0] == "name"}
        if want and None not in want and len(want) == 1:
            c.count("names paired with edges")
            if not want & names_of and len(names_of) == 1 and None not in names_of:
                c.violation("pair:%s" % f.info.q, n.loc, "name-of-other-edge", "%s pairs a name with the edge of another name" % f.info.q)


def simple(v):
    return v is not None and v[0] in ("p", "c", "+", "-")


def balance(c, p):
    """Lists of names and edges given to a constructor of a tensor grow together."""
    for f in p.repo_fns():
        if f.nocfg:
            continue
        for n in f.live_nodes():
            if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or not is_tensor(n.type) or len(n.args) < 2:
                continue
            a, b = n.args[0].strip(), n.args[1].strip()
            if not (a.k == "DeclRefExpr" and b.k == "DeclRefExpr" and a.var is not None and b.var is not None):
                continue
            if not all("vector<" in p.vtype(x.var) and p.vars[x.var]["k"] == "local" for x in (a, b)):
                continue
            def pushes(blocks):
                out = {}
                for bid in blocks:
                    els, _ = f.block_elems(f.blocks[bid])
                    d = 0
                    for m in els:
                        if isinstance(m, Node) and m.is_call() and m.callee is not None and m.obj is not None and m.callee.name in ("push_back", "emplace_back"):
                            s = m.obj.strip()
                            if s.k == "DeclRefExpr" and s.var == a.var:
                                out.setdefault(bid, []).append(1)
                            elif s.k == "DeclRefExpr" and s.var == b.var:
                                out.setdefault(bid, []).append(-1)
                return out
            allp = pushes(f.live())
            if not allp:
                continue
            for lp in loops(f):
                inner = [l for l in loops(f) if l.header != lp.header and l.body < lp.body]
                mine = {x: v for x, v in allp.items() if x in lp.body and not any(x in l.body for l in inner)}
                if not mine or any(x in l.body for x in allp for l in inner):
                    continue
                signs = {s for v in mine.values() for s in v}
                if len(signs) != 2:
                    continue
                c.count("loops that collect names and edges")
                # every path through the body
                seen, st, bad = set(), [(lp.header, 0, True)], False
                while st:
                    x, d, first = st.pop()
                    if x == lp.header and not first:
                        bad = bad or d != 0
                        continue
                    d += sum(mine.get(x, []))
                    if (x, d) in seen or abs(d) > 8:
                        continue
                    seen.add((x, d))
                    for s, _ in f.succs(f.blocks[x]):
                        if s in lp.body:
                            st.append((s, d, False))
                if bad:
                    c.violation("balance:%s" % f.info.q, n.loc, "names-and-edges-differ", "%s collects different numbers of names and edges on some path of a loop and makes a tensor of them" % f.info.q)


def body(c):
    c.rules += [
        "at every normal exit the name index of a tensor was built from its present names",
        "names written anew are checked to be distinct and as many as the present edges before the function returns",
        "check_valid_name compares the length and every pair; construct_name_to_index enters every name with its position",
        "an index from the name table of one tensor is used only with the names and edges of that tensor",
        "a name and an edge collected together come from the same position, and as many names as edges are collected on every path",
    ]
    c.assumptions += ["code outside the library writes the parts of a tensor only through its operations"]
    import time
    for p in targets.all_progs(c.thorough):
        if os.environ.get("C16_TIME"):
            print(time.time() - c.t0)
        typestate(c, p)
        lookup(c, p)
        pairs_check(c, p)
        push_pairs(c, p)
        balance(c, p)
    c.need("functions", 5)
    c.need("name checks", 0)


report.main("C16", "typestate analysis of names, name index and edges", body)
