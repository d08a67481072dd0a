"""C14: the Python module forwards to the C++ operation of the same meaning.

Every registration of PyTAT.cpp (def, def_static, def_readonly, init, operators, buffers, registered
types) is read from the syntax tree of the instantiated templates and compared with the C++ operation
it names: which operation is reached, which parameter each argument ends in, defaults, what is
returned, which type stands behind a name and how a block is laid out as an array."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import report
from ir import REPO, extract
from sym import Sym
from loops import block_of, loops, exits
from cond import edge_guards, atoms, relation

DEBUG = os.environ.get("C14_DEBUG")
ALIAS = {"norm_max": ("norm", "-1"), "norm_num": ("norm", "0"), "norm_sum": ("norm", "1"), "norm_2": ("norm", "2")}
FIELD = {"name": "names"}
PARTS = {"edge": "edges", "data": "blocks"}
DISTRIBUTION = {"rand": "std::uniform_real_distribution", "randn": "std::normal_distribution", "uniform_int": "std::uniform_int_distribution",
                "uniform_real": "std::uniform_real_distribution", "normal": "std::normal_distribution"}
DUNDER = {"__getitem__": {"at", "const_at"}, "__str__": {"show"}}
SCALAR = {"S": "float", "D": "double", "C": "std::complex<float>", "Z": "std::complex<double>"}
TEXT = {"float32": "S", "complex32": "C", "float": "D", "complex": "Z", "S": "S", "D": "D", "C": "C", "Z": "Z"}
OPERATORS = [("op_" + o, s) for o in ("add", "sub", "mul", "truediv") for s in ("ss", "ns", "sn")] + [("op_i" + o, s) for o in ("add", "sub", "mul", "truediv") for s in ("ss", "sn")]
SYMOPS = ["op_lt", "op_gt", "op_le", "op_ge", "op_eq", "op_ne", "op_add", "op_iadd", "op_neg"]
KEEP = {"reference_internal", "reference"}


def bare(t):
    t = t.replace("const ", "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


def unwrap(n):
    n = n.strip()
    while True:
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.args) == 1 and n.callee is not None and n.callee.d.get("ctor") in ("copy", "move"):
            n = n.args[0].strip()
        elif n.is_call() and n.callee is not None and n.callee.q in ("std::move", "std::forward", "std::as_const") and len(n.args) == 1:
            n = n.args[0].strip()
        else:
            return n


class Py:
    def __init__(self, c, p):
        self.c, self.p, self.sy = c, p, Sym(p)
        self.fields, self.methods = {}, {}
        for r in p.records:
            t = p.types[r["t"]]
            self.fields[t] = [x["n"] for x in r["fields"]]
            self.methods[t] = {m["n"] for m in r["methods"]}
        for f in p.fninfo:
            if f is not None and f.cls is not None and not f.is_lambda:
                self.methods.setdefault(f.cls, set()).add(f.name)
        # member templates are listed only where instantiated: any instantiation of the class counts
        fam = {}
        for t, ms in self.methods.items():
            fam.setdefault(re.sub(r"<.*", "", t), set()).update(ms)
        self.family = fam

    def has_method(self, cls, name):
        return name in self.methods.get(cls, ()) or name in self.family.get(re.sub(r"<.*", "", cls), ())

    # ------------------------------------------------------------ callables
    def callable(self, n):
        """('member', FnInfo) | ('body', FnInfo) | ('field', name) | None"""
        n = unwrap(n)
        if n.k == "LambdaExpr":
            ids = n.d.get("specs") or ([n.d["fn"]] if "fn" in n.d else [])
            for i in ids:
                if self.p.fninfo[i].body is not None:
                    return "body", self.p.fninfo[i]
            return None
        if n.k == "DeclRefExpr" and n.var is not None:
            i = self.sy.tables(n.fn)[0].get(n.var)
            return self.callable(i) if i is not None else None
        if n.k == "UnaryOperator" and n.op == "&":
            n = n.kids[0].strip()
        if n.k == "DeclRefExpr" and "fn" in n.d:
            f = self.p.fninfo[n.d["fn"]]
            if f.cls is not None:
                return "member", f
            if f.body is not None:
                return "body", f
            return "member", f
        if n.k == "DeclRefExpr" and n.var is not None:
            return "field", self.p.vname(n.var)
        return None

    def names(self, f):
        return [self.p.vname(v) for v in f.params]

    # ------------------------------------------------------------ flow of parameters
    def roles(self, n, env, depth=0):
        """Parameters of the registered function that the value of n is made of, in order."""
        out = []
        if n is None or depth > 8:
            return out
        for x in self.order(n):
            if x.k == "DeclRefExpr" and x.var is not None:
                if x.var in env:
                    for r in env[x.var]:
                        if not out or out[-1] != r:
                            out.append(r)
                elif self.p.vars[x.var]["k"] in ("local", "binding"):
                    tb = self.sy.tables(x.fn)
                    i = tb[0].get(x.var) or tb[1].get(x.var)
                    if i is not None and i.id != n.id:
                        out += self.roles(i, env, depth + 1)
        return out

    def order(self, n):
        yield n
        if n.k == "LambdaExpr":
            return
        ks = n.kids
        if n.k == "ConditionalOperator" and len(ks) == 3:
            ks = ks[1:]
        for k in ks:
            for x in self.order(k):
                yield x

    def partly(self, n, env, depth=0):
        """(condition, with, without): a value that is made of a parameter on one side of a conditional only."""
        n = unwrap(n)
        while n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and len(n.args) == 1 and n.args[0].k != "CXXDefaultArgExpr":
            n = unwrap(n.args[0])
        if n.k == "DeclRefExpr" and n.var is not None and n.var not in env and depth < 4:
            tb = self.sy.tables(n.fn)
            i = tb[0].get(n.var)
            return self.partly(i, env, depth + 1) if i is not None and not tb[2].get(n.var) else None
        if n.k != "ConditionalOperator" or len(n.kids) != 3:
            return None
        a, b = self.roles(n.kids[1], env), self.roles(n.kids[2], env)
        if bool(a) == bool(b):
            return None
        return self.roles(n.kids[0], env), (a or b)

    def unseen(self, g, x, v):
        """The parameter v of g is not looked at on any path to the call x."""
        if x.fn is not g.body:
            return False
        b = block_of(g.body, x)
        if b is None:
            return False
        preds = {}
        for i in g.body.live():
            for t, _ in g.body.succs(g.body.blocks[i]):
                preds.setdefault(t, []).append(i)
        seen, st = set(), [b]
        while st:
            i = st.pop()
            if i not in seen:
                seen.add(i)
                st += preds.get(i, [])
        for y in g.body.nodes():
            if y.k == "LambdaExpr":
                return False
            if y.k == "DeclRefExpr" and y.var == v:
                yb = block_of(g.body, y)
                if yb is None or yb in seen:
                    return False
        return True

    def visit(self, f, env, depth=0):
        """All (call node, environment) in f, the lambdas in it and the repo functions it calls."""
        if f.body is None or f.body.nocfg or depth > 4:
            return
        for n in f.body.live_nodes():
            if n.k == "LambdaExpr":
                ids = n.d.get("specs") or ([n.d["fn"]] if "fn" in n.d else [])
                for i in ids:
                    for y in self.visit(self.p.fninfo[i], env, depth + 1):
                        yield y
            if n.is_call() or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                yield n, env
                c = n.callee
                if c is not None and c.body is not None and c.in_repo and not c.is_lambda and n.is_call():
                    e2 = dict(env)
                    for v, a in zip(c.params, n.params_args):
                        e2[v] = tuple(self.roles(a, env))
                    for y in self.visit(c, e2, depth + 1):
                        yield y

    def uses(self, f, depth=0):
        """Variables read in f and the lambdas inside."""
        out = set()
        for n in f.body.nodes():
            if n.k == "DeclRefExpr" and n.var is not None:
                out.add(n.var)
            if n.k == "LambdaExpr":
                for cpt in n.d.get("caps", []):
                    if "v" in cpt and cpt["v"] in f.params:
                        pass
                for i in n.d.get("specs") or ([n.d["fn"]] if "fn" in n.d else []):
                    g = self.p.fninfo[i]
                    if g.body is not None and depth < 4:
                        out |= self.uses(g, depth + 1)
        return out

    # ------------------------------------------------------------ registrations
    def registrations(self):
        for f in self.p.repo_fns():
            if f.nocfg:
                continue
            for n in f.live_nodes():
                if n.is_call() and n.callee is not None and n.callee.name in ("def", "def_static", "def_readonly", "def_readonly_static", "def_property_readonly", "def_buffer", "def_readwrite") and n.obj is not None:
                    cls = n.callee.cls or ""
                    if cls.startswith("pybind11::class_<"):
                        x = cls[len("pybind11::class_<"):-1]
                    elif cls.startswith("pybind11::module_"):
                        x = None
                    else:
                        continue
                    yield f, n, n.callee.name, x

    def text(self, n):
        n = unwrap(n)
        if n.k == "StringLiteral":
            return n.d.get("s")
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "basic_string<" in n.type and n.args:
            return self.text(n.args[0])
        return None

    def pyargs(self, args):
        out = []
        for a in args:
            a = unwrap(a)
            if bare(a.type) == "pybind11::arg" and a.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "UserDefinedLiteral", "CallExpr"):
                lit = [x.d["s"] for x in a.walk() if x.k == "StringLiteral"]
                out.append((lit[0] if lit else None, None, a))
            elif bare(a.type) == "pybind11::arg_v":
                lit = [x.d["s"] for x in a.walk() if x.k == "StringLiteral"]
                v = a.args[1] if a.is_call() and a.callee is not None and a.callee.name == "operator=" and len(a.args) == 2 else None
                out.append((lit[0] if lit else None, v if v is not None else False, a))
        return out

    def policy(self, args):
        for a in args:
            a = unwrap(a)
            if "return_value_policy" in a.type:
                for x in a.walk():
                    if x.k == "DeclRefExpr" and x.var is not None:
                        return self.p.vname(x.var)
                return "?"
        return None

    def loc(self, n):
        """Line of the name or the callable rather than of the whole chain."""
        best = n
        for a in n.params_args:
            return a.loc
        return best.loc

    def vio(self, key, n, rule, msg):
        self.c.violation(key, self.loc(n), rule, msg)

    def undec(self):
        self.c.count("registrations not decided")
        if DEBUG:
            import inspect
            fr = inspect.currentframe().f_back
            print("undecided line %d: %s" % (fr.f_lineno, fr.f_locals.get("what")), file=sys.stderr)

    # ------------------------------------------------------------ rules
    def crossed(self, a, b):
        """First position where a's name is the name of another position of b."""
        for i, x in enumerate(a):
            if i < len(b) and x is not None and x != b[i] and x in b and b.index(x) != i:
                return i
        return None

    def check_named(self, f, n, cls, how):
        args = n.params_args
        name = self.text(args[0]) if args else None
        if name is None or len(args) < 2:
            return False
        short = re.sub(r"<.*", "", cls or "module").replace("TAT::", "")
        what = "%s.%s" % (short, name)
        cb = self.callable(args[1])
        pa = self.pyargs(args[2:])
        if how in ("def_readonly", "def_readonly_static", "def_readwrite"):
            if cb is None or cb[0] != "field" or cls is None:
                self.undec()
                return True
            want = FIELD.get(name, name)
            if cb[1] != want and want in self.fields.get(cls, ()):
                self.vio("field:" + what, n, "wrong-member", "%s shows the member %s" % (what, cb[1]))
            elif cb[1] == want:
                self.c.count("attributes shown")
            else:
                self.undec()
            return True
        if cb is None:
            self.undec()
            return True
        kind, g = cb
        if kind == "field":
            self.undec()
            return True
        static = how == "def_static" or cls is None
        first = 0 if static else 1
        if how == "def_property_readonly":
            if name in PARTS and kind == "body":
                rets = [x for x in g.body.live_nodes() if x.k == "ReturnStmt" and x.kids]
                last = [unwrap(r.kids[0]) for r in rets]
                if any(x.k == "MemberExpr" and x.d.get("m") != PARTS[name] and x.d.get("m") in PARTS.values() for x in last):
                    self.vio("part:" + what, n, "wrong-member", "%s shows %s" % (what, last[0].d.get("m")))
                else:
                    self.c.count("attributes shown")
            return True
        # policy of methods that return the object itself
        if cls is not None and g.ret.rstrip().endswith("&") and bare(g.ret) == cls:
            po = self.policy(args[2:])
            if po is None or po not in KEEP | {"?"}:
                self.vio("policy:" + what, n, "returns-copy", "%s returns a copy instead of the object it changed" % what)
            else:
                self.c.count("methods returning the object itself")
        if kind == "member":
            want, arg0 = ALIAS.get(name, (name, None))
            if g.name != want and (name in ALIAS or cls is None or self.has_method(cls, name) or name in self.pynames):
                if cls is not None and (name in ALIAS or self.has_method(cls, name)):
                    self.vio("target:" + what, n, "wrong-operation", "%s is bound to %s" % (what, g.name))
                    return True
            if arg0 is not None and g.name == want and (g.d.get("targs") or [None])[0] != arg0:
                self.vio("target:" + what, n, "wrong-operation", "%s is bound to %s<%s>" % (what, g.name, (g.d.get("targs") or ["?"])[0]))
                return True
            self.c.count("methods bound directly")
            cn = self.names(g)
            an = [x[0] for x in pa]
            i = self.crossed(an, cn)
            if i is not None:
                self.vio("names:" + what, n, "crossed-arguments", "%s: the argument named %s goes to the parameter %s of %s" % (what, an[i], cn[i], g.name))
            self.defaults(what, n, pa, g, {k: k for k in range(len(cn))})
            return True
        # a lambda or function of its own
        params = g.params
        if not static and not params:
            return True
        if not static and cls is not None and bare(self.p.vtype(params[0])) == cls and not self.p.vtype(params[0]).rstrip().endswith(("&", "*")):
            nonconst = [x for x, e in self.visit(g, {params[0]: (0,)}) if x.is_call() and x.obj is not None and x.callee is not None and bare(x.obj.type) == cls and not x.callee.is_const and x.callee.d.get("rq") != "&&"]
            if nonconst:
                self.vio("self:" + what, n, "changes-copy", "%s works on a copy of the object" % what)
        own = [self.p.vname(v) for v in params[first:]]
        an = [x[0] for x in pa]
        i = self.crossed(an, own)
        if i is not None:
            self.vio("names:" + what, n, "crossed-arguments", "%s: the argument named %s goes to the parameter %s" % (what, an[i], own[i]))
        used = self.uses(g)
        for v, o in zip(params[first:], own):
            if o and v not in used:
                self.vio("unused:" + what, n, "argument-ignored", "%s ignores its argument %s" % (what, o))
        env = {v: (k,) for k, v in enumerate(params)}
        calls = list(self.visit(g, env))
        if name in DISTRIBUTION:
            self.distribution(what, name, n, calls, params, first, g)
            return True
        if cls is None:
            return True
        if name == "__setitem__":
            return True
        targets = cls.startswith("TAT::Tensor<") and DUNDER.get(name) or ({name} if self.has_method(cls, name) else set())
        if not targets:
            if name == "sqrt":
                fs = {x.callee.name for x, e in calls if x.is_call() and x.callee is not None}
                if "map" in fs and "sqrt" not in fs:
                    self.vio("target:" + what, n, "wrong-operation", "%s does not take the square root" % what)
            self.c.count("functions of the module alone")
            return True
        on_self = [(x, e) for x, e in calls if x.is_call() and x.callee is not None and x.obj is not None and bare(x.obj.type) == cls and 0 in self.roles(x.obj, e)]
        mine = [(x, e) for x, e in on_self if x.callee.name in targets]
        if not mine:
            # static members and calls on another object
            others = sorted({x.callee.name for x, e in on_self if x.callee.name not in ("is_valid",) and not x.callee.name.startswith("operator")})
            wrongobj = [(x, e) for x, e in calls if x.is_call() and x.callee is not None and x.obj is not None and bare(x.obj.type) == cls and x.callee.name in targets and self.roles(x.obj, e)]
            if wrongobj:
                self.vio("object:" + what, n, "wrong-object", "%s calls %s on another object than its own" % (what, name))
            elif others and not any(x.callee is not None and x.callee.name in targets for x, e in calls if x.is_call()):
                self.vio("target:" + what, n, "wrong-operation", "%s calls %s instead" % (what, ", ".join(others)))
            else:
                self.undec()
            return True
        decided = True
        for x, e in mine:
            m = x.callee
            mp = self.names(m)
            flow = []
            for k, a in enumerate(x.params_args):
                if a.k == "CXXDefaultArgExpr":
                    continue
                flow.append((k, [r for r in self.roles(a, e) if r >= first]))
            flat = [r for k, rs in flow for r in rs]
            if name == "to":
                continue
            if any(flat[i] > flat[i + 1] for i in range(len(flat) - 1)):
                self.vio("order:" + what, n, "crossed-arguments", "%s passes its arguments to %s in another order (%s)" % (what, m.name, ", ".join(self.p.vname(params[r]) for r in flat)))
                decided = False
                continue
            for k, rs in flow:
                if len(rs) == 1 and k < len(mp):
                    o = self.p.vname(params[rs[0]])
                    if o != mp[k] and (o in mp and o or mp[k] in own and mp[k]) and mp[k]:
                        self.vio("names:" + what, n, "crossed-arguments", "%s passes %s as the parameter %s of %s" % (what, o, mp[k], m.name))
                        decided = False
            missing = [r for r in range(first, len(params)) if r not in flat]
            lost = False
            for k, a in enumerate(x.params_args):
                w = self.partly(a, e) if a.k != "CXXDefaultArgExpr" else None
                if w is not None and len(w[1]) == 1 and w[1][0] >= first and w[1][0] not in w[0]:
                    self.vio("partly:" + what, n, "argument-ignored", "%s ignores its argument %s in some cases" % (what, self.p.vname(params[w[1][0]])))
                    lost = True
            for r in missing:
                if self.p.vname(params[r]) and self.unseen(g, x, params[r]):
                    self.vio("partly:" + what, n, "argument-ignored", "%s ignores its argument %s on one path" % (what, self.p.vname(params[r])))
                    lost = True
            if lost:
                decided = False
            elif missing:
                decided = False
                self.undec()
            else:
                mapping = {}
                for k, rs in flow:
                    if len(rs) == 1:
                        mapping[rs[0] - first] = k
                self.defaults(what, n, pa, m, mapping)
            # constants in place of arguments
            extra = [k for k, rs in flow if not rs]
            if extra and not missing:
                pass
        if decided:
            self.c.count("methods forwarded by a function")
            self.c.sample("%s -> %s(%s)" % (what, mine[0][0].callee.name, ", ".join(own)))
        self.result_order(what, n, g)
        if name == "to":
            self.conversions(what, n, g)
        return True

    def defaults(self, what, n, pa, m, mapping):
        pd = m.d.get("pd")
        if not pd:
            return
        for i, (nm, val, node) in enumerate(pa):
            if i not in mapping or mapping[i] >= len(pd) or val is None or val is False:
                continue
            d = pd[mapping[i]]
            if not d:
                continue
            v = val.strip()
            iv = val.iv if val.iv is not None else v.iv
            if iv is None and v.k == "CXXBoolLiteralExpr":
                iv = v.d.get("iv")
            if iv is not None and "iv" in d:
                if iv != d["iv"] and not (iv & 0xffffffffffffffff) == (d["iv"] & 0xffffffffffffffff):
                    self.vio("default:%s:%s" % (what, nm), n, "other-default", "%s: the default of %s is %s, in C++ it is %s" % (what, nm, iv, d["iv"]))
                else:
                    self.c.count("defaults compared")
            else:
                s = self.text(v)
                if s is not None and "::" in d.get("s", ""):
                    if s.lstrip(",") != d["s"].split("::")[-1].strip():
                        self.vio("default:%s:%s" % (what, nm), n, "other-default", "%s: the default of %s is %s, in C++ it is %s" % (what, nm, s, d["s"]))
                    else:
                        self.c.count("defaults compared")

    def distribution(self, what, name, n, calls, params, first, g):
        want = DISTRIBUTION[name]
        seen = False
        for x, e in calls:
            if x.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or not bare(x.type).startswith("std::") or "_distribution" not in x.type:
                continue
            if x.callee is not None and x.callee.d.get("ctor") in ("copy", "move"):
                continue
            if "param_type" in x.type:
                continue
            seen = True
            if not bare(x.type).startswith(want + "<"):
                self.vio("target:" + what, n, "wrong-operation", "%s draws from %s" % (what, re.sub(r"<.*", "", bare(x.type))))
                continue
            rs = [self.roles(a, e) for a in x.args if a.k != "CXXDefaultArgExpr"]
            if all(len(r) == 1 for r in rs) and len(rs) == 2:
                if rs[0][0] > rs[1][0]:
                    self.vio("order:" + what, n, "crossed-arguments", "%s passes its arguments in another order" % what)
                    continue
                if rs[0] == rs[1] and len(params) - first == 2:
                    self.vio("order:" + what, n, "argument-ignored", "%s uses one of its arguments twice" % what)
                    continue
                acc = [sorted({y.callee.name for y in a.walk() if y.is_call() and y.callee is not None and y.callee.name in ("real", "imag")}) for a in x.args]
                if acc[0] != acc[1]:
                    self.vio("order:" + what, n, "crossed-arguments", "%s mixes real and imaginary parts of its bounds" % what)
                    continue
            self.c.count("random distributions")
        if not seen:
            self.undec()

    def result_order(self, what, n, g):
        """py::make_tuple(result.U, result.S, result.V): all parts in the order of the C++ result."""
        for x in g.body.live_nodes():
            if x.is_call() and x.callee is not None and x.callee.q == "pybind11::make_tuple":
                parts = []
                for a in x.args:
                    a = unwrap(a)
                    if a.k == "MemberExpr" and a.kids:
                        parts.append((bare(a.kids[0].type), a.d.get("m")))
                if len(parts) != len(x.args) or len({t for t, _ in parts}) != 1:
                    continue
                fs = self.fields.get(parts[0][0])
                if fs is None:
                    continue
                ms = [m for _, m in parts]
                if ms != fs:
                    self.vio("result:" + what, n, "crossed-results", "%s returns (%s) instead of (%s)" % (what, ", ".join(ms), ", ".join(fs)))
                else:
                    self.c.count("results in order")

    # ------------------------------------------------------------ names of types
    def literal_guards(self, f, node):
        """[(text, truth)] of contain("text") on the way to node."""
        out = []
        for cn, br in edge_guards(f, block_of(f, node)):
            for m, truth, _ in atoms(self.sy, cn, br):
                m = unwrap(m)
                if m.is_call():
                    lits = [a.d["s"] for a in m.walk() if a.k == "StringLiteral" and not a.d["s"].startswith("__")]
                    if len(lits) == 1 and (m.k == "CXXOperatorCallExpr" or m.callee is not None and bare(m.type) == "bool"):
                        out.append((lits[0], truth))
        return out

    def conversions(self, what, n, g):
        f = g.body
        for x in f.live_nodes():
            if x.is_call() and x.callee is not None and x.callee.name == "to" and x.callee.cls is not None and x.callee.cls.startswith("TAT::Tensor<"):
                ty = (x.callee.d.get("targs") or [None])[0]
                gs = self.literal_guards(f, x)
                pos = [t for t, tr in gs if tr]
                neg = {t for t, tr in gs if not tr}
                if len(pos) != 1 or pos[0] not in TEXT:
                    self.undec()
                    continue
                t = pos[0]
                if SCALAR[TEXT[t]] != ty:
                    self.vio("to:" + t, n, "wrong-type", "%s: a type whose name contains %s is converted to %s" % (what, t, ty))
                else:
                    self.c.count("conversions by name")
                    for longer in TEXT:
                        if t in longer and longer != t and longer not in neg and TEXT[longer] != TEXT[t]:
                            self.vio("to-order:" + t, n, "wrong-type", "%s: %s is taken for %s" % (what, longer, t))

    def hub(self, g, n):
        f = g.body
        for x in f.live_nodes():
            if x.k == "CXXOperatorCallExpr" and x.callee is not None and x.callee.name == "operator=" and len(x.args) == 2:
                d = unwrap(x.args[0])
                lit = [y.d["s"] for y in x.args[1].walk() if y.k == "StringLiteral"]
                if d.k != "DeclRefExpr" or d.var is None or len(lit) != 1:
                    continue
                pos = [t for t, tr in self.literal_guards(f, x) if tr]
                if lit[0] in SCALAR:
                    ts = [t for t in pos if t in TEXT and len(t) > 1]
                    if len(ts) == 1:
                        if TEXT[ts[0]] != lit[0]:
                            self.vio("hub:" + ts[0], n, "wrong-type", "hub: %s stands for the scalar %s" % (ts[0], lit[0]))
                        else:
                            self.c.count("types by name")
                    else:
                        self.undec()
                elif lit[0] in ("U1", "Z2", "Fermi"):
                    if len(pos) == 1 and pos[0] in ("U1", "Z2", "Fermi"):
                        if pos[0] != lit[0]:
                            self.vio("hub:" + pos[0], n, "wrong-type", "hub: %s stands for %s" % (pos[0], lit[0]))
                        else:
                            self.c.count("types by name")

    def types(self):
        seen = set()
        for f in self.p.repo_fns():
            if f.nocfg:
                continue
            for n in f.live_nodes():
                if not n.is_call() or n.callee is None or n.callee.name not in ("declare_tensor", "declare_symmetry", "declare_edge"):
                    continue
                ta = n.callee.d.get("targs") or []
                lits = [x for x in (self.text(a) for a in n.args) if x is not None]
                if n.callee.name == "declare_tensor" and len(ta) >= 2 and len(lits) == 3:
                    sc, _, sy = lits
                    self.c.count("registered tensor types")
                    seen.add((ta[0], ta[1]))
                    if SCALAR.get(sc, ta[0]) != ta[0]:
                        self.c.violation("type:%s%s" % (sc, sy), n.args[0].loc, "wrong-type", "the tensor type %s%s holds %s" % (sc, sy, ta[0]))
                    if "TAT::%sSymmetry" % sy != ta[1]:
                        self.c.violation("type:%s%s" % (sc, sy), n.args[0].loc, "wrong-type", "the tensor type %s%s has the symmetry %s" % (sc, sy, ta[1]))
                elif n.callee.name != "declare_tensor" and ta and len(lits) == 1:
                    self.c.count("registered symmetry and edge types")
                    if "TAT::%sSymmetry" % lits[0] != ta[0]:
                        self.c.violation("type:%s:%s" % (n.callee.name, lits[0]), n.args[0].loc, "wrong-type", "%s(%s) is made for %s" % (n.callee.name, lits[0], ta[0]))
        if seen:
            scs, sys_ = {s for s, _ in seen}, {y for _, y in seen}
            for s in SCALAR.values():
                for y in sys_:
                    if (s, y) not in seen:
                        self.c.violation("type-missing:%s:%s" % (s, y), REPO + "/PyTAT/PyTAT.cpp:1", "missing-type", "there is no tensor type for %s and %s" % (s, y))

    # ------------------------------------------------------------ blocks as arrays
    def buffer(self, n, cls):
        cb = self.callable(n.params_args[0])
        if cb is None or cb[0] != "body":
            self.undec()
            return
        f = cb[1].body
        what = "array of " + re.sub(r"<.*", "", cls).replace("TAT::", "")
        stores = {}
        for x in f.live_nodes():
            if x.k == "BinaryOperator" and x.op == "=":
                s = self.subscript(x.kids[0])
                if s is not None:
                    stores.setdefault(s[0], []).append((self.index(s[1]), x.kids[1], x))
        info = [x for x in f.live_nodes() if x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and bare(x.type) == "pybind11::buffer_info" and len(x.args) >= 6]
        if len(info) != 1:
            self.undec()
            return
        a = info[0].args
        dim, lead = self.source(a[4]), self.source(a[5])
        if dim is None or lead is None or dim not in stores or lead not in stores:
            self.undec()
            return
        ok = True
        item = unwrap(a[1])
        sc = re.sub(r"^[^<]*<", "", cls).split(", TAT::")[0]
        # a permutation in front
        if len(stores[dim]) == 1 and len(stores[lead]) == 1:
            i1, r1, x1 = stores[dim][0]
            i2, r2, x2 = stores[lead][0]
            s1, s2 = self.subscript(r1), self.subscript(r2)
            if s1 is not None and s2 is not None and isinstance(s1[0], int) and isinstance(s2[0], int):
                j1, j2 = self.index(s1[1]), self.index(s2[1])
                if j2 is None and j1 is not None and i1 == i2 or j1 is None and j2 is not None and i1 == i2:
                    alt = self.alternatives(s2[1] if j2 is None else s1[1])
                    if alt and any(x is not None and x != (j1 or j2) for x in alt):
                        self.c.violation("array-order:" + what, x2.loc, "wrong-layout", "%s: dimension and stride of a position are taken from different edges in some cases" % what)
                        return
                if i1 is None or j1 is None or j2 is None:
                    ok = False
                elif i1 != i2 or j1 != j2:
                    self.c.violation("array-order:" + what, x2.loc, "wrong-layout", "%s: dimension and stride of a position are taken from different edges" % what)
                    return
                elif j1[0] == "v":
                    # j is the position of the name at i
                    init = self.sy.tables(f)[0].get(j1[1])
                    idx = [self.index(s[1]) for y in (init.walk() if init is not None else []) for s in [self.subscript(y)] if s is not None]
                    if init is None:
                        ok = False
                    elif idx and i1 not in idx:
                        self.c.violation("array-order:" + what, x1.loc, "wrong-layout", "%s: the edge of a position does not depend on the name at this position" % what)
                        return
                elif j1 == i1 and "ordered" in cls and "unordered" not in cls:
                    self.c.violation("array-order:" + what, x1.loc, "wrong-layout", "%s: the requested order of the names is not used" % what)
                    return
                dim, lead = s1[0], s2[0]
                if dim not in stores or lead not in stores:
                    ok = False    # filled elsewhere
            elif (s1 is None) != (s2 is None):
                ok = False
        # dimension i belongs to edge i and to the sector of name i
        if len(stores.get(dim, ())) == 1:
            i, r, x = stores[dim][0]
            idx = []
            if self.subscript(r) is not None:
                self.undec()    # taken from another array
                return
            for y in self.deep(r):
                s = self.subscript(y)
                if s is not None:
                    k = self.index(s[1])
                    if k is not None:
                        idx.append(k)
            if not idx:
                ok = False
            elif any(k != i for k in idx):
                self.c.violation("array-dimension:" + what, x.loc, "wrong-layout", "%s: the dimension of an edge is taken from another edge" % what)
                return
        else:
            ok = False
        # strides: the last is the size of an element, others multiply the dimensions behind
        good = 0
        for i, r, x in stores.get(lead, ()):
            r = unwrap(r)
            if r.k == "UnaryExprOrTypeTraitExpr":
                at = self.p.types[r.d["at"]]
                if at != sc:
                    self.c.violation("array-item:" + what, x.loc, "wrong-layout", "%s: the stride of the last edge is the size of %s" % (what, at))
                    return
                good += 1
            elif r.k == "BinaryOperator" and r.op == "*":
                ss = [self.subscript(k) for k in r.kids]
                if None in ss or {s[0] for s in ss} != {dim, lead}:
                    bad = None not in ss and all(s[0] in (dim, lead) for s in ss)
                    if bad:
                        self.c.violation("array-stride:" + what, x.loc, "wrong-layout", "%s: a stride is not the next stride times the next dimension" % what)
                        return
                    ok = False
                    continue
                ks = [self.index(s[1]) for s in ss]
                nxt = ("+", i, 1)
                if None in ks or i is None:
                    ok = False
                elif ks != [nxt, nxt]:
                    # same recurrence seen from the other side: leadings[i - 1] = leadings[i] * dimensions[i]
                    if not (i[0] == "+" and i[2] == -1 and ks == [i[1], i[1]]):
                        self.c.violation("array-stride:" + what, x.loc, "wrong-layout", "%s: the stride of an edge is not the product of the dimensions behind it" % what)
                        return
                    good += 1
                else:
                    good += 1
            else:
                ok = False
        if ok and good == 2:
            self.c.count("array layouts")
        else:
            self.undec()

    def deep(self, n, depth=0):
        for y in n.walk():
            yield y

    def subscript(self, n):
        n = unwrap(n)
        if n.is_call() and n.callee is not None and n.callee.name in ("operator[]", "at") and n.obj is not None and len(n.params_args) == 1 or n.k == "CXXOperatorCallExpr" and n.callee is not None and n.callee.name == "operator[]" and len(n.args) == 2:
            o = unwrap(n.obj if n.obj is not None else n.args[0])
            i = n.params_args[0] if n.obj is not None else n.args[1]
            if "vector" not in o.type and "array" not in o.type:
                return None
            if o.k == "DeclRefExpr" and o.var is not None:
                return o.var, i
            return ("?", o.id), i
        return None

    def changed(self, f, v):
        for x in f.nodes():
            if x.k == "UnaryOperator" and x.op in ("++", "--") or x.k == "CompoundAssignOperator" or x.k == "BinaryOperator" and x.op == "=":
                y = x.kids[0].strip()
                if y.k == "DeclRefExpr" and y.var == v:
                    return True
        return False

    def alternatives(self, n):
        n = unwrap(n)
        if n.k != "ConditionalOperator" or len(n.kids) != 3:
            return []
        if any(x.op == "==" for x in [n.kids[0].strip()]) and {self.index(x) for x in n.kids[0].strip().kids} == {self.index(x) for x in n.kids[1:]}:
            return []
        return [self.index(x) for x in n.kids[1:]]

    def index(self, n, depth=0):
        n = unwrap(n)
        if n.k == "DeclRefExpr" and n.var is not None:
            tb = self.sy.tables(n.fn)
            i = tb[0].get(n.var)
            if i is not None and not tb[2].get(n.var) and depth < 4 and not self.p.vtype(n.var).rstrip().endswith("*"):
                r = unwrap(i)
                # another name of an index
                if (r.k == "DeclRefExpr" or r.k == "BinaryOperator" and r.op in ("+", "-")) and not self.changed(n.fn, n.var):
                    w = self.index(r, depth + 1)
                    if w is not None:
                        return w
            return ("v", n.var)
        if n.k == "BinaryOperator" and n.op in ("+", "-"):
            a, b = self.index(n.kids[0]), n.kids[1].strip().iv
            if a is not None and b is not None:
                return ("+", a, b if n.op == "+" else -b)
            b, a = self.index(n.kids[1]), n.kids[0].strip().iv
            if n.op == "+" and a is not None and b is not None:
                return ("+", b, a)
        return None

    def source(self, n):
        n = unwrap(n)
        for x in n.walk():
            if x.k == "DeclRefExpr" and x.var is not None:
                return x.var
        return None

    # ------------------------------------------------------------ operators
    def operators(self, ops):
        """ops: class -> set of operator forms."""
        for cls, have in sorted(ops.items()):
            if cls.startswith("TAT::Tensor<"):
                for o, s in OPERATORS:
                    if (o, s) in have:
                        self.c.count("operators")
                    else:
                        self.c.violation("operator:Tensor:%s:%s" % (o, s), have_loc(have), "missing-operator", "Tensor: %s of %s is not there" % (o[3:], {"ss": "two tensors", "ns": "a number and a tensor", "sn": "a tensor and a number"}[s]))
            elif cls.endswith("Symmetry") or cls.startswith("TAT::") and "Symmetry" in cls and "<" not in cls:
                for o in SYMOPS:
                    if any(x == o for x, _ in have):
                        self.c.count("operators")
                    else:
                        self.c.violation("operator:Symmetry:%s" % o, have_loc(have), "missing-operator", "Symmetry: %s is not there" % o[3:])

    def run(self):
        regs = list(self.registrations())
        self.pynames = {self.text(n.params_args[0]) for f, n, how, cls in regs if n.params_args and self.text(n.params_args[0])}
        ops = {}
        for f, n, how, cls in regs:
            self.c.count("registrations")
            try:
                self.judge(f, n, how, cls, ops)
            except RecursionError:
                raise
            except (AttributeError, TypeError, KeyError, IndexError, ValueError):
                self.undec()
        self.operators(ops)
        self.types()

    def judge(self, f, n, how, cls, ops):
        if how == "def_buffer":
            self.buffer(n, cls)
            return
        if self.check_named(f, n, cls, how):
            if cls is None and self.text(n.params_args[0]) == "hub":
                cb = self.callable(n.params_args[1])
                if cb is not None and cb[0] == "body":
                    self.hub(cb[1], n)
            return
        t = bare(n.params_args[0].strip().type) if n.params_args else ""
        m = re.match(r"pybind11::detail::op_<pybind11::detail::(op_\w+), pybind11::detail::(op_\w), (.*)>$", t)
        if m and cls is not None:
            o, side, rest = m.groups()
            self_first = rest.startswith("pybind11::detail::self_t")
            both = rest.count("self_t") == 2
            form = "ss" if both else ("ns" if side == "op_r" else "sn")
            ops.setdefault(cls, set()).add((o, form))
            return
        if "initimpl::pickle_factory" in t:
            self.pickle(n, cls)
            return
        if "initimpl::constructor<" in t and cls is not None:
            an = [x[0] for x in self.pyargs(n.params_args[1:])]
            fs = self.fields.get(cls, [])
            i = self.crossed(an, fs)
            if i is not None and all(x in fs for x in an):
                self.vio("names:%s" % cls, n, "crossed-arguments", "%s: the argument named %s initialises %s" % (cls, an[i], fs[i]))
            else:
                self.c.count("constructors")
            return
        self.c.count("functions of the module alone")

    def pickle(self, n, cls):
        ls = [x for x in n.params_args[0].walk() if x.k == "LambdaExpr"]
        fs = [self.callable(x) for x in ls]
        if len(fs) != 2 or None in fs:
            self.undec()
            return
        names = [{x.callee.name for x, e in self.visit(g, {}) if x.is_call() and x.callee is not None} for _, g in fs]
        for want, other, got in (("dump", "load", names[0]), ("load", "dump", names[1])):
            if want not in got and other in got or not ({"dump", "load", "show", "copy"} & got):
                self.vio("pickle:%s" % cls, n, "wrong-operation", "pickling of %s does not use %s" % (re.sub(r"<.*", "", cls), want))
                return
        self.c.count("methods forwarded by a function")


def have_loc(have):
    return REPO + "/PyTAT/PyTAT.cpp:1"


def body(c):
    c.rules += [
        "a registration reaches the C++ operation of its name, on its own object, with each argument in the parameter of the same place and name",
        "no argument is ignored; defaults are those of the C++ operation; results come in the order of the C++ result",
        "a method that returns the object returns it by reference; a method that changes the object does not work on a copy",
        "names of types stand for the scalar and symmetry they say; every operator exists in every order of operands",
        "a block seen as an array has the dimensions of its edges in the requested order and the strides of row-major storage",
    ]
    c.assumptions += ["pybind11 converts arguments and results by their types", "functions of the module alone (random numbers, text, hash) are judged for ignored and exchanged arguments only"]
    inc = ["-I" + d for d in ("/usr/include/python3.12",) if os.path.isdir(d)]
    if not inc:
        import glob
        inc = ["-I" + d for d in sorted(glob.glob("/usr/include/python3.*"))[-1:]]
    cached = os.environ.get("C14_FACTS")
    if cached:
        import json
        from ir import Prog
        p = Prog(json.load(open(cached)), "PyTAT.cpp")
    else:
        p = extract(REPO + "/PyTAT/PyTAT.cpp", inc, roots=[REPO + "/PyTAT/", "+records:" + REPO + "/include/TAT/"], mpi=True)
    Py(c, p).run()
    if not c.viol:
        c.need("registrations", 100)
        c.need("methods bound directly", 20)


if __name__ == "__main__":
    report.main("C14", "comparison of every pybind11 registration in the instantiated syntax tree with the C++ operation it names: target, flow of arguments, defaults, ownership, operators, types, array layout", body)
