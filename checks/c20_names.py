"""C20: edge names are interned one-to-one and compared by value.

A small abstract interpreter follows every path of the functions that create a name.  The registry
is abstracted to (counter C, table text->number, list number->text) with the invariant that the
list has C entries and the table holds exactly list[i] -> i; each path must re-establish it."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import report
from ir import Node, REPO, VERIF, extract_many
from poly import Poly, const, sym, anf_const, add, TOP
from loops import loops, trip
from sym import Sym

DS = "TAT::fast_name_dataset_t"
KEY = ("key",)
ROLE = {}


class Undecided(Exception):
    pass


def role(t):
    t = t.replace("const ", "")
    if re.match(r"std::(unordered_)?map<std::basic_string", t):
        return "map"
    if re.match(r"std::(vector|deque)<std::basic_string", t):
        return "vec"
    if t in ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "long long", "unsigned long long"):
        return "num"
    return None


class Reg(Poly):
    """Paths over the registry."""

    def __init__(self, prog, gvar, fields):
        super().__init__(prog)
        self.gvar, self.fields = gvar, fields
        self.mappath = (("g",), [f for f, r in fields.items() if r == "map"][0])
        self.vecpath = (("g",), [f for f, r in fields.items() if r == "vec"][0])

    def start(self):
        env = {}
        for f, r in self.fields.items():
            if r == "num":
                self.put(env, (("g",), f), sym("C"))
        env[("m", ("#ins",))] = const(0)
        env[("m", ("#push",))] = ("list", ())
        env[("m", ("#found",))] = None
        return env

    def get(self, env, path):
        v = env.get(("m", path))
        if v is not None:
            return v
        return super().get(env, path)

    def ev(self, n, env, vals, this, depth):
        if n.id in vals:
            return vals[n.id]
        if n.k == "DeclRefExpr" and n.var in self.gvar:
            return ("loc", (("g",),))
        if n.k == "DeclRefExpr" and n.var is not None and self.p.vars[n.var]["k"] == "binding":
            r = env.get(("ref", depth, n.var))
            return r if r is not None else ("loc", ((depth, n.var),))
        if n.k == "MemberExpr" and "fn" not in n.d and n.kids:
            b = self.ev(n.kids[0], env, vals, this, depth)
            if b is not None and b[0] == "it":
                return ("loc", self.mappath + (("at",), n.d["m"]))
            if b is not None and b[0] == "loc":
                bv = env.get(("m", b[1]))
                if bv is not None and bv[0] == "it":
                    return ("loc", self.mappath + (("at",), n.d["m"]))
                if bv is not None and bv[0] == "rec":
                    return dict(bv[1]).get(n.d["m"], TOP)
        if n.k == "StringLiteral":
            return ("text", n.d.get("s"))
        return super().ev(n, env, vals, this, depth)

    def is_map(self, v):
        return v is not None and v[0] == "loc" and v[1] == self.mappath

    def is_vec(self, v):
        return v is not None and v[0] == "loc" and v[1] == self.vecpath

    def fork(self, env):
        """Possible answers to 'is the text registered already'."""
        k = env.get(("m", ("#found",)))
        if k is not None:
            return [(env, k == ("yes",))]
        out = []
        for b in (True, False):
            e = dict(env)
            e[("m", ("#found",))] = ("yes",) if b else ("no",)
            if b:
                e[("m", self.mappath + (("at",), "second"))] = sym("V")
                e[("m", self.mappath + (("at",), "first"))] = KEY
            out.append((e, b))
        return out

    def insert(self, env, v):
        env[("m", ("#ins",))] = add(env[("m", ("#ins",))], const(1))
        env[("m", self.mappath + (("at",), "second"))] = v
        env[("m", self.mappath + (("at",), "first"))] = KEY
        # from now on the text is registered
        env[("m", ("#found",))] = ("yes",)
        env[("m", ("#new",))] = ("yes",)

    def elem(self, fn, e, env, vals, cons, this, depth):
        if isinstance(e, Node):
            n = e
            one = [(env, vals, cons, None)]
            if n.k == "UnaryOperator" and n.op in ("++", "--"):
                l = self.ev(n.kids[0], env, vals, this, depth)
                if l is None or l[0] != "loc":
                    raise Undecided("increment of an unknown object")
                old = self.get(env, l[1])
                new = add(old, const(1), 1 if n.op == "++" else -1)
                self.put(env, l[1], new)
                vals[n.id] = old if n.d.get("post") else l
                return one
            if n.k == "BinaryOperator" and n.op == "=":
                l = self.ev(n.kids[0], env, vals, this, depth)
                if l is not None and l[0] == "loc" and l[1][:2] == self.mappath:
                    if env.get(("m", ("#new",))) is None:
                        env[("m", ("#over",))] = ("yes",)
            if n.k == "DeclStmt":
                for d in n.d["ds"]:
                    if d.get("bindings"):
                        v = self.rv(fn.node(d["init"]), env, vals, this, depth)
                        if v[0] != "rec":
                            raise Undecided("structured binding of an unknown value")
                        for b, (_, x) in zip(d["bindings"], v[1]):
                            self.put(env, ((depth, b["v"]),), x)
                        return one
            if n.is_call():
                r = self.model(fn, n, env, vals, cons, this, depth)
                if r is not None:
                    return r
        r = super().elem(fn, e, env, vals, cons, this, depth)
        return r

    def keyof(self, v, env):
        if v is not None and v[0] == "loc":
            v = self.get(env, v[1])
        return v == KEY

    def model(self, fn, n, env, vals, cons, this, depth):
        c = self.p.resolve(n)
        if c is None:
            raise Undecided("indirect call")
        one = [(env, vals, cons, None)]
        o = self.ev(n.obj, env, vals, this, depth) if n.obj is not None else None
        args = [self.ev(a, env, vals, this, depth) or TOP for a in n.params_args if a.k != "CXXDefaultArgExpr"]
        val = lambda a: self.get(env, a[1]) if a is not None and a[0] == "loc" else a
        nm = c.name
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if re.match(r"(const )?std::(basic_string|basic_string_view)<", n.type) and args:
                vals[n.id] = val(args[0])
                return one
            if re.match(r"(const )?std::pair<", n.type) and len(args) == 2:
                vals[n.id] = ("rec", (("first", val(args[0])), ("second", val(args[1]))))
                return one
            if re.search(r"(_iterator|_Rb_tree|_Node)", n.type) and len(args) == 1:
                vals[n.id] = val(args[0])
                return one
            return None
        if c.q in ("std::make_pair", "std::pair") and len(args) == 2:
            vals[n.id] = ("rec", (("first", val(args[0])), ("second", val(args[1]))))
            return one
        if self.is_map(o):
            if nm in ("end", "cend"):
                vals[n.id] = ("end",)
                return one
            if nm in ("find", "count", "contains", "operator[]", "at", "emplace", "try_emplace", "insert", "insert_or_assign"):
                if nm in ("insert", "emplace") and len(args) == 1:
                    v = val(args[0])
                    if v[0] == "list" and len(v[1]) == 2:
                        v = ("rec", (("first", v[1][0]), ("second", v[1][1])))
                    if v[0] != "rec":
                        raise Undecided("insertion of an unknown pair")
                    args = [v[1][0][1], v[1][1][1]]
                if not self.keyof(args[0], env):
                    raise Undecided("the table is accessed with another text")
                second = [val(a) for a in args[1:]]
                out = []
                for e, f in self.fork(env):
                    vs = dict(vals)
                    if nm == "find":
                        vs[n.id] = ("it",) if f else ("end",)
                    elif nm in ("count", "contains"):
                        vs[n.id] = const(1 if f else 0) if nm == "count" else anf_const(f)
                    elif nm == "at":
                        if not f:
                            continue
                        vs[n.id] = ("loc", self.mappath + (("at",), "second"))
                    elif nm == "operator[]":
                        if not f:
                            self.insert(e, const(0))
                        vs[n.id] = ("loc", self.mappath + (("at",), "second"))
                    else:
                        if not f:
                            self.insert(e, second[0] if second else const(0))
                        elif nm == "insert_or_assign" and e.get(("m", ("#new",))) is None:
                            e[("m", ("#over",))] = ("yes",)
                        vs[n.id] = ("rec", (("first", ("it",)), ("second", anf_const(not f))))
                    out.append((e, vs, cons, None))
                return out
            if nm in ("size",):
                vals[n.id] = add(sym("C"), env[("m", ("#ins",))])
                return one
            if c.is_const:
                vals[n.id] = TOP
                return one
            raise Undecided("the table is modified by " + nm)
        if self.is_vec(o):
            ps = env[("m", ("#push",))][1]
            if nm in ("push_back", "emplace_back") and len(args) == 1:
                env[("m", ("#push",))] = ("list", ps + (val(args[0]),))
                vals[n.id] = TOP
                return one
            if nm == "size":
                vals[n.id] = add(sym("C"), const(len(ps)))
                return one
            if nm in ("operator[]", "at") and len(args) == 1:
                vals[n.id] = ("nth", val(args[0]))
                return one
            if nm == "back" and ps:
                vals[n.id] = ps[-1]
                return one
            if nm in ("reserve", "shrink_to_fit", "capacity", "empty") or c.is_const:
                vals[n.id] = TOP
                return one
            raise Undecided("the list is modified by " + nm)
        if nm in ("operator==", "operator!=") and len(n.args) == 2:
            a, b = [val(self.ev(x, env, vals, this, depth)) for x in n.args]
            if a in (("it",), ("end",)) and b in (("it",), ("end",)):
                vals[n.id] = anf_const((a == b) == (nm == "operator=="))
                return one
        if nm in ("operator->", "operator*") and (n.obj is not None or len(n.args) == 1):
            a = val(o if o is not None else self.ev(n.args[0], env, vals, this, depth))
            if a == ("it",):
                vals[n.id] = ("loc", self.mappath + (("at",),))
                return one
            if a == ("end",):
                env[("m", ("#deref",))] = ("yes",)
                vals[n.id] = TOP
                return one
        if nm == "empty" and o is not None and self.keyof(o, env):
            # the empty text is registered from the start, with number 0
            out = []
            for b in (True, False):
                e = dict(env)
                k = e.get(("m", ("#empty",)))
                if k is not None and k != (("yes",) if b else ("no",)):
                    continue
                e[("m", ("#empty",))] = ("yes",) if b else ("no",)
                if b and (e.get(("m", ("#new",))) is not None or e.get(("m", ("#found",))) == ("no",)):
                    continue
                if b and e.get(("m", ("#found",))) is None:
                    e = [x for x, y in self.fork(e) if y][0]
                out.append((e, dict(vals) | {n.id: anf_const(b)}, cons, None))
            return out
        if c.q in ("std::move", "std::forward", "std::as_const") and len(n.args) == 1:
            vals[n.id] = self.ev(n.args[0], env, vals, this, depth)
            return one
        if re.match(r"std::.*basic_string.*::(basic_string|operator basic_string_view|c_str|data)$", c.q) and o is not None:
            vals[n.id] = val(o)
            return one
        if c.body is None or not c.in_repo:
            if any(a[0] == "loc" and a[1][:1] == (("g",),) for a in [x for x in args if x] + ([o] if o else [])) and not c.is_const:
                raise Undecided("the registry is handed to " + c.q)
        return None


def registry(p):
    for r in p.records:
        if r["q"] == DS:
            fs = {}
            for f in r["fields"]:
                fs[f["n"]] = role(p.types[f["t"]])
            return r, fs
    return None, None


def initial(c, p, r, fs):
    """The registry starts as a bijection between its list and its table."""
    li = {f["n"]: f.get("lits") for f in r["fields"]}
    v = [li[n] for n, k in fs.items() if k == "vec"][0]
    m = [li[n] for n, k in fs.items() if k == "map"][0]
    num = [(n, li[n]) for n, k in fs.items() if k == "num"]
    if v is None or m is None or any(x is None or len(x) != 1 for _, x in num):
        c.count("initial states not decided")
        return
    if any(not isinstance(x, str) for x in v) or len(m) % 2 or any(not isinstance(a, str) or not isinstance(b, int) for a, b in zip(m[::2], m[1::2])):
        c.count("initial states not decided")
        return
    c.count("initial states")
    where = "%s:%d" % (p.files[r["f"]], r["l"])
    for n, x in num:
        if x[0] != len(v):
            c.violation("initial:" + n, where, "registry-start", "%s starts at %s but the list of names starts with %d entries" % (n, x[0], len(v)))
    t = dict(zip(m[::2], m[1::2]))
    if t != {s: i for i, s in enumerate(v)}:
        c.violation("initial:table", where, "registry-start", "the table %s does not number the entries of the initial list %s" % (t, v))
    if "" not in v or v.index("") != 0:
        c.violation("initial:empty", where, "registry-start", "number 0, the default name, is not the empty text")


def check_creation(c, p, fs, gvars):
    for f in p.repo_fns():
        i = f.info
        if f.nocfg or i.clsn != "TAT::FastName" or not i.is_ctor or len(i.params) != 1:
            continue
        t = i.param_types[0]
        if not re.search(r"basic_string|char \*|char const", t):
            continue
        c.count("functions that create names")
        R = Reg(p, gvars, fs)
        this = ("loc", (("this",),))
        env = R.start()
        try:
            R.put(env, (("arg",),), KEY)
            rs = R.run(f, this, [("loc", (("arg",),)) if t.endswith("&") else KEY], env)
        except Undecided as e:
            c.count("functions not decided")
            c.sample("%s not decided: %s" % (i.pretty, e))
            continue
        if rs is None:
            c.count("functions not decided")
            c.sample("%s not decided" % i.pretty)
            continue
        idf = [x["n"] for r in p.records if r["q"] == "TAT::FastName" for x in r["fields"]]
        for ret, st, cons in rs:
            em = st.get(("m", ("#empty",)))
            if any(x[0] == "zero" and x[1] == sym("V") for x in cons) and em == ("no",) or any(x[0] == "nonzero" and x[1] == sym("V") for x in cons) and em == ("yes",):
                continue
            c.count("paths")
            new = st.get(("m", ("#new",))) is not None
            ins = st[("m", ("#ins",))]
            ps = st[("m", ("#push",))][1]
            idv = R.get(st, (("this",), idf[0]))
            if idv is not None and idv[0] == "rec":
                idv = dict(idv[1]).get(idf[0], TOP)
            found = st.get(("m", ("#found",)))
            if st.get(("m", ("#deref",))):
                c.violation("deref:" + i.q, i.loc, "name-lookup", "%s reads the result of a failed lookup" % i.q)
            if st.get(("m", ("#over",))):
                c.violation("over:" + i.q, i.loc, "name-renumbered", "%s overwrites the number of a text that is registered already" % i.q)
                continue
            if found is None:
                c.violation("nolookup:" + i.q, i.loc, "name-not-interned", "%s creates a name without looking the text up" % i.q)
                continue
            V = R.get(st, R.mappath + (("at",), "second"))
            if new:
                c.count("paths that register a new text")
                if V != sym("C"):
                    c.violation("number:" + i.q, i.loc, "name-number", "%s stores %s as the number of a new text instead of its place in the list" % (i.q, show(V)))
                if ps != (KEY,):
                    c.violation("list:" + i.q, i.loc, "name-list", "%s appends %d entries to the list of names for one new text" % (i.q, len(ps)) if len(ps) != 1 else "%s appends something else than the new text to the list" % i.q)
                want = sym("C")
                nums = {n: R.get(st, (("g",), n)) for n, k in fs.items() if k == "num"}
                for n, v in nums.items():
                    if v != add(sym("C"), const(1)):
                        c.violation("counter:%s:%s" % (i.q, n), i.loc, "name-counter", "%s leaves %s at %s after registering a new text" % (i.q, n, show(v)))
            else:
                c.count("paths that find a text")
                if ps or ins != const(0) or any(R.get(st, (("g",), n)) != sym("C") for n, k in fs.items() if k == "num"):
                    c.violation("grow:" + i.q, i.loc, "name-counter", "%s changes the registry although the text is registered already" % i.q)
                want = sym("V")
            if found == ("no",) and not new:
                c.violation("notadded:" + i.q, i.loc, "name-not-interned", "%s does not register a text that is not in the table" % i.q)
            elif idv != want:
                c.violation("id:%s:%s" % (i.q, new), i.loc, "name-number", "%s gives the name the number %s instead of %s" % (i.q, show(idv), show(want)))


def show(v):
    if v is None:
        return "?"
    if v[0] == "lin":
        s = " + ".join(("%s" % k if x == 1 else "%s*%s" % (x, k)) for k, x in v[1])
        return (s + (" + %d" % v[2] if v[2] else "")) if s else str(v[2])
    return v[0]


OPS = {"operator==": (False, True, False), "operator!=": (True, False, True), "operator<": (True, False, False),
       "operator>": (False, False, True), "operator<=": (True, True, False), "operator>=": (False, True, True)}


def evb(p, n, env, order, depth=0):
    """Truth of a comparison expression when id of name_1 is {<,==,>} id of name_2 (order -1, 0, 1)."""
    n = n.strip()
    if n.iv is not None:
        return ("n", n.iv)
    if depth > 8:
        return None
    if n.k == "UnaryOperator" and n.op == "!":
        v = evb(p, n.kids[0], env, order, depth + 1)
        return None if v is None or v[0] != "n" else ("n", not v[1])
    if n.k == "DeclRefExpr" and n.var in env:
        return env[n.var]
    if n.k == "CXXThisExpr":
        return env.get("this")
    if n.k == "UnaryOperator" and n.op == "*":
        return evb(p, n.kids[0], env, order, depth + 1)
    if n.k == "MemberExpr" and "fn" not in n.d and n.kids:
        v = evb(p, n.kids[0], env, order, depth + 1)
        return ("id", v[1]) if v is not None and v[0] == "name" else None
    if n.k == "BinaryOperator":
        a, b = (evb(p, k, env, order, depth + 1) for k in n.kids)
        if n.op in ("&&", "||"):
            if a is None or b is None or a[0] != "n" or b[0] != "n":
                return None
            return ("n", bool(a[1]) and bool(b[1]) if n.op == "&&" else bool(a[1]) or bool(b[1]))
        if a is None or b is None:
            return None
        if n.op == "-" and a[0] == "id" and b[0] == "id":
            return ("diff", 0 if a[1] == b[1] else (order if a[1] == 1 else -order))
        # a difference of numbers (at least 0 each, so it cannot overflow) against -1, 0 or 1:
        # both a small and a large difference must agree
        if "diff" in (a[0], b[0]) and "n" in (a[0], b[0]):
            got = set()
            for big in (1, 1000):
                x, y = (k[1] * big if k[0] == "diff" else int(k[1]) for k in (a, b))
                got.add({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}.get(n.op))
            return ("n", got.pop()) if len(got) == 1 and None not in got else None
        if a[0] == "id" and b[0] == "id":
            d = 0 if a[1] == b[1] else (order if a[1] == 1 else -order)
        elif a[0] == "n" and b[0] == "n":
            d = (a[1] > b[1]) - (a[1] < b[1])
        else:
            return None
        return ("n", {"==": d == 0, "!=": d != 0, "<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0}.get(n.op)) if n.op in ("==", "!=", "<", ">", "<=", ">=") else None
    if n.k.endswith("CallExpr"):
        c = p.resolve(n)
        if c is None or c.body is None:
            return None
        e = {}
        for v, a in zip(c.params, n.params_args):
            e[v] = evb(p, a, env, order, depth + 1)
        if n.obj is not None:
            e["this"] = evb(p, n.obj, env, order, depth + 1)
        return result(p, c.body, e, order, depth + 1)
    return None


def result(p, f, env, order, depth=0):
    rets = [n for n in f.live_nodes() if n.k == "ReturnStmt" and n.kids]
    if len(rets) != 1 or len([b for b in f.live() if len(f.succs(f.blocks[b])) > 1]) and any(n.k == "DeclStmt" for n in f.live_nodes()):
        return None
    return evb(p, rets[0].kids[0], env, order, depth)


def check_compare(c, p):
    for f in p.repo_fns():
        i = f.info
        if f.nocfg or i.name not in OPS:
            continue
        pt = [t.replace("const ", "").rstrip("& ") for t in i.param_types]
        if pt == ["TAT::FastName", "TAT::FastName"]:
            envf = lambda: {i.params[0]: ("name", 1), i.params[1]: ("name", 2)}
        elif i.clsn == "TAT::FastName" and pt == ["TAT::FastName"]:
            envf = lambda: {"this": ("name", 1), i.params[0]: ("name", 2)}
        else:
            continue
        got = [result(p, f, envf(), o) for o in (-1, 0, 1)]
        if any(g is None or g[0] != "n" for g in got):
            c.count("comparisons not decided")
            continue
        c.count("comparisons of names")
        if tuple(bool(g[1]) for g in got) != OPS[i.name]:
            c.violation("compare:" + i.name, i.loc, "name-comparison", "%s of two names does not compare their numbers with %s" % (i.name, i.name[8:]))


def check_text(c, p, fs):
    """The text of a name is the entry of the list at its number."""
    vec = [f for f, k in fs.items() if k == "vec"][0]
    s = Sym(p)
    for f in p.repo_fns():
        i = f.info
        if f.nocfg:
            continue
        conv = i.clsn == "TAT::FastName" and i.name.startswith("operator") and re.search(r"basic_string|char \*", i.ret)
        for n in f.live_nodes():
            if n.k == "CXXOperatorCallExpr" and n.callee and n.callee.name == "operator[]" or n.k == "CXXMemberCallExpr" and n.callee and n.callee.name == "at":
                b = n.obj.strip() if n.obj is not None else None
                if b is None or b.k != "MemberExpr" or b.d.get("m") != vec:
                    continue
                if not (conv or any(t.replace("const ", "").rstrip("& ") == "TAT::FastName" for t in i.param_types)):
                    continue
                c.count("texts of names")
                x = n.params_args[0].strip()
                ok = x.k == "MemberExpr" and x.type.replace("const ", "") in ("int", "unsigned int", "long", "unsigned long")
                if not ok and x.k in ("BinaryOperator", "UnaryOperator"):
                    c.violation("text:" + i.q, n.loc, "name-text", "%s takes the text of a name at another place than its number" % i.q)


def check_reload(c, p, fs):
    """Reading a stored list numbers it from 0 in order."""
    mp = [f for f, k in fs.items() if k == "map"][0]
    vec = [f for f, k in fs.items() if k == "vec"][0]
    for f in p.repo_fns():
        if f.nocfg or not any(t.replace("const ", "").rstrip("& ") == DS for t in f.info.param_types) or f.info.name not in ("operator>", "operator>>"):
            continue
        c.count("functions that load the registry")
        for nf in [x for x, k in fs.items() if k == "num"]:
            asg = []
            for n in f.nodes():
                if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+=") or n.k == "UnaryOperator" and n.op == "++":
                    l = n.kids[0].strip()
                    if l.k == "MemberExpr" and l.d.get("m") == nf:
                        asg.append(n)
            passes = any(any(a.type.replace("const ", "").rstrip("& ") == DS for a in n.args) and p.resolve(n) is not None and p.resolve(n).body is not None for n in f.calls())
            if not asg and not passes and not any(n.is_call() and n.callee and n.callee.name == "operator=" and n.args and n.args[0].type.replace("const ", "").rstrip("& ") == DS for n in f.nodes()):
                c.violation("reloadcount:" + f.info.q, f.info.loc, "name-counter", "loading the registry leaves %s at its old value" % nf)
            for n in asg:
                r = n.kids[1].strip() if len(n.kids) > 1 else None
                if n.op == "=" and r is not None and r.k == "BinaryOperator" and r.op in ("+", "-") and any(k.strip().iv not in (None, 0) for k in r.kids) and any(
                        k.strip().is_call() and k.strip().callee and k.strip().callee.name == "size" for k in r.kids):
                    c.violation("reloadcount:" + f.info.q, n.loc, "name-counter", "loading the registry sets %s to another value than the number of texts" % nf)
        for lp in loops(f):
            for n in lp.nodes():
                if n.k == "BinaryOperator" and n.op == "=":
                    l = n.kids[0].strip()
                    if l.is_call() and l.callee and l.callee.name == "operator[]" and l.obj is not None and l.obj.strip().k == "MemberExpr" and l.obj.strip().d.get("m") == mp:
                        key = l.params_args[0].strip()
                        val = n.kids[1].strip()
                        if val.k == "BinaryOperator" and val.op in ("+", "-") and key.is_call() and key.params_args and any(k.strip().iv not in (None, 0) for k in val.kids):
                            ix = key.params_args[0].strip()
                            if ix.k == "DeclRefExpr" and any(k.strip().k == "DeclRefExpr" and k.strip().var == ix.var for k in val.kids):
                                c.violation("reload:" + f.info.q, n.loc, "name-number", "loading the registry gives the text at one place the number of another")
                        if key.is_call() and key.callee and key.callee.name in ("operator[]", "at") and val.k == "DeclRefExpr":
                            ix = key.params_args[0].strip()
                            c.count("renumbering loops")
                            if ix.k != "DeclRefExpr" or ix.var != val.var:
                                c.violation("reload:" + f.info.q, n.loc, "name-number", "loading the registry gives the text at one place the number of another")
                            init = [d for m in f.nodes() if m.k == "DeclStmt" for d in m.d["ds"] if d["v"] == val.var]
                            if init and init[0].get("init", -1) >= 0 and f.node(init[0]["init"]).strip().iv not in (0, None):
                                c.violation("reload0:" + f.info.q, n.loc, "name-number", "loading the registry does not number the texts from 0")


FAMILY = [("Contract_0", "Contract_1", "Contract_2"), ("SVD_U", "SVD_V"), ("QR_1", "QR_2"), ("Trace_1", "Trace_2", "Trace_3"), ("Exp_1", "Exp_2")]


def check_reserved(c, p):
    groups = {}
    for v in p.vars:
        q = v.get("q", "")
        if "InternalName" in q and v.get("lits") is not None:
            groups.setdefault(p.types[v["t"]], {})[v["n"]] = tuple(v["lits"])
    for t, g in groups.items():
        for fam in FAMILY:
            have = [(n, g[n]) for n in fam if n in g]
            if len(have) > 1:
                c.count("groups of reserved names")
            for a in range(len(have)):
                for b in range(a):
                    if have[a][1] == have[b][1] and have[a][1]:
                        c.violation("reserved:%s:%s" % (have[b][0], have[a][0]), "%s/include/TAT/name.hpp:1" % REPO, "reserved-name", "the reserved names %s and %s are the same, but both name an edge of one intermediate tensor" % (have[b][0], have[a][0]))
        if "int" != t.replace("const ", ""):
            for n, l in g.items():
                if len(l) == 1 and isinstance(l[0], str) and not l[0].startswith("@"):
                    c.count("reserved names")
                    if not re.search(r"[,\[\]{}:\s]", l[0]):
                        c.violation("ordinary:" + n, "%s/include/TAT/name.hpp:1" % REPO, "reserved-name", "the reserved name %s is the ordinary text \"%s\", which an edge of the user may have" % (n, l[0]))


def body(c):
    c.rules += [
        "every path of a constructor of a name from text either finds the text and takes its number, or appends the text to the list, enters it in the table with its place in the list and advances the counter",
        "names are compared by comparing numbers with the operator's own relation (truth table over the three orders)",
        "the text of a name is the list entry at its number; loading a stored list numbers it in order",
        "the reserved names of one operation are pairwise different and not ordinary texts",
    ]
    c.assumptions += ["the registry has fewer than 2^31 names and is not changed by two threads at once"]
    H = os.path.join(VERIF, "harness", "names_all.cpp")
    jobs = [(H, [], False)] + ([(H, ["-DTAT_USE_SIMPLE_NAME"], False)] if c.thorough else [])
    for p in extract_many(jobs):
        r, fs = registry(p)
        c.require(r is not None and sorted(k for k in fs.values() if k in ("map", "vec")) == ["map", "vec"], "the registry of names is not a table and a list of texts")
        gv = {k for k, v in enumerate(p.vars) if v["k"] in ("global", "static") and p.types[v["t"]].replace("const ", "") == DS}
        initial(c, p, r, fs)
        check_creation(c, p, fs, gv)
        check_compare(c, p)
        check_text(c, p, fs)
        check_reload(c, p, fs)
        check_reserved(c, p)
    c.need("functions that create names", 1)


report.main("C20", "abstract interpretation of the name registry", body)
