"""Wire-format analysis: what a writer puts on a stream and what a reader takes off it.

Every function that takes a stream is turned into an automaton over transfers
(element type, object path) by inlining repository callees; a block transfer of
n elements is a loop of single transfers.  Two formats agree when the automata
accept the same sequences.
"""
import re
from ir import Node, AnalysisBroken
from flow import dominators, forward
from sym import Sym
from loops import loops, trip, block_of

OST = re.compile(r"^(const )?std::(basic_)?ostream\b|^(const )?std::basic_(o|io)stringstream|^(const )?std::basic_ofstream|^(const )?std::basic_ostream<")
IST = re.compile(r"^(const )?std::(basic_)?istream\b|^(const )?std::basic_(i|io)stringstream|^(const )?std::basic_ifstream|^(const )?std::basic_istream<")
INTW = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}


def is_stream(t, rx):
    return bool(rx.match(t))


def canon(t):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    t = re.sub(r" ?(\*|&|&&|const)$", "", t).strip()
    if t in INTW and t not in ("bool",):
        return "int%d" % INTW[t]
    return t


def canon_elem(t):
    """Pointee/element type of a pointer type string."""
    t = t.strip()
    for _ in range(3):
        t = re.sub(r"\s*(const|__restrict)$", "", t)
    if t.endswith("*"):
        t = t[:-1].strip()
    if t.startswith("const "):
        t = t[6:]
    t = re.sub(r"\s*const$", "", t)
    return t


class Tok:
    __slots__ = ("type", "path", "node", "val", "bulk", "n", "raw")

    def __init__(self, type, path, node, val=None, bulk=False, n=None, raw=None):
        self.type, self.path, self.node, self.val, self.bulk, self.n, self.raw = type, path, node, val, bulk, n, raw


class NFA:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.tr = {}
        self.start = self.new()
        self.accept = self.new()

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def t(self, a, tok, b):
        self.tr.setdefault(a, []).append((tok, b))


GOOD = {"operator bool": True, "operator!": False, "fail": False, "bad": False, "eof": False, "good": True}


class Wire:
    def __init__(self, prog, rx, op):
        self.p = prog
        self.rx = rx
        self.op = op  # "write" / "read"
        self.sym = Sym(prog)
        self.transfers = []   # all raw transfers met (node, fn, env, ptr node, size node, path, elemtype)
        self.unknown = []

    def stream_arg(self, n):
        """Does this call pass a stream to repo code or transfer on one?"""
        c = self.p.resolve(n)
        if c is None:
            return None
        o = n.obj
        if o is not None and is_stream(o.strip().type or o.type, self.rx):
            return c
        for a in n.args:
            if is_stream(a.strip().type or a.type, self.rx):
                return c
        return None

    def build(self, fn, env, nfa=None, src=None, stack=()):
        """Adds fn's automaton; returns (nfa, end state)."""
        top = nfa is None
        if top:
            nfa = NFA()
            src = nfa.start
        if fn.info.id in stack:
            self.unknown.append(("recursion", fn.info.pretty))
            end = nfa.new()
            nfa.e(src, end)
            return nfa, end
        if len(stack) > 24:
            raise AnalysisBroken("wire inlining too deep in " + fn.info.pretty)
        end = nfa.new()
        start = {b: nfa.new() for b in fn.live()}
        nfa.e(src, start[fn.entry])
        for bid in fn.live():
            b = fn.blocks[bid]
            cur = start[bid]
            els, dead = fn.block_elems(b)
            for el in els:
                if not isinstance(el, Node) or not el.is_call():
                    continue
                c = self.stream_arg(el)
                if c is None:
                    continue
                cur = self.call(nfa, cur, fn, el, c, env, stack)
            if dead or any(isinstance(x, Node) and x.k == "CXXThrowExpr" for x in els):
                continue
            if bid == fn.exit:
                nfa.e(cur, end)
                continue
            for s, br in fn.succs(b):
                if br is not None and self.bad_stream_branch(fn, b, br):
                    continue
                nfa.e(cur, start[s])
        if fn.exit in start:
            nfa.e(start[fn.exit], end)
        if top:
            nfa.e(end, nfa.accept)
        return nfa, end

    def bad_stream_branch(self, fn, b, br):
        c = b.d.get("lcond", b.d.get("cond", -1))
        if c is None or c < 0:
            return False
        n = fn.node(c).strip()
        want = br
        while n.k == "UnaryOperator" and n.op == "!":
            want = not want
            n = n.kids[0].strip()
        if n.is_call() and n.callee is not None and n.callee.name in GOOD and n.obj is not None and ("basic_ios" in (n.callee.cls or "") or "stream" in (n.callee.cls or "")):
            return GOOD[n.callee.name] != want
        return False

    def call(self, nfa, cur, fn, n, c, env, stack):
        if c.body is not None and c.in_repo:
            sub = self.sym.call_env(n, c, env)
            for i, a in enumerate(n.params_args):
                if i < len(c.params):
                    v = self.sym.value(a, env)
                    if v is not None and v[0] in ("size", "c"):
                        sub[("val", c.params[i])] = v
            _, end = self.build(c.body, sub, nfa, cur, stack + (fn.info.id,))
            return end
        if c.name == self.op and c.cls and "stream" in c.cls:
            return self.transfer(nfa, cur, fn, n, env)
        if c.name in ("operator=", "move", "forward", "rdbuf", "str", "flush", "operator bool", "operator!", "fail", "good", "bad", "eof", "clear", "setstate", "exceptions", "imbue", "basic_istringstream", "basic_ostringstream", "basic_stringstream", "tellg", "tellp", "peek", "gcount", "~basic_ostringstream"):
            return cur
        if c.is_ctor:
            return cur
        # some other stream call: an opaque transfer
        self.unknown.append((c.q, n.loc))
        nxt = nfa.new()
        t = Tok("call:" + c.name, None, n)
        nfa.t(cur, t, nxt)
        return nxt

    def transfer(self, nfa, cur, fn, n, env):
        ptr, size = n.params_args[0], n.params_args[1]
        # strip casts but remember the type before the cast to char*
        s = ptr
        while s.k in ("ImplicitCastExpr", "ParenExpr", "CXXReinterpretCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr"):
            ks = s.kids
            s = ks[-1]
        elem = canon_elem(s.type)
        if s.k == "DeclRefExpr" and s.var is not None:
            i = self.sym.tables(fn)[0].get(s.var)
            if i is not None:
                s2 = i
                while s2.k in ("ImplicitCastExpr", "ParenExpr", "CXXReinterpretCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr"):
                    s2 = s2.kids[-1]
                elem = canon_elem(s2.type)
                s = s2
        single = s.k == "UnaryOperator" and s.op == "&"
        if s.is_call() and s.callee is not None and s.callee.q == "std::addressof":
            single = True
        path = self.sym.path(s, env)
        val = None
        if single:
            val = self.sym.value(s.kids[0] if s.k == "UnaryOperator" else s.args[0], env)
        bulk_n, unit = None, None
        self.transfers.append((n, fn, env, s, size, path, elem, single))
        base = path
        if path and path[-1] == "it":
            base = path[:-1]
        tok = Tok(canon(elem), base if single else (base + ("[]",) if base else None), n, val, not single, raw=elem)
        if single and size.strip().iv is not None or single and size.iv is not None:
            nxt = nfa.new()
            nfa.t(cur, tok, nxt)
            return nxt
        # block transfer: a loop of single transfers
        nxt = nfa.new()
        nfa.e(cur, nxt)
        nfa.t(nxt, tok, nxt)
        return nxt


def closure(nfa, S):
    st = list(S)
    out = set(S)
    while st:
        x = st.pop()
        for y in nfa.eps.get(x, ()):
            if y not in out:
                out.add(y)
                st.append(y)
    return frozenset(out)


def named(path, fields):
    """Only the named fields of repository records; None when not rooted at the object."""
    if path is None or path[0] != ("obj",):
        return None
    return tuple(s for s in path[1:] if s in fields)


def compare(w, r, fields):
    """Breadth-first product of the determinised automata.
    Returns (states, transitions, mismatch or None)."""
    s0 = (closure(w, [w.start]), closure(r, [r.start]))
    seen = {s0: ()}
    work = [s0]
    nt = 0
    while work:
        cur = work.pop(0)
        W, R = cur
        hist = seen[cur]
        if (w.accept in W) != (r.accept in R):
            return len(seen), nt, ("end", hist, None, None, W, R)

        def group(nfa, S):
            g = {}
            for x in S:
                for tok, y in nfa.tr.get(x, ()):
                    g.setdefault(tok.type, []).append((tok, y))
            return g
        gw, gr = group(w, W), group(r, R)
        for ty in set(gw) | set(gr):
            nt += 1
            if ty not in gw or ty not in gr:
                a = gw.get(ty) or gr.get(ty)
                return len(seen), nt, ("type", hist, a[0][0], ty in gw, [t for l in gw.values() for t, _ in l], [t for l in gr.values() for t, _ in l])
            pw = {named(t.path, fields) for t, _ in gw[ty]}
            pr = {named(t.path, fields) for t, _ in gr[ty]}
            if None not in pw and None not in pr and not (pw & pr):
                return len(seen), nt, ("path", hist, gw[ty][0][0], gr[ty][0][0], pw, pr)
            nxt = (closure(w, [y for _, y in gw[ty]]), closure(r, [y for _, y in gr[ty]]))
            if nxt not in seen:
                seen[nxt] = hist + (ty,)
                work.append(nxt)
    return len(seen), nt, None
