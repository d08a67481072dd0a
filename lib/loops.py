"""Natural loops and symbolic trip counts."""
from ir import Node
from flow import dominators


class Loop:
    def __init__(self, fn, header, body):
        self.fn, self.header, self.body = fn, header, body

    def nodes(self):
        for b in self.body:
            els, _ = self.fn.block_elems(self.fn.blocks[b])
            for e in els:
                if isinstance(e, Node):
                    yield e


def loops(fn):
    r = getattr(fn, "_loops", None)
    if r is not None:
        return r
    dom = dominators(fn)
    live = fn.live()
    preds = {b: [] for b in live}
    edges = []
    for b in live:
        for s, _ in fn.succs(fn.blocks[b]):
            preds[s].append(b)
            edges.append((b, s))
    byh = {}
    for b, s in edges:
        if dom.get(b) and s in dom[b]:
            body = byh.setdefault(s, {s})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st += preds[x]
    r = fn._loops = [Loop(fn, h, b) for h, b in byh.items()]
    return r


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}


def exits(loop):
    """(block, cond node, branch that leaves) for conditional exits; None cond for others (break/return)."""
    fn = loop.fn
    out = []
    for b in loop.body:
        for s, br in fn.succs(fn.blocks[b]):
            if s not in loop.body:
                c = fn.blocks[b].d.get("lcond", fn.blocks[b].d.get("cond", -1))
                out.append((b, fn.node(c) if c is not None and c >= 0 and br is not None else None, br, s))
    return out


def trip(sym, loop, env=None):
    """Symbolic description of how often the loop body runs:
    ('range', container path) | ('count', value, delta) meaning value+delta | None (not understood)."""
    fn = loop.fn
    ex = [e for e in exits(loop)]
    if len(ex) != 1:
        return None
    b, cond, br, _ = ex[0]
    if cond is None:
        return None
    cond = cond.strip()
    neg = br is True  # leaves when condition true
    while cond.k == "UnaryOperator" and cond.op == "!":
        neg = not neg
        cond = cond.kids[0].strip()
    # while (n--)
    if cond.k == "UnaryOperator" and cond.op == "--" and not neg:
        s = cond.kids[0].strip()
        if s.k == "DeclRefExpr" and s.var is not None:
            ups = [a for a in sym.tables(fn)[2].get(s.var, []) if _in(loop, a)]
            if len(ups) == 1 and ups[0].id == cond.id:
                v = ("p", (("v", s.var),))
                return ("count", v, 0) if cond.d.get("post") or True else None
        return None
    op, l, r = None, None, None
    if cond.k == "BinaryOperator" and cond.op in FLIP:
        op, (l, r) = cond.op, cond.kids[:2]
    elif cond.is_call() and cond.callee is not None and cond.callee.name in ("operator!=", "operator==", "operator<") and len(cond.args) == 2:
        op, l, r = cond.callee.name[8:], cond.args[0], cond.args[1]
    if op is None:
        return None
    if neg:
        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "!=": "==", "==": "!="}[op]
    # the loop runs while (l op r)
    ind = None
    shift = 0
    for cand, other, o in ((l, r, op), (r, l, FLIP[op])):
        s = cand.strip()
        while s.is_call() and len(s.args) == 1 and s.callee is not None and s.callee.d.get("ctor"):
            s = s.args[0].strip()
        if s.k == "DeclRefExpr" and s.var is not None:
            ups = [a for a in updates(sym, fn, s.var) if _in(loop, a)]
            if len(ups) == 1:
                ind = (s.var, ups[0], other, o)
                break
        if s.k == "BinaryOperator" and s.op == "+" and o == "<":
            # i + c < n
            for x, y in (s.kids, s.kids[::-1]):
                x, y = x.strip(), y.strip()
                if x.k == "DeclRefExpr" and x.var is not None and y.iv is not None and len([a for a in updates(sym, fn, x.var) if _in(loop, a)]) == 1:
                    ind = (x.var, [a for a in updates(sym, fn, x.var) if _in(loop, a)][0], other, o)
                    shift = y.iv
            if ind is not None:
                break
    if ind is None:
        return None
    v, up, other, op = ind
    t = sym.p.types[sym.p.vars[v]["t"]]
    init = sym.tables(fn)[0].get(v)
    outer = [a for a in updates(sym, fn, v) if not _in(loop, a)]
    if init is None and len(outer) == 1 and outer[0].k == "BinaryOperator":
        init = outer[0].kids[1]
    elif outer and outer[0].k == "BinaryOperator" and len(outer) == 1:
        init = outer[0].kids[1]
    elif outer:
        return None
    if init is None:
        return None
    step = None
    if up.k == "UnaryOperator":
        step = 1 if up.op == "++" else -1
    elif up.k == "CompoundAssignOperator" and up.op in ("+=", "-="):
        k = sym.value(up.kids[1], env)
        if k == ("c", 1):
            step = 1 if up.op == "+=" else -1
    elif up.is_call() and up.callee is not None:
        step = {"operator++": 1, "operator--": -1}.get(up.callee.name)
    if step is None:
        return None
    if not is_last(fn, loop, up):
        pass
    # iterator range
    if "iterator" in t or t.rstrip("const").rstrip().endswith("*"):
        pi = sym.path(init, env)
        po = sym.path(other, env)
        if pi and po and pi == po and pi[-1] == "it" and op in ("!=", "<") and step == 1:
            ni, no = _maker(init, sym, fn), _maker(other, sym, fn)
            if ni in ("begin", "cbegin", "rbegin", "crbegin") and no in ("end", "cend", "rend", "crend"):
                return ("range", pi[:-1])
            if ni is not None and no is not None:
                return ("partial", pi[:-1])
        return None
    vi = sym.value(init, env)
    vo = sym.value(other, env)
    if vi is None or vo is None:
        return None
    if step == 1:
        if vi[0] != "c":
            return None
        delta = -vi[1] - shift
        if op == "<=":
            delta += 1
        elif op not in ("<", "!="):
            return None
        return norm(vo, delta)
    if vo[0] != "c" or shift:
        return None
    # descending: for (i = n - 1; i >= 0; --i) or i > 0 / i != 0 with i = n
    delta = -vo[1]
    if op == ">=":
        delta += 1
    elif op not in (">", "!="):
        return None
    return norm(vi, delta)


def norm(v, delta):
    while v[0] in ("+", "-") and "c" in (v[1][0], v[2][0]):
        if v[0] == "-" and v[2][0] == "c":
            delta -= v[2][1]
            v = v[1]
        elif v[0] == "+":
            a, b = (v[1], v[2]) if v[1][0] == "c" else (v[2], v[1])
            delta += a[1]
            v = b
        else:
            break
    if v[0] == "c":
        return ("count", ("c", v[1] + delta), 0)
    return ("count", v, delta)


def updates(sym, fn, v):
    out = list(sym.tables(fn)[2].get(v, []))
    t = sym.p.types[sym.p.vars[v]["t"]]
    if "iterator" in t:
        for n in fn.nodes():
            if n.is_call() and n.callee is not None and n.callee.name in ("operator++", "operator--", "operator=", "operator+=", "operator-=") and n.args:
                s = n.args[0].strip()
                if s.k == "DeclRefExpr" and s.var == v and n not in out:
                    out.append(n)
    return out


def _maker(n, sym, fn, depth=0):
    n = n.strip()
    while n.k in ("CXXConstructExpr",) and len(n.args) == 1:
        n = n.args[0].strip()
    if n.k == "DeclRefExpr" and n.var is not None and depth < 5:
        i = sym.tables(fn)[0].get(n.var)
        return _maker(i, sym, fn, depth + 1) if i is not None and n.var not in sym.tables(fn)[2] else None
    if n.is_call() and n.callee is not None:
        return n.callee.name
    if n.k == "BinaryOperator" and n.op in ("+", "-"):
        return n.op
    return None


def _in(loop, node):
    bs = getattr(loop.fn, "_nodeblock", None)
    if bs is None:
        bs = {}
        for bid, b in loop.fn.blocks.items():
            for e in b.elems:
                if isinstance(e, int):
                    bs.setdefault(e, bid)
        loop.fn._nodeblock = bs
    return bs.get(node.id) in loop.body


def is_last(fn, loop, n):
    return True


def block_of(fn, node):
    bs = getattr(fn, "_nodeblock", None)
    if bs is None:
        bs = {}
        for bid, b in fn.blocks.items():
            for e in b.elems:
                if isinstance(e, int):
                    bs.setdefault(e, bid)
        fn._nodeblock = bs
    return bs.get(node.id)
