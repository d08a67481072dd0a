"""Conditions known to hold where a node is evaluated."""
from ir import Node
from flow import dominators
from loops import block_of


def edge_guards(fn, bid):
    """[(cond node, branch)] of CFG edges that every path from the entry to block bid takes."""
    cache = fn.__dict__.setdefault("_eguards", {})
    if bid in cache:
        return cache[bid]
    dom = dominators(fn)
    out = []
    if bid not in dom or dom[bid] is None:
        cache[bid] = out
        return out
    for d in dom[bid]:
        if d == bid:
            continue
        blk = fn.blocks[d]
        cn = blk.d.get("lcond", blk.d.get("cond", -1))
        if cn is None or cn < 0:
            continue
        ss = fn.succs(blk)
        if len(ss) == 1 and ss[0][1] is not None and len([x for x in blk.succs if x >= 0]) == 1:
            continue
        for s, br in ss:
            if br is None:
                continue
            # is bid reachable when edge d->s is removed?
            seen, st = set(), [fn.entry]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for y, b2 in fn.succs(fn.blocks[x]):
                    if x == d and y == s and b2 == br:
                        continue
                    st.append(y)
            if bid not in seen:
                out.append((fn.node(cn), br))
    cache[bid] = out
    return out


def atoms(sy, n, br, env=None, depth=0):
    """Split a condition with known truth value into atomic (node, truth, env)."""
    if depth > 10:
        return [(n, br, env)]
    n = n.strip()
    if n.k == "UnaryOperator" and n.op == "!":
        return atoms(sy, n.kids[0], not br, env, depth + 1)
    if n.k == "BinaryOperator" and n.op == "&&":
        if br:
            return atoms(sy, n.kids[0], br, env, depth + 1) + atoms(sy, n.kids[1], br, env, depth + 1)
        return [(n, br, env)]
    if n.k == "BinaryOperator" and n.op == "||":
        if not br:
            return atoms(sy, n.kids[0], br, env, depth + 1) + atoms(sy, n.kids[1], br, env, depth + 1)
        return [(n, br, env)]
    if n.k == "DeclRefExpr" and n.var is not None and sy.p.vars[n.var]["k"] == "local" and sy.p.types[sy.p.vars[n.var]["t"]] in ("bool", "const bool"):
        init, bind, assigned = sy.tables(n.fn)
        if n.var in init and n.var not in assigned:
            return [(n, br, env)] + atoms(sy, init[n.var], br, env, depth + 1)
    if n.k == "CallExpr" or n.k == "CXXMemberCallExpr" or n.k == "CXXOperatorCallExpr":
        c = sy.p.resolve(n)
        if c is not None and c.body is not None and c.in_repo and c.ret in ("bool", "const bool") and not c.body.nocfg:
            rets = [r for r in c.body.live_nodes() if r.k == "ReturnStmt" and r.kids]
            if len(rets) == 1:
                e2 = sy.call_env(n, c, env)
                return [(n, br, env)] + atoms(sy, rets[0].kids[0], br, e2, depth + 1)
    return [(n, br, env)]


def guards(sy, fn, node, env=None):
    b = block_of(fn, node)
    if b is None:
        return []
    out = []
    for cn, br in edge_guards(fn, b):
        out += atoms(sy, cn, br, env)
    return out


REL = {"operator==": "==", "operator!=": "!=", "operator<": "<", "operator>": ">", "operator<=": "<=", "operator>=": ">="}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}


def relation(n, truth=True):
    """(op, left, right) of a comparison known to be `truth`, or None."""
    n = n.strip()
    while n.k == "UnaryOperator" and n.op == "!":
        truth = not truth
        n = n.kids[0].strip()
    if n.k == "BinaryOperator" and n.op in FLIP:
        return (n.op if truth else NEG[n.op]), n.kids[0], n.kids[1]
    if n.is_call() and n.callee is not None and n.callee.name in REL and len(n.args) == 2:
        o = REL[n.callee.name]
        return (o if truth else NEG[o]), n.args[0], n.args[1]
    return None


def control_conditions(fn, bid):
    """Condition nodes that decide (transitively) whether block bid is executed: control dependence
    over paths that reach the normal exit."""
    cache = fn.__dict__.setdefault("_cdeps", {})
    if "direct" not in cache:
        live = fn.live()
        succ = {b: [s for s, _ in fn.succs(fn.blocks[b])] for b in live}
        for b in live:
            if fn.prog.throws_in_block(fn, fn.blocks[b]):
                succ[b] = []
        # blocks that can reach the exit normally
        ok = {fn.exit} if fn.exit in live else set()
        ch = True
        while ch:
            ch = False
            for b in live:
                if b not in ok and any(s in ok for s in succ[b]):
                    ok.add(b)
                    ch = True
        succ = {b: [s for s in succ[b] if s in ok] for b in ok}
        pd = {b: set(ok) for b in ok}
        if fn.exit in ok:
            pd[fn.exit] = {fn.exit}
        ch = True
        while ch:
            ch = False
            for b in ok:
                if b == fn.exit or not succ[b]:
                    continue
                n = set.intersection(*[pd[s] for s in succ[b]]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        direct = {b: set() for b in ok}
        for d in ok:
            if len(set(succ[d])) < 2:
                continue
            for s in succ[d]:
                for x in pd[s]:
                    if x == d or x not in pd[d]:
                        direct[x].add(d)
        cache["direct"] = direct
    direct = cache["direct"]
    seen, st = set(), [bid]
    while st:
        x = st.pop()
        for d in direct.get(x, ()):
            if d not in seen:
                seen.add(d)
                st.append(d)
    out = []
    for d in seen:
        blk = fn.blocks[d]
        cn = blk.d.get("lcond", blk.d.get("cond", -1))
        if cn is not None and cn >= 0:
            out.append(fn.node(cn))
    return out
