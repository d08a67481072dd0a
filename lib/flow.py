"""Generic forward dataflow over an extracted CFG."""
from ir import Node


def forward(fn, init, transfer, join, refine=None, equal=None, max_iter=20000):
    """Returns (in-states per block id, out-states).  transfer(elem, state)->state;
    refine(block, cond_node, branch, state)->state or None (infeasible)."""
    ins = {fn.entry: init}
    outs = {}
    work = [fn.entry]
    n = 0
    while work:
        n += 1
        if n > max_iter:
            raise RuntimeError("dataflow does not converge in " + fn.info.pretty)
        bid = work.pop()
        b = fn.blocks[bid]
        st = ins[bid]
        els, dead = fn.block_elems(b)
        for e in els:
            st = transfer(e, st)
        outs[bid] = st
        for s, br in fn.succs(b):
            ns = st
            if refine is not None and br is not None:
                c = b.d.get("lcond", b.d.get("cond", -1))
                if c is not None and c >= 0:
                    ns = refine(b, fn.node(c), br, st)
                    if ns is None:
                        continue
            if s not in ins:
                ins[s] = ns
                work.append(s)
            else:
                j = join(ins[s], ns)
                if j != ins[s]:
                    ins[s] = j
                    work.append(s)
    return ins, outs


def parents(fn):
    """child node id -> list of parent node ids (cached)."""
    p = getattr(fn, "_parents", None)
    if p is None:
        p = {}
        for i, d in enumerate(fn.raw):
            for c in d["c"]:
                p.setdefault(c, []).append(i)
            if d["k"] == "DeclStmt":
                for x in d["ds"]:
                    for b in x.get("bindings", []):
                        for key in ("e", "hi"):
                            if key in b and b[key] >= 0:
                                pass
        fn._parents = p
    return p


def dominators(fn):
    """Block dominators over live blocks: bid -> set of dominating bids."""
    d = getattr(fn, "_dom", None)
    if d is not None:
        return d
    live = fn.live()
    preds = {b: [] for b in live}
    for b in live:
        for s, _ in fn.succs(fn.blocks[b]):
            preds[s].append(b)
    order = []
    seen = set()

    def dfs(x):
        st = [(x, iter([s for s, _ in fn.succs(fn.blocks[x])]))]
        seen.add(x)
        while st:
            y, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter([q for q, _ in fn.succs(fn.blocks[s])])))
                    break
            else:
                order.append(y)
                st.pop()
    dfs(fn.entry)
    order.reverse()
    dom = {b: None for b in order}
    dom[fn.entry] = {fn.entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == fn.entry:
                continue
            ps = [dom[p] for p in preds[b] if dom.get(p) is not None]
            if not ps:
                continue
            nd = set.intersection(*ps) | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    fn._dom = dom
    return dom
