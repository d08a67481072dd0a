import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import re
import report
from ir import REPO, Node, extract_many
from flow import dominators, forward
from loops import loops, trip, block_of, exits
from sym import Sym
from wire import Wire, OST, IST, is_stream, canon, compare, named, INTW
from targets import tensor_jobs, square_jobs, H, inst

# fields that are functions of other fields and are recomputed on reading (rule C16 checks the recomputation)
DERIVED = {
    ("TAT::Tensor", "name_to_index"): "index table of `names`",
    ("TAT::fast_name_dataset_t", "name_to_id"): "inverse of id_to_name",
    ("TAT::fast_name_dataset_t", "names_total_index"): "length of id_to_name",
}
GROW = {"emplace_back", "push_back", "operator[]", "insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint", "push_front", "append"}
RESET = {"clear", "assign", "resize", "operator=", "reset", "swap"}


def xtype(t):
    t = re.sub(r"\s*&+$", "", t)
    return t[6:] if t.startswith("const ") else t


def pairs(p):
    """(label, writer fn, reader fn, writer env, reader env, object type)"""
    W, R, MW, MR, FW, FR = {}, {}, {}, {}, {}, {}
    for f in p.repo_fns():
        i = f.info
        pts = i.param_types
        if i.name == "operator<" and len(pts) == 2 and is_stream(pts[0], OST) and not pts[0].endswith("&&"):
            W[xtype(pts[1])] = f
        elif i.name == "operator>" and len(pts) == 2 and is_stream(pts[0], IST) and not pts[0].endswith("&&"):
            R[xtype(pts[1])] = f
        elif i.cls and i.name in ("meta_put", "data_put", "dump"):
            MW[(i.cls, {"meta_put": "meta", "data_put": "data", "dump": "dump"}[i.name])] = f
        elif i.cls and i.name in ("meta_get", "data_get", "load"):
            if i.name == "load" and not any(True for n in f.calls() if p.resolve(n) is not None and any(is_stream(a.strip().type, IST) for a in n.args)):
                continue
            MR[(i.cls, {"meta_get": "meta", "data_get": "data", "load": "dump"}[i.name])] = f
        elif i.cls is None and i.name.startswith("dump_"):
            FW[i.name[5:]] = f
        elif i.cls is None and i.name.startswith("load_"):
            FR[i.name[5:]] = f
    O = (("obj",),)
    for t in W:
        if t in R:
            w, r = W[t], R[t]
            yield ("operator< / operator> for " + t, w, r, {w.info.params[1]: O}, {r.info.params[1]: O}, t)
    for k in MW:
        if k in MR:
            yield ("%s of %s" % (k[1], k[0]), MW[k], MR[k], {"this": O}, {"this": O}, None)
    for k in FW:
        if k in FR:
            yield (k, FW[k], FR[k], {}, {}, None)


def short(t):
    return re.sub(r"<.*", "", t)


def factors(sym, n, env):
    """Flattened product: (constant, [other factor values]); sizeof counts as constant."""
    v = sym.value(n, env)
    if v is None:
        return None
    c, o = 1, []
    st = [v]
    while st:
        x = st.pop()
        if x[0] == "*":
            st += [x[1], x[2]]
        elif x[0] == "c":
            c *= x[1]
        else:
            o.append(x)
    return c, o


class Reader:
    """Walks a reader with the set of containers known to be empty or about to be overwritten."""

    def __init__(self, c, p, key):
        self.c, self.p, self.sym, self.key = c, p, Sym(p), key
        self.seen = set()

    def run(self, fn, env, fresh, stack=()):
        sig = (fn.info.id, tuple(sorted((str(k), v) for k, v in env.items() if isinstance(v, tuple))), fresh)
        if sig in self.seen or fn.info.id in stack or fn.nocfg:
            return fresh
        self.seen.add(sig)
        out = [None]

        def covered(path, fr):
            return any(path[:k] in fr for k in range(1, len(path) + 1))

        def transfer(e, fr):
            if not isinstance(e, Node):
                return fr
            if e.k == "DeclStmt":
                add = set()
                for d in e.d["ds"]:
                    t = self.p.types[self.p.vars[d["v"]]["t"]]
                    if not t.endswith("&") and not t.endswith("*"):
                        add.add((("v", d["v"]),))
                return fr | frozenset(add)
            if e.k == "BinaryOperator" and e.op == "=":
                pa = self.sym.path(e.kids[0], env)
                return fr | {pa} if pa else fr
            if not e.is_call():
                return fr
            callee = self.p.resolve(e)
            if callee is None:
                return fr
            o = e.obj
            if o is not None and not (callee.body is not None and callee.in_repo and not callee.cls.startswith("TAT::fake_map")):
                pa = self.sym.path(o, env)
                if pa is not None and not e.d.get("dead"):
                    if callee.name in GROW and not callee.is_const and self.is_container(o):
                        self.c.count("container growths in readers")
                        if pa[0] == ("obj",) and not covered(pa, fr) and not self.const_key(e):
                            self.c.violation("stale:%s:%s" % (self.key, ".".join(str(x) for x in pa[1:])), e.loc, "reader-keeps-old-elements",
                                             "%s adds to a container of the object being read that was not emptied first: elements of the previous value survive reading" % fn.info.pretty)
                    if callee.name in RESET and not callee.is_const:
                        return fr | {pa}
                return fr
            if callee.body is not None and callee.in_repo:
                sub = self.sym.call_env(e, callee, env)
                return self.run_call(callee.body, sub, fr, stack + (fn.info.id,))
            return fr

        ins, outs = forward(fn, fresh, transfer, lambda a, b: a & b)
        return ins.get(fn.exit, fresh)

    def run_call(self, fn, sub, fr, stack):
        r = self.run(fn, sub, fr, stack)
        return r | fr

    def is_container(self, o):
        t = o.strip().type
        return "std::" in t or "TAT::vector" in t or "pmr" in t

    def const_key(self, e):
        """map[K()] with a default constructed, stateless key: the single entry is overwritten in place."""
        if e.callee.name != "operator[]":
            return False
        a = e.params_args
        if not a:
            return False
        s = a[0].strip()
        return s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXScalarValueInitExpr", "InitListExpr") and not s.args and "NoSymmetry" in s.type


def field_use(p, sym, fn, env, seen, out, write, depth=0):
    """Field paths below the object that the function (with callees) touches."""
    sig = (fn.info.id, tuple(sorted((str(k), v) for k, v in env.items() if isinstance(v, tuple))))
    if sig in seen or depth > 20 or fn.nocfg:
        return
    seen.add(sig)
    for n in fn.live_nodes():
        if n.k == "MemberExpr" and "fn" not in n.d:
            pa = sym.path(n, env)
            if pa and pa[0] == ("obj",):
                out.add(pa[1:])
        elif n.is_call():
            c = p.resolve(n)
            if c is not None and c.body is not None and c.in_repo:
                sub = sym.call_env(n, c, env)
                if any(isinstance(v, tuple) and v and v[0] == ("obj",) for v in sub.values()):
                    field_use(p, sym, c.body, sub, seen, out, write, depth + 1)


def body(c):
    c.rules += [
        "wire automata: for every writer/reader pair the two functions (callees inlined) transfer the same sequences of element types from/to the same fields",
        "element counts put on the wire are 64-bit, block transfers move sizeof(element)*count bytes, and loops run exactly as often as the transferred count",
        "readers empty every container of the destination before filling it",
        "every stored field of a serialised class is written and read (derived tables excepted)",
    ]
    c.assumptions += ["writer and reader run on machines with the same ABI (the format is the memory representation)", "std::map/std::vector iterate size() elements"]
    jobs = tensor_jobs(c.thorough) + square_jobs(c.thorough)
    if not c.thorough:
        jobs.append((H, [inst([("double", "U1Symmetry")]), "-DTAT_USE_SIMPLE_NAME"], True))
    progs = extract_many(jobs)
    for p in progs:
        fields = {f["n"] for r in p.records for f in r["fields"]} - {"first", "second"}
        recs = {}
        for r in p.records:
            recs.setdefault(p.types[r["t"]], r)
        for label, w, r, we, re_, xt in pairs(p):
            key = short(label.split(" for ")[-1] if " for " in label else label) + ("" if " for " in label else "")
            c.count("writer/reader pairs")
            A, B = Wire(p, OST, "write"), Wire(p, IST, "read")
            wn, _ = A.build(w, we)
            rn, _ = B.build(r, re_)
            ns, nt, bad = compare(wn, rn, fields)
            c.count("product states", ns)
            c.count("transitions compared", nt)
            c.sample("%s: %d states agree" % (label[:110], ns))
            if bad:
                kind, hist, x, y = bad[0], bad[1], bad[2], bad[3]
                after = " after %d transfers" % len(hist)
                if kind == "end":
                    c.violation("format:" + key, r.info.loc, "format-mismatch", "%s: one side stops%s while the other goes on" % (label, after))
                elif kind == "type":
                    c.violation("format:" + key, x.node.loc, "format-mismatch", "%s: %s transfers a %s%s that the %s does not (writer next: %s; reader next: %s)" % (
                        label, "writer" if y else "reader", x.type, after, "reader" if y else "writer", sorted({t.type for t in bad[4]}) or "end", sorted({t.type for t in bad[5]}) or "end"))
                else:
                    c.violation("format:" + key, y.node.loc, "field-order-mismatch", "%s: writer sends field %s where the reader fills %s%s" % (label, bad[4], bad[5], after))
            # block transfers and counts
            for wire, side in ((A, "writer"), (B, "reader")):
                for (n, fn, env, s, size, path, elem, single) in wire.transfers:
                    c.count("transfer sites")
                    fs = factors(wire.sym, size, env)
                    k2 = "%s:%s" % (side, short(fn.info.pretty) + "/" + str(len(fn.info.params)))
                    # sizeof argument types in the byte count
                    if single:
                        so = [m for m in size.walk() if m.k == "UnaryExprOrTypeTraitExpr"]
                        if len(so) == 1 and size.iv is not None and canon(p.types[so[0].d["at"]]) != canon(elem):
                            c.violation("bytes:" + k2, n.loc, "byte-count", "%s moves sizeof(%s) bytes of a %s" % (fn.info.pretty, p.types[so[0].d["at"]], elem))
                        # counts must be wide
                        v = wire.sym.value(s.kids[0] if s.k == "UnaryOperator" else s.args[0], env)
                        if side == "writer" and v is not None and v[0] == "size" and INTW.get(elem, 8) < 8:
                            c.violation("narrow:" + k2, n.loc, "narrow-count", "an element count is written as %s: counts above its range are lost" % elem)
                    else:
                        if fs is None:
                            continue
                        k, o = fs
                        sizeof_ok = [m for m in size.walk() if m.k == "UnaryExprOrTypeTraitExpr"]
                        if sizeof_ok and any(canon(p.types[m.d["at"]]) != canon(elem) for m in sizeof_ok):
                            c.violation("bytes:" + k2, n.loc, "byte-count", "block transfer of %s uses sizeof(%s)" % (elem, p.types[sizeof_ok[0].d["at"]]))
                        cont = path[:-1] if path and path[-1] == "it" else path
                        if side == "writer" and len(o) == 1 and o[0][0] == "size" and cont and o[0][1] != cont:
                            c.violation("count:" + k2, n.loc, "count-of-other-container", "block transfer length is the size of a different container")
                        if not o and cont is not None and not sizeof_ok:
                            pass
                        if not o:
                            c.violation("count:" + k2, n.loc, "fixed-length-block", "block transfer of constant length %d from a container of variable length" % k)
                        if len(o) == 1 and o[0][0] in ("+", "-"):
                            c.violation("count:" + k2, n.loc, "count-off-by-constant", "block transfer length differs from the transferred count")
            check_counts(c, p, A, w, we, label, key, "writer")
            check_counts(c, p, B, r, re_, label, key, "reader")
            # destination emptied first
            Reader(c, p, key).run(r, re_, frozenset())
            # field coverage
            if xt and xt in recs:
                sym = Sym(p)
                wu, ru = set(), set()
                field_use(p, sym, w, we, set(), wu, False)
                field_use(p, sym, r, re_, set(), ru, True)
                raw = any(tk.path == (("obj",),) for tl in wn.tr.values() for tk, _ in tl)
                if not raw:
                    for rec, fl in all_fields(p, recs, xt):
                        c.count("serialised fields")
                        fk = (rec["q"], fl["n"])
                        if fk in DERIVED:
                            continue
                        loc = "%s:%d" % (p.files[rec["f"]], fl["l"])
                        for used, side in ((wu, "written"), (ru, "read")):
                            if not any(u and u[0] == fl["n"] for u in used):
                                c.violation("field:%s.%s:%s" % (short(fk[0]), fl["n"], side), loc, "field-not-serialised", "field %s of %s is never %s by the serialisation pair" % (fl["n"], short(fk[0]), side))
                    if recs[xt]["q"] == "TAT::Tensor":
                        for used, side in ((wu, "written"), (ru, "read")):
                            for ff in ("edges", "blocks"):
                                if not any(ff in u for u in used):
                                    c.violation("field:Core.%s:%s" % (ff, side), w.info.loc, "field-not-serialised", "stored field %s is never %s" % (ff, side))
    c.need("writer/reader pairs", 30)
    c.need("transfer sites", 100)
    c.need("container growths in readers", 10)
    c.need("serialised fields", 10)


def skips(fn, lp, inner):
    """An iteration of the loop with no transfer at all."""
    tb = {block_of(fn, n) for n in inner}
    if lp.header in tb:
        return False
    seen = set()
    st = [s for s, _ in fn.succs(fn.blocks[lp.header]) if s in lp.body and s not in tb]
    while st:
        x = st.pop()
        if x == lp.header:
            return True
        if x in seen:
            continue
        seen.add(x)
        for s, _ in fn.succs(fn.blocks[x]):
            if s in lp.body and s not in tb:
                st.append(s)
    return False


def all_fields(p, recs, t, seen=()):
    out = []
    r = recs.get(t)
    if r is None or t in seen:
        return out
    out += [(r, fl) for fl in r["fields"]]
    for b in r.get("bases", []):
        bt = b if isinstance(b, str) else p.types[b]
        out += all_fields(p, recs, bt, seen + (t,))
    return out


def check_counts(c, p, wire, fn, env, label, key, side):
    """Loops that transfer elements run as often as a count transferred before."""
    seen = set()

    def visit(fn, env, stack):
        if fn.info.id in stack or fn.nocfg:
            return
        sig = (fn.info.id, tuple(sorted((str(k), v) for k, v in env.items() if isinstance(v, tuple))))
        if sig in seen:
            return
        seen.add(sig)
        dom = dominators(fn)
        # values transferred by each call element of this function (with callees)
        vals = []  # (block, index, value)
        for bid in fn.live():
            els, _ = fn.block_elems(fn.blocks[bid])
            for ix, e in enumerate(els):
                if isinstance(e, Node) and e.is_call():
                    cal = wire.stream_arg(e)
                    if cal is None:
                        continue
                    sub = None
                    if cal.body is not None and cal.in_repo:
                        sub = wire.sym.call_env(e, cal, env)
                        for i, a in enumerate(e.params_args):
                            if i < len(cal.params):
                                v = wire.sym.value(a, env)
                                if v is not None:
                                    vals.append((bid, ix, v))
                        visit(cal.body, sub, stack + (fn.info.id,))
                        from wire import NFA
                        t2 = Wire(p, wire.rx, wire.op)
                        n2, _ = t2.build(cal.body, sub)
                        for tl in n2.tr.values():
                            for tk, _ in tl:
                                if tk.val is not None:
                                    vals.append((bid, ix, tk.val))
                                if tk.path is not None:
                                    vals.append((bid, ix, ("p", tk.path)))
                    elif cal.name == wire.op and cal.cls and "stream" in cal.cls:
                        for i, a in enumerate(e.params_args[:1]):
                            pa = wire.sym.path(a, env)
                            if pa:
                                vals.append((bid, ix, ("p", pa)))
                            s = a.strip()
                            if s.k == "UnaryOperator" and s.op == "&":
                                v = wire.sym.value(s.kids[0], env)
                                if v:
                                    vals.append((bid, ix, v))
        for lp in loops(fn):
            inner = [n for n in lp.nodes() if n.is_call() and wire.stream_arg(n) is not None and (wire.p.resolve(n).in_repo or wire.p.resolve(n).name == wire.op)]
            if not inner:
                continue
            c.count("transfer loops")
            t = trip(wire.sym, lp, env)
            if skips(fn, lp, inner):
                c.violation("skip:%s:%s" % (side, short(fn.info.pretty)), inner[0].loc, "element-skipped", "%s can pass over an element of the counted sequence without transferring it" % fn.info.pretty)
            if t is None:
                ex = [(b, cn, br, s) for b, cn, br, s in exits(lp) if not (br is not None and wire.bad_stream_branch(fn, fn.blocks[b], br))]
                if len(ex) > 1 and side == "writer":
                    c.violation("early:%s:%s" % (side, short(fn.info.pretty)), inner[0].loc, "early-exit", "%s can leave the transfer loop before all counted elements are written" % fn.info.pretty)
                c.count("transfer loops not understood")
                continue
            before = [v for (b, ix, v) in vals if b in dom.get(lp.header, ()) and b != lp.header and b not in lp.body]
            hb = lp.header
            where = fn.blocks[hb]
            loc = inner[0].loc
            k2 = "loop:%s:%s" % (side, short(fn.info.pretty))
            if t[0] == "range":
                if t[1] is None:
                    continue
                ok = ("size", t[1]) in before
                # the container may have been resized to a transferred count
                if not ok and side == "reader":
                    for n in fn.calls():
                        if n.callee is not None and n.callee.name in ("resize", "assign") and n.obj is not None and wire.sym.path(n.obj, env) == t[1] and n.params_args:
                            if wire.sym.value(n.params_args[0], env) in before:
                                ok = True
                if not ok and not before:
                    ok = False
                if not ok and "std::array" in str(t):
                    ok = True
                if not ok:
                    c.violation(k2, loc, "loop-without-count", "%s transfers the elements of a container whose element count was not transferred before" % fn.info.pretty)
            elif t[0] == "partial":
                c.violation(k2, loc, "partial-range", "%s transfers only part of a container" % fn.info.pretty)
            elif t[0] == "count":
                v, d = t[1], t[2]
                if v[0] == "c":
                    continue
                if v in before and d != 0:
                    c.violation(k2, loc, "loop-count-off-by-%+d" % d, "%s transfers count%+d elements after transferring count" % (fn.info.pretty, d))
                elif v not in before:
                    if side == "writer" or v[0] != "p" or v[1][0] != ("v",):
                        c.violation(k2, loc, "loop-without-count", "%s loops over a bound that was not transferred before" % fn.info.pretty)

    visit(fn, env, ())


report.main("C02", "wire-format automata built from the AST/CFG of writer and reader and compared for language equality", body)
