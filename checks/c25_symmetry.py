import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import re
import report
from ir import REPO, Node
from flow import dominators
from loops import loops, trip, block_of
from sym import Sym
from cond import guards, relation as cond_relation
from poly import Poly, sym, boolsym, const, add, xor, agree, anf_const, TOP
from targets import tensor_progs, all_progs


def short(s):
    return re.sub(r"<.*", "", s)


REL = {"operator==": "==", "operator!=": "!=", "operator<": "<", "operator>": ">", "operator<=": "<=", "operator>=": ">="}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}


def symmetry_records(p):
    by = {p.types[r["t"]]: r for r in p.records}

    def derives(t, seen=()):
        r = by.get(t)
        if r is None or t in seen:
            return False
        return any(p.types[b] == "TAT::symmetry_base" or derives(p.types[b], seen + (t,)) for b in r["bases"])
    return {t: r for t, r in by.items() if derives(t) and "_symmetry" not in t}


def info_fields(p, sy, n, depth=0):
    """(root parameter, ordered list of fields) an operand of a comparison is made of, or None."""
    n = n.strip()
    if depth > 8:
        return None
    if n.is_call():
        c = p.resolve(n)
        if c is None:
            return None
        if n.k in ("CXXConstructExpr",) and len(n.args) == 1:
            return info_fields(p, sy, n.args[0], depth + 1)
        if c.q in ("std::tie", "std::make_tuple", "std::forward_as_tuple"):
            out, root = [], None
            for a in n.args:
                x = info_fields(p, sy, a, depth + 1)
                if x is None or (root is not None and x[0] != root):
                    return None
                root = x[0]
                out += x[1]
            return root, out
        if n.obj is not None and c.body is not None and c.in_repo and not n.params_args:
            rets = [r for r in c.body.live_nodes() if r.k == "ReturnStmt" and r.kids]
            if len(rets) != 1:
                return None
            base = sy.path(n.obj)
            if rets[0].kids[0].iv is not None or rets[0].kids[0].strip().iv is not None:
                return (base[0] if base else None), []
            x = info_fields(p, sy, rets[0].kids[0], depth + 1)
            if x is None or base is None:
                return None
            return base[0] if x[0] in (("this",), None) else x[0], x[1]
        return None
    if n.iv is not None:
        return None, []
    q = sy.path(n)
    if q is None:
        return None
    if len(q) == 2:
        return q[0], [q[1]]
    return None


def relation(p, sy, n, depth=0):
    """(op, left operand, right operand)"""
    n = n.strip()
    if n.k == "UnaryOperator" and n.op == "!":
        r = relation(p, sy, n.kids[0], depth)
        return (NEG[r[0]], r[1], r[2]) if r else None
    if n.k == "CXXRewrittenBinaryOperator":
        return None
    if n.k == "BinaryOperator" and n.op in FLIP:
        return n.op, n.kids[0], n.kids[1]
    if n.is_call() and n.callee is not None and n.callee.name in REL and len(n.args) == 2:
        return REL[n.callee.name], n.args[0], n.args[1]
    return None


def check_group(c, p, sy):
    recs = symmetry_records(p)
    seen = set()
    bykey = {}
    for f in p.repo_fns():
        pts = [t.replace("const ", "").replace("&", "").strip() for t in f.info.param_types]
        if f.info.name in ("operator+", "operator-", "operator+=") or f.info.name in REL:
            if pts and all(t in recs for t in pts) and len(set(pts)) == 1:
                bykey[(f.info.name, len(pts), pts[0])] = f
        if f.info.cls in recs and f.info.name in ("operator+", "operator-", "operator+=") and len(pts) <= 1:
            bykey[(f.info.name, len(pts) + 1, f.info.cls)] = f
        if f.info.is_ctor and f.info.cls in recs:
            bykey[("ctor", len(pts), f.info.cls)] = f
    for t, r in sorted(recs.items()):
        fields = [(x["n"], p.types[x["t"]].replace("const ", "")) for x in r["fields"]]
        if not fields:
            continue
        c.count("symmetry types")
        P = Poly(p)

        def rec(tag):
            return ("rec", tuple((n, boolsym((tag, n)) if ft == "bool" else sym((tag, n))) for n, ft in fields))

        def setup(*tags):
            env = {}
            for g in tags:
                P.put(env, (g,), rec(g))
            return env
        bs = [(g, n) for g in ("A", "B") for n, ft in fields if ft == "bool"]

        def expect(name, n, ft):
            a = boolsym(("A", n)) if ft == "bool" else sym(("A", n))
            b = boolsym(("B", n)) if ft == "bool" else sym(("B", n))
            if name == "operator-":
                return a if ft == "bool" else add(const(0), a, -1)
            return xor(a, b) if ft == "bool" else add(a, b)
        for name, arity in (("operator+", 2), ("operator+=", 2), ("operator-", 1)):
            f = bykey.get((name, arity, t))
            if f is None:
                c.count("group operations without analysable body")
                continue
            c.count("group operations")
            env = setup("A", "B")
            locs = [("loc", ("A",)), ("loc", ("B",))][:arity]
            member = f.info.cls in recs
            res = P.run(f, locs[0] if member else None, locs[1:] if member else locs, env)
            if res is None:
                c.count("group operations not understood")
                continue
            for (rv, st, cons) in res:
                c.count("paths of group operations")
                val = P.get(st, rv[1]) if rv and rv[0] == "loc" else rv
                outs = [("its result", val)]
                if name == "operator+=":
                    outs.append(("the updated label", P.get(st, ("A",))))
                    if rv and rv[0] == "loc" and rv[1] == ("A",):
                        outs = outs[1:]
                for what, v in outs:
                    if v is None or v[0] != "rec":
                        c.count("results not understood")
                        continue
                    d = dict(v[1])
                    for n, ft in fields:
                        x = d.get(n, TOP)
                        if x is not None and x[0] == "eq0":
                            x = TOP
                        a = agree(x, expect(name, n, ft), cons, bs)
                        c.count("component obligations")
                        if a is False:
                            c.violation("group:%s:%s:%s" % (t, name, n), f.info.loc, "not-a-group-operation",
                                        "%s of %s does not combine component %s of its operands as %s requires in %s" % (name, t, n, "addition modulo 2" if ft == "bool" else "integer addition/negation", what))
                        elif a is None:
                            c.count("components not understood")
                        else:
                            c.sample("%s %s: %s" % (t, name, n))
                # operands are not modified
                for g in ("A", "B")[(1 if name == "operator+=" else 0):]:
                    d = P.get(st, (g,))
                    if d[0] == "rec" and d != P.get(env, (g,)) and d != ("rec", tuple(sorted(rec(g)[1]))):
                        c.violation("group:%s:%s:operand" % (t, name), f.info.loc, "operand-modified", "%s of %s modifies an operand" % (name, t))
        # neutral element
        for (k, ar, tt), f in bykey.items():
            if k == "ctor" and tt == t and ar == len(fields) and not f.nocfg:
                # construction keeps its arguments; default arguments are the neutral element
                env = {}
                args = [boolsym(("A", n)) if ft == "bool" else sym(("A", n)) for n, ft in fields]
                P.put(env, ("T",), ("rec", ()))
                res = P.run(f, ("loc", ("T",)), args, env)
                for (rv, st, cons) in res or []:
                    d = P.get(st, ("T",))
                    for i, (n, ft) in enumerate(fields):
                        x = dict(d[1]).get(n, TOP) if d[0] == "rec" else TOP
                        c.count("component obligations")
                        if agree(x, args[i], cons, bs) is False:
                            c.violation("ctor:%s:%s" % (t, n), f.info.loc, "constructor-changes-label", "constructing %s does not store argument %d in %s" % (t, i + 1, n))
        # comparisons
        names = [n for n, _ in fields]
        for name, op in REL.items():
            f = bykey.get((name, 2, t))
            if f is None:
                continue
            rets = [r for r in f.live_nodes() if r.k == "ReturnStmt" and r.kids]
            if len(rets) != 1:
                c.count("comparisons not understood")
                continue
            rel = relation(p, sy, rets[0].kids[0])
            if rel is None:
                c.count("comparisons not understood")
                continue
            l, r2 = info_fields(p, sy, rel[1]), info_fields(p, sy, rel[2])
            if l is None or r2 is None or l[0] is None or r2[0] is None or l[0] == r2[0]:
                # expressed through another comparison of the whole label
                pl, pr = sy.path(rel[1]), sy.path(rel[2])
                if pl and pr and len(pl) == 1 and len(pr) == 1 and pl != pr:
                    o = rel[0] if pl[0] == ("v", f.info.params[0]) else FLIP[rel[0]]
                    c.count("comparisons")
                    if o != op:
                        c.violation("cmp:%s:%s" % (t, name), f.info.loc, "wrong-comparison", "%s of %s computes '%s'" % (name, t, o))
                    continue
                c.count("comparisons not understood")
                continue
            c.count("comparisons")
            o = rel[0] if l[0] == ("v", f.info.params[0]) else FLIP[rel[0]]
            if o != op:
                c.violation("cmp:%s:%s" % (t, name), f.info.loc, "wrong-comparison", "%s of %s computes '%s'" % (name, t, o))
            for side, (_, fs) in (("left", l), ("right", r2)):
                miss = [n for n in names if n not in fs]
                if miss:
                    c.violation("cmp:%s:%s" % (t, name), f.info.loc, "comparison-ignores-component", "%s of %s ignores component %s of its %s operand: different labels compare as equal" % (name, t, ",".join(miss), side))
            if l[1] != r2[1]:
                c.violation("cmp:%s:%s" % (t, name), f.info.loc, "comparison-mixes-components", "%s of %s compares different components of its operands" % (name, t))


BLOCKS = re.compile(r"(std::map|TAT::fake_map)<std::vector<TAT::\w*Symmetry[^>]*>(, std::allocator<[^>]*>>)?, TAT::vector<")


def check_default(c, p):
    recs = symmetry_records(p)
    for f in p.repo_fns():
        if f.nocfg:
            continue
        for n in f.live_nodes():
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.callee is not None and n.callee.cls in recs:
                for i, a in enumerate(n.args):
                    if a.k == "CXXDefaultArgExpr":
                        c.count("default labels")
                        v = a.iv if a.iv is not None else a.strip().iv
                        if v is not None and v != 0:
                            c.violation("zero:%s" % n.callee.cls, n.callee.loc, "default-label-not-neutral", "default component %d of %s is %d, not the neutral element" % (i + 1, n.callee.cls, v))


def check_vacuous(c, p, sy):
    """A balance test that compares two labels which are both always neutral decides nothing."""
    recs = {t for t, r in symmetry_records(p).items() if r["fields"]}
    for f in p.repo_fns():
        if f.nocfg:
            continue
        touched = None

        def neutral(n):
            nonlocal touched
            n = n.strip()
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.type.replace("const ", "") in recs:
                return all(a.k == "CXXDefaultArgExpr" or a.iv == 0 for a in n.args) or (len(n.args) == 1 and n.callee.d.get("ctor") in ("copy", "move") and neutral(n.args[0]))
            if n.k == "CXXScalarValueInitExpr" or (n.k == "InitListExpr" and not n.kids):
                return True
            if n.k == "DeclRefExpr" and n.var is not None and p.vars[n.var]["k"] == "local" and p.types[p.vars[n.var]["t"]].replace("const ", "") in recs:
                init, bind, assigned = sy.tables(f)
                if any(not (a.is_call() and a.callee is not None and a.callee.is_ctor and a.callee.q.startswith("std::")) for a in assigned.get(n.var, [])):
                    return False  # (constructors of standard pairs and tuples only copy it)
                if touched is None:
                    touched = set()
                    for x in f.nodes():
                        if x.is_call() and x.obj is not None and x.callee is not None and not x.callee.is_const:
                            o = x.obj.strip()
                            if o.k == "DeclRefExpr" and o.var is not None:
                                touched.add(o.var)
                        elif x.k == "LambdaExpr":
                            for y in x.d.get("caps", []):
                                if isinstance(y, dict) and "v" in y:
                                    touched.add(y["v"])
                        elif x.k == "MemberExpr" and x.kids:
                            o = x.kids[0].strip()
                            if o.k == "DeclRefExpr" and o.var is not None and "fn" not in x.d:
                                touched.add(o.var)
                if n.var in touched:
                    return False
                return n.var in init and neutral(init[n.var])
            return False
        for n in f.live_nodes():
            if n.is_call() and n.callee is not None and n.callee.name in ("operator==", "operator!=") and len(n.args) == 2 and n.args[0].type.replace("const ", "") in recs:
                c.count("label tests")
                if neutral(n.args[0]) and neutral(n.args[1]):
                    c.violation("vacuous:%s" % short(f.info.q), n.loc, "balance-test-decides-nothing", "%s tests a total label that is never accumulated: it is always neutral" % f.info.pretty)


def is_blocks(n):
    n = n.strip()
    return n.k == "MemberExpr" and n.d.get("m") == "blocks" and "fn" not in n.d


INS = {"operator[]", "emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint"}


def key_source(p, sy, fn, n, depth=0):
    """Where a block key comes from: ('blocks',) key of an existing block, ('fn', info) element of a list a function returns, None."""
    if depth > 12 or n is None:
        return None
    n = n.strip()
    if n.is_call() and n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        for a in n.args:
            r = key_source(p, sy, fn, a, depth + 1)
            if r:
                return r
        return None
    if n.k == "InitListExpr":
        for a in n.kids:
            r = key_source(p, sy, fn, a, depth + 1)
            if r:
                return r
        return None
    if n.is_call() and n.callee is not None:
        c = p.resolve(n)
        if c.name in ("begin", "cbegin") and n.obj is not None:
            return key_source(p, sy, fn, n.obj, depth + 1)
        if c.in_repo and c.body is not None:
            return ("fn", c)
        if n.obj is not None:
            return key_source(p, sy, fn, n.obj, depth + 1)
        for a in n.args:
            r = key_source(p, sy, fn, a, depth + 1)
            if r:
                return r
        return None
    if n.k == "MemberExpr":
        if is_blocks(n):
            return ("blocks",)
        return key_source(p, sy, fn, n.kids[0], depth + 1) if n.kids else None
    if n.k == "UnaryOperator":
        return key_source(p, sy, fn, n.kids[0], depth + 1)
    if n.k == "DeclRefExpr" and n.var is not None:
        init, bind, assigned = sy.tables(fn)
        for tab in (bind, init):
            if n.var in tab:
                return key_source(p, sy, fn, tab[n.var], depth + 1)
    return None


def check_blocks(c, p, sy):
    enumerators = {}
    for f in p.repo_fns():
        if f.nocfg:
            continue
        for n in f.live_nodes():
            # insertion of blocks
            if n.is_call() and n.callee is not None and n.obj is not None and n.callee.name in INS and is_blocks(n.obj):
                c.count("block insertions")
                reader = any("istream" in t for t in f.info.param_types)
                if reader:
                    continue
                if n.callee.name == "operator[]" and "NoSymmetry" in n.obj.type and "fake_map" in n.obj.type:
                    pass
                src = key_source(p, sy, f, n.params_args[0]) if n.params_args else None
                if src is None:
                    c.violation("insert:%s" % short(f.info.q), n.loc, "block-of-unknown-label", "%s creates a block of a tensor under a label that does not come from the enumeration of allowed blocks" % f.info.pretty)
                    continue
                if src[0] == "fn":
                    enumerators[src[1].key] = src[1]
                c.sample("%s creates blocks under labels of %s" % (short(f.info.q), "an existing tensor" if src[0] == "blocks" else short(src[1].q)))
            elif n.is_call() and n.callee is not None and n.obj is not None and n.callee.name in ("operator[]",) and n.obj is not None:
                pass
    # the enumerations keep only labels that sum to the neutral element
    for key, info in enumerators.items():
        fns = [g for g in p.repo_fns() if g.info.key == key] + [g for g in p.repo_fns() if g.info.is_lambda and g.info.file == info.file and g.info.line >= info.line]
        for g in fns:
            if g.nocfg:
                continue
            if g.info.is_lambda and not any(True for o in p.repo_fns() if o.info.key == key and o.info.line <= g.info.line <= max([x.line for x in o.nodes()] + [o.info.line])):
                continue
            if "NoSymmetry" in g.info.pretty or "NoSymmetry" in " ".join(g.info.param_types):
                continue
            for n in g.live_nodes():
                if n.is_call() and n.callee is not None and n.callee.name in ("push_back", "emplace_back", "insert", "emplace") and n.obj is not None and "tuple<" in n.obj.type:
                    if "NoSymmetry" in n.obj.type:
                        continue
                    c.count("enumerated label lists")
                    if any(True for _ in loops(g)) or len(g.info.params) > 0 or not g.info.is_lambda:
                        ok = guarded(p, sy, g, n)
                        if ok is None:
                            c.count("label filters not understood")
                        elif not ok[0]:
                            c.violation("filter:%s" % short(info.q), n.loc, "block-not-symmetric", "%s lists a block without the test that its labels sum to the neutral element (%s)" % (info.pretty, ok[1]))
                        else:
                            c.count("label filters proved")


def guarded(p, sy, g, n):
    if block_of(g, n) is None:
        return None
    unknown = False
    for cn, br, env in guards(sy, g, n):
        rel = cond_relation(cn, br)
        if rel is None:
            if cn.is_call() and p.resolve(cn) is not None and p.resolve(cn).in_repo:
                unknown = True
            continue
        op = rel[0]
        for a, z in ((rel[1], rel[2]), (rel[2], rel[1])):
            zs = z.strip()
            neutral = zs.is_call() and zs.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "Symmetry" in zs.type and all(x.strip().iv == 0 or x.k == "CXXDefaultArgExpr" for x in zs.args)
            if not neutral and zs.k == "CXXTemporaryObjectExpr" and "Symmetry" in zs.type and not zs.args:
                neutral = True
            if not neutral and zs.k in ("CXXScalarValueInitExpr", "InitListExpr") and "Symmetry" in zs.type and not zs.kids:
                neutral = True
            if not neutral:
                continue
            if op != "==":
                return False, "the test is not for equality"
            v = a.strip()
            if cn.fn is not g:
                return True, ""
            if v.k == "DeclRefExpr" and v.var is not None:
                # accumulated over all edges
                accs = [x for x in g.live_nodes() if x.is_call() and x.callee is not None and x.callee.name == "operator+=" and x.args and x.args[0].strip().k == "DeclRefExpr" and x.args[0].strip().var == v.var]
                if not accs:
                    accs = [x for x in g.live_nodes() if x.is_call() and x.callee is not None and x.callee.name == "operator=" and x.args and x.args[0].strip().k == "DeclRefExpr" and x.args[0].strip().var == v.var]
                    if not accs:
                        i = sy.tables(g)[0].get(v.var)
                        if i is not None and i.strip().is_call() and i.strip().k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                            return True, ""
                        return False, "the sum of the labels is never accumulated"
                for x in accs:
                    lp = [l for l in loops(g) if block_of(g, x) in l.body]
                    if lp:
                        t = trip(sy, min(lp, key=lambda l: len(l.body)))
                        if t is not None and t[0] == "partial" or (t is not None and t[0] == "count" and t[2] != 0):
                            return False, "only some labels are summed"
                        dm = dominators(g)
                        l0 = min(lp, key=lambda l: len(l.body))
                        latches = [bb for bb in l0.body if l0.header in [s for s, _ in g.succs(g.blocks[bb])]]
                        if any(block_of(g, x) not in dm[q] for q in latches):
                            return False, "a label can be left out of the sum"
                return True, ""
            return True, ""
    return None if unknown else (False, "no dominating comparison with the neutral label")


def body(c):
    c.rules += [
        "abstract interpretation of +, += and unary - of every symmetry type in an exact domain (linear forms, GF(2) polynomials): each component is combined as its group requires",
        "comparison operators relate all components of both labels with the operator they are named after",
        "blocks of a tensor are only created under labels of an existing block, or of an enumeration whose every listed entry is dominated by the test that all its labels sum to the neutral element",
    ]
    c.assumptions.append("label arithmetic does not overflow its integer type")
    for p in tensor_progs(c.thorough):
        sy = Sym(p)
        check_group(c, p, sy)
        check_default(c, p)
        check_vacuous(c, p, sy)
        check_blocks(c, p, sy)
    c.need("symmetry types", 5)
    c.need("component obligations", 12)
    c.need("comparisons", 10)
    c.need("block insertions", 3)


report.main("C25", "abstract interpretation of label arithmetic in an exact algebraic domain; dominance of block creation by the label filter", body)
