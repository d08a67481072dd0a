import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import re
import report
from ir import REPO, Node, extract_many, VERIF
from flow import forward
from loops import loops, exits, updates, block_of, trip
from sym import Sym
from cond import guards, edge_guards, atoms
from targets import square_jobs


def short(s):
    return re.sub(r"<.*", "", s)


def on_this(n):
    o = n.obj
    return o is None or o.strip().k == "CXXThisExpr" or (o.strip().k == "UnaryOperator" and o.strip().kids and o.strip().kids[0].strip().k == "CXXThisExpr")


class Lazy:
    def __init__(self, c, p):
        self.c, self.p, self.sy = c, p, Sym(p)
        by = {p.types[r["t"]]: r for r in p.records}
        self.recs = {}
        base = [t for t, r in by.items() if r["q"] == "lazy::lazy_base"]

        def derives(t, depth=0):
            r = by.get(t)
            return r is not None and depth < 6 and (t in base or any(derives(p.types[b], depth + 1) for b in r["bases"]))
        self.recs = {t: r for t, r in by.items() if derives(t)}
        self.base = base[0] if base else None
        self.methods = {}
        for f in p.repo_fns():
            if f.info.cls in self.recs:
                self.methods.setdefault(f.info.cls, {}).setdefault(f.info.name, []).append(f)
        # functions through which the downstream of an object is invalidated
        self.unset = {f.info.id for f in p.repo_fns() if f.info.cls in self.recs and f.info.name == "unset"}
        ch = True
        self.calls_unset = set(self.unset)
        while ch:
            ch = False
            for f in p.repo_fns():
                if f.info.id in self.calls_unset or f.nocfg:
                    continue
                if any(p.resolve(n) is not None and p.resolve(n).id in self.unset and not on_this(n) for n in f.calls()) and f.info.cls not in self.recs:
                    self.calls_unset.add(f.info.id)
                    ch = True

    def fields(self, t):
        return [(x["n"], self.p.types[x["t"]]) for x in self.recs[t]["fields"]]

    def value_fields(self, t):
        return [n for n, ft in self.fields(t) if not ft.startswith("std::function") and "weak_ptr" not in ft]

    # R1
    def writes_of(self, n, t):
        """Name of the value field that node n replaces by a new value, or (name, None) for a reset."""
        vf = self.value_fields(t)
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator":
            q = self.sy.path(n.kids[0])
            if q and q[0] == ("this",) and len(q) >= 2 and q[1] in vf:
                return q[1], True
        if n.is_call() and n.callee is not None and n.obj is not None and not n.callee.is_const and n.k not in ("CXXConstructExpr",):
            q = self.sy.path(n.obj)
            if q and q[0] == ("this",) and len(q) == 2 and q[1] in vf:
                if n.callee.name in ("operator=", "reset", "swap", "emplace"):
                    a = n.params_args
                    x = a[0].strip() if a else None
                    while x is not None and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(x.args) == 1:
                        x = x.args[0].strip()
                    null = x is None or x.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or (x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and not (x.args or x.kids))
                    return q[1], not null
        if n.is_call() and n.callee is not None and n.callee.name == "swap" and n.obj is None:
            for a in n.args:
                q = self.sy.path(a)
                if q and q[0] == ("this",) and len(q) == 2 and q[1] in vf:
                    return q[1], True
        return None

    def run(self, f, st, depth=0, report=True):
        """state: downstream invalidated on all paths so far?"""
        t = f.info.cls

        def transfer(e, s):
            if not isinstance(e, Node):
                return s
            if e.is_call():
                r = self.p.resolve(e)
                if r is not None and r.id in self.unset and on_this(e):
                    return True
                if r is not None and r.body is not None and r.cls in self.recs and on_this(e) and depth < 5 and r.name != "release" and not r.is_ctor:
                    return self.run(r.body, s, depth + 1)
            w = self.writes_of(e, t)
            if w is not None and w[1]:
                self.c.count("replacements of stored values")
                if not s:
                    self.c.violation("write:%s::%s" % (short(t), f.info.name), e.loc, "value-replaced-without-invalidation",
                                     "%s replaces the stored value on a path that has not invalidated the values computed from the old one" % f.info.pretty)
            return s
        ins, outs = forward(f, st, transfer, lambda a, b: a and b)
        return outs.get(f.exit, ins.get(f.exit, st))

    def all_paths_call(self, f, pred, start=None, stop=None):
        """Does every normal path from entry to exit contain a node satisfying pred?"""
        def transfer(e, s):
            return True if (isinstance(e, Node) and pred(e)) else s
        ins, outs = forward(f, False, transfer, lambda a, b: a and b)
        return ins.get(f.exit, True)

    def check(self):
        c, p = self.c, self.p
        for t, ms in self.methods.items():
            if t not in self.recs:
                continue
            for name, fs in ms.items():
                for f in fs:
                    if f.nocfg or f.info.is_ctor or name == "release" or name.startswith("~"):
                        continue
                    c.count("member functions")
                    self.run(f, False)
        # R2
        us = [f for f in p.repo_fns() if f.info.id in self.unset]
        if not us:
            c.require(False, "no invalidation function found")
        for f in us:
            c.count("invalidation functions")
            rel = lambda n: n.is_call() and p.resolve(n) is not None and p.resolve(n).name == "release" and on_this(n)
            if not self.all_paths_call(f, rel):
                c.violation("unset:release", f.info.loc, "invalidation-keeps-value", "%s can finish without dropping the stored value of the object itself" % f.info.pretty)
            self.propagates(f)
        # R3
        for t, r in self.recs.items():
            vf = [n for n in self.value_fields(t)]
            used = set()
            for f in self.methods.get(t, {}).get("get", []):
                for n in f.live_nodes():
                    q = self.sy.path(n) if n.k == "MemberExpr" and "fn" not in n.d else None
                    if q and q[0] == ("this",) and len(q) >= 2 and q[1] in vf:
                        used.add(q[1])
            if not used:
                continue
            rels = self.methods.get(t, {}).get("release", [])
            if not rels:
                c.violation("release:%s" % short(t), p.files[r["f"]] + ":%d" % r["l"], "no-release", "%s stores a value but does not override release" % t)
            for f in rels:
                for v in used:
                    c.count("release obligations")
                    if not self.all_paths_call(f, lambda n: self.writes_of(n, t) == (v, False)):
                        c.violation("release:%s:%s" % (short(t), v), f.info.loc, "release-keeps-value", "%s does not drop %s on every path" % (f.info.pretty, v))
            # R6: a computed value is returned only when present
            for f in self.methods.get(t, {}).get("get", []):
                fnf = [n for n, ft in self.fields(t) if ft.startswith("std::function")]
                if not fnf:
                    continue
                c.count("cached getters")
                self.getter(f, t, used, fnf)
        # R4/R5
        for f in p.repo_fns():
            if f.nocfg or f.info.cls is not None or f.info.is_lambda or not f.info.file.endswith("lazy.hpp"):
                continue
            made = self.makes(f)
            if made is None:
                continue
            node, mt, var = made
            data = any("data_lazy_base" in p.types[b] for b in self.recs[mt]["bases"])
            args = [v for v in f.info.params if re.match(r"^std::shared_ptr<lazy::", p.vtype(v).replace("const ", "")) or re.match(r"^std::shared_ptr<lazy::", p.vtype(v))]
            c.count("constructed nodes")
            for a in args:
                c.count("dependency registrations")
                ok = self.all_paths_call(f, lambda n: self.registers(n, a, var, f, 0))
                if not ok:
                    c.violation("register:%s" % short(f.info.q), f.info.loc, "dependency-not-registered",
                                "%s builds a node from argument %d without registering the node as its dependent: changing the argument will not invalidate the node" % (f.info.pretty, list(f.info.params).index(a) + 1))
            if data:
                c.count("graph registrations")
                if not self.all_paths_call(f, lambda n: self.adds(n, var)):
                    c.violation("graph:%s" % short(f.info.q), f.info.loc, "node-not-in-graph", "%s creates a node holding data that is not entered in the current graph: snapshots omit it" % f.info.pretty)
        for f in p.repo_fns():
            if f.info.q.startswith("lazy::Graph::add") and not f.nocfg:
                if not self.all_paths_call(f, lambda n: n.is_call() and n.callee is not None and n.callee.name in ("push_back", "emplace_back", "push_front", "insert") and n.obj is not None and (self.sy.path(n.obj) or ())[-1:] == ("nodes",)):
                    c.violation("graph:add", f.info.loc, "node-not-in-graph", "%s can return without entering the node" % f.info.pretty)
            if f.info.q in ("lazy::Graph::dump", "lazy::Graph::load") and not f.nocfg:
                self.graph_loop(f)
        # R5b: snapshots hold the type that is restored
        for t, ms in self.methods.items():
            d, l = ms.get("dump", []), ms.get("load", [])
            for f in l:
                if f.nocfg:
                    continue
                cast = None
                for n in f.calls():
                    if n.callee is not None and n.callee.q == "std::any_cast":
                        cast = n.callee.ret
                for g in d:
                    if g.nocfg:
                        continue
                    held = None
                    for n in g.live_nodes():
                        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.type == "std::any" and n.args and "any" not in n.args[0].strip().type:
                            held = n.args[0].strip().type.replace("const std::shared_ptr", "std::shared_ptr")
                    if cast is not None and held is not None:
                        c.count("snapshot types")
                        if norm(cast) != norm(held):
                            c.violation("anytype:%s" % short(t), f.info.loc, "snapshot-type-mismatch", "%s stores %s in the snapshot but restores %s" % (t, held, cast))
                    vf = self.value_fields(t)
                    reads = {q[1] for n in g.live_nodes() if n.k == "MemberExpr" for q in [self.sy.path(n)] if q and q[0] == ("this",) and len(q) >= 2}
                    for v in vf:
                        if v not in reads:
                            c.violation("dump:%s:%s" % (short(t), v), g.info.loc, "snapshot-omits-value", "%s does not store %s" % (g.info.pretty, v))
        # R7: downstream lists only lose expired entries
        for f in p.repo_fns():
            if f.nocfg:
                continue
            if f.info.name == "operator=":
                continue
            for n in f.calls():
                if n.callee is not None and n.obj is not None and n.callee.name in ("erase", "clear", "pop_back", "pop_front", "remove_if", "remove", "resize", "assign", "operator=", "swap", "unique"):
                    q = self.sy.path(n.obj)
                    if q and q[-1] in ("downstream", "nodes") and ("lazy" in f.info.file or f.info.q.startswith("lazy::")):
                        c.count("removals from dependency lists")
                        if not self.expired(f, n):
                            c.violation("remove:%s" % short(f.info.q), n.loc, "dependent-forgotten", "%s removes an entry of %s that may still be alive" % (f.info.pretty, q[-1]))

    def getter(self, f, t, used, fnf):
        # every path to the return either found the value present or computed it
        def present_after(e, s):
            if isinstance(e, Node):
                w = self.writes_of(e, t)
                if w is not None:
                    return w[1]
                if e.is_call():
                    r = self.p.resolve(e)
                    if r is not None and r.body is not None and r.cls in self.recs and on_this(e):
                        if r.name in ("unset", "release"):
                            return False
                        wr = False
                        def tr(e2, s2):
                            if isinstance(e2, Node):
                                w2 = self.writes_of(e2, t)
                                if w2 is not None:
                                    return w2[1]
                            return s2
                        ins, _ = forward(r.body, s, tr, lambda a, b: a and b)
                        return ins.get(r.body.exit, s)
            return s

        def refine(b, cn, br, s):
            for n, v, env in atoms(self.sy, cn, br):
                n = n.strip()
                if n.is_call() and n.callee is not None and n.callee.name == "operator bool" and n.obj is not None:
                    q = self.sy.path(n.obj)
                    if q and q[0] == ("this",) and len(q) == 2 and q[1] in used:
                        if v:
                            return True
                        if s:
                            return None
                if n.is_call() and n.callee is not None and n.callee.name in ("operator==", "operator!=") and len(n.args) == 2:
                    q = self.sy.path(n.args[0])
                    if q and q[0] == ("this",) and len(q) == 2 and q[1] in used:
                        pos = (n.callee.name == "operator!=") == v
                        if pos:
                            return True
            return s
        ins, outs = forward(f, False, present_after, lambda a, b: a and b, refine)
        for b in f.live():
            els, _ = f.block_elems(f.blocks[b])
            s = ins.get(b)
            if s is None:
                continue
            for e in els:
                if isinstance(e, Node) and e.k == "ReturnStmt" and not s:
                    self.c.violation("get:%s" % short(t), e.loc, "returns-absent-value", "%s can return without having computed the value" % f.info.pretty)
                s = present_after(e, s)

    def makes(self, f):
        for n in f.nodes():
            if n.k == "DeclStmt":
                for d in n.d["ds"]:
                    vt = self.p.vtype(d["v"]).replace("const ", "")
                    m = re.match(r"^std::shared_ptr<(lazy::.*)>$", vt)
                    if m and m.group(1) in self.recs and d.get("init", -1) >= 0:
                        for x in f.node(d["init"]).walk():
                            if x.is_call() and x.callee is not None and x.callee.name == "make_shared" or x.k == "CXXNewExpr":
                                return x, m.group(1), d["v"]
        return None

    def registers(self, n, a, var, f, depth):
        if not n.is_call() or n.callee is None:
            return False
        if n.callee.name in ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace") and n.obj is not None:
            q = self.sy.path(n.obj)
            if q and q[0] == ("v", a) and q[-1] == "downstream":
                return any(self.mentions(x, var) for x in n.params_args)
            return False
        r = self.p.resolve(n)
        if r is not None and r.body is not None and r.in_repo and depth < 3 and not r.body.nocfg:
            # helper: which formals receive the argument and the new node
            pa = n.params_args
            fa = [r.params[i] for i, x in enumerate(pa) if i < len(r.params) and self.sy.path(x) == (("v", a),)]
            fv = [r.params[i] for i, x in enumerate(pa) if i < len(r.params) and self.mentions(x, var)]
            for x in fa:
                for y in fv:
                    if self.all_paths_call(r.body, lambda m: self.registers(m, x, y, r.body, depth + 1)):
                        return True
        return False

    def mentions(self, n, var):
        return any(x.k == "DeclRefExpr" and x.var == var for x in n.walk())

    def adds(self, n, var, depth=0):
        if not n.is_call() or n.callee is None:
            return False
        r = self.p.resolve(n)
        if r is None or not r.in_repo:
            return False
        if r.q.startswith("lazy::Graph::add") and any(self.mentions(x, var) for x in n.params_args):
            return True
        if r.body is not None and depth < 3 and not r.body.nocfg and r.cls is None:
            fv = [r.params[i] for i, x in enumerate(n.params_args) if i < len(r.params) and self.mentions(x, var)]
            return any(self.all_paths_call(r.body, lambda m: self.adds(m, y, depth + 1)) for y in fv)
        return False

    def lock_edges(self, f, lp):
        """(block, branch on which the entry is alive, variable of the locked pointer)"""
        out = []
        for b in lp.body:
            blk = f.blocks[b]
            cn = blk.d.get("lcond", blk.d.get("cond", -1))
            if cn is None or cn < 0:
                continue
            for s, br in f.succs(blk):
                if br is None:
                    continue
                for n, v, env in atoms(self.sy, f.node(cn), br):
                    n = n.strip()
                    w = None
                    if n.is_call() and n.callee is not None and n.callee.name == "operator bool" and n.obj is not None:
                        w = n.obj.strip()
                    elif n.is_call() and n.callee is not None and n.callee.name in ("operator!=", "operator==") and len(n.args) == 2 and "shared_ptr" in n.args[0].type:
                        w = n.args[0].strip()
                        v = v == (n.callee.name == "operator!=")
                    elif n.is_call() and n.callee is not None and n.callee.name == "expired":
                        v = not v
                        w = n
                    if w is None:
                        continue
                    alive = None
                    if w is n:
                        alive = True
                    elif w.k == "DeclRefExpr" and w.var is not None:
                        i = self.sy.tables(f)[0].get(w.var)
                        if i is not None and any(x.is_call() and x.callee is not None and x.callee.name == "lock" for x in i.walk()):
                            alive = True
                    if alive:
                        out.append((b, s, v))
        return out

    def propagates(self, f):
        c = self.c
        done = False
        for lp in loops(f):
            us = [n for n in lp.nodes() if n.is_call() and self.p.resolve(n) is not None and self.p.resolve(n).id in self.calls_unset and not on_this(n) or
                  (n.is_call() and self.p.resolve(n) is not None and self.p.resolve(n).id in self.calls_unset and n.params_args)]
            if not us:
                continue
            done = True
            c.count("invalidation loops")
            self.covers(f, lp, lambda n: n.is_call() and self.p.resolve(n) is not None and self.p.resolve(n).id in self.calls_unset and (n.params_args or not on_this(n)), "invalidated", "unset")
        if not done:
            algo = [n for n in f.calls() if n.callee is not None and n.callee.q in ("std::for_each",)]
            if algo or any(self.p.resolve(n) is not None and self.p.resolve(n).in_repo and self.p.resolve(n).name not in ("release",) and self.p.resolve(n).id not in self.unset for n in f.calls()):
                c.count("invalidation not understood")
                return
            c.violation("unset:downstream", f.info.loc, "dependents-not-invalidated", "%s does not invalidate the objects that depend on this one" % f.info.pretty)

    def covers(self, f, lp, pred, what, key):
        c = self.c
        # the loop ends only when the list is exhausted
        for b, cn, br, s in exits(lp):
            okx = False
            if cn is not None:
                for n in cn.walk():
                    if n.is_call() and n.callee is not None and n.callee.name in ("end", "cend", "empty"):
                        okx = True
                    if n.k == "DeclRefExpr" and n.var is not None:
                        i = self.sy.tables(f)[0].get(n.var)
                        if i is not None and any(x.is_call() and x.callee is not None and x.callee.name in ("end", "cend", "begin", "size") for x in i.walk()):
                            okx = True
                    if n.is_call() and n.callee is not None and n.callee.name == "size":
                        okx = True
            if f.blocks[b].d.get("nr") or self.p.throws_in_block(f, f.blocks[b]):
                continue
            if not okx:
                c.violation("%s:early" % key, f.info.loc, "loop-left-early", "%s can stop before all entries are %s" % (f.info.pretty, what))
        self.one_step(f, lp, what, key)
        le = self.lock_edges(f, lp)
        alive = [s for (b, s, v) in le if v]
        if not le:
            c.count("lock tests not understood")
            starts = [lp.header]
        else:
            starts = alive
        latches = {b for b in lp.body if lp.header in [s for s, _ in f.succs(f.blocks[b])]}
        for st in starts:
            seen, work = set(), [st]
            while work:
                b = work.pop()
                if b in seen or b not in lp.body:
                    continue
                seen.add(b)
                els, _ = f.block_elems(f.blocks[b])
                if any(isinstance(e, Node) and pred(e) for e in els):
                    continue
                if b in latches or (b == lp.header and st != lp.header):
                    c.violation("%s:skip" % key, f.info.loc, "live-entry-skipped", "%s can pass a live entry that is not %s" % (f.info.pretty, what))
                    return
                for s, _ in f.succs(f.blocks[b]):
                    if s != lp.header or b in latches:
                        work.append(s)
        # a path that never looks at the entry
        tests = {b for (b, s, v) in le}
        if le:
            seen, work = set(), [s for s, _ in f.succs(f.blocks[lp.header]) if s in lp.body]
            if lp.header in tests:
                work = []
            while work:
                b = work.pop()
                if b in seen or b in tests or b not in lp.body:
                    continue
                seen.add(b)
                els, _ = f.block_elems(f.blocks[b])
                if any(isinstance(e, Node) and pred(e) for e in els):
                    continue
                if lp.header in [s for s, _ in f.succs(f.blocks[b])]:
                    c.violation("%s:skip" % key, f.info.loc, "live-entry-skipped", "%s can pass an entry without looking whether it is alive" % f.info.pretty)
                    return
                work += [s for s, _ in f.succs(f.blocks[b])]

    def one_step(self, f, lp, what, key):
        """Every path through the loop body moves the iterator exactly one entry further."""
        its = set()
        for b, cn, br, s in exits(lp):
            if cn is None:
                continue
            for n in cn.walk():
                if n.k == "DeclRefExpr" and n.var is not None and "terator" in self.p.types[self.p.vars[n.var]["t"]]:
                    if any(x for x in updates(self.sy, f, n.var) if block_of(f, x) in lp.body):
                        its.add(n.var)
        for v in its:
            self.c.count("iterator loops")
            ups = {}
            for n in updates(self.sy, f, v):
                ups[n.id] = n

            def steps(n):
                if n.id not in ups:
                    return 0
                nm = n.callee.name if n.is_call() and n.callee is not None else n.d.get("op")
                if nm in ("operator++", "++"):
                    return 1
                if nm in ("operator=", "="):
                    rhs = (n.args[1] if n.is_call() else n.kids[1]).strip()
                    cal = [x for x in rhs.walk() if x.is_call() and x.callee is not None]
                    if any(x.callee.name in ("erase", "next") for x in cal):
                        # erase(iter++) moves before erasing; the assigned result is the next entry either way
                        return 1
                    return None
                return None
            # counts reachable at block entry
            cnt = {lp.header: {0}}
            work = [lp.header]
            bad = None
            while work:
                b = work.pop()
                els, _ = f.block_elems(f.blocks[b])
                inner = 0
                unk = False
                for e in els:
                    if isinstance(e, Node):
                        k = steps(e)
                        if k is None:
                            unk = True
                        else:
                            inner += k
                if unk:
                    self.c.count("iterator updates not understood")
                    return
                outs = {min(x + inner, 3) for x in cnt[b]}
                for s, _ in f.succs(f.blocks[b]):
                    if s not in lp.body:
                        continue
                    if s == lp.header:
                        if outs - {1}:
                            bad = outs
                        continue
                    if not outs <= cnt.get(s, set()):
                        cnt[s] = cnt.get(s, set()) | outs
                        work.append(s)
            if bad:
                self.c.violation("%s:step" % key, f.info.loc, "entry-passed-over", "%s moves %s entries in one round of the loop: an entry is passed over without being %s (or the loop does not advance)" % (f.info.pretty, "/".join(map(str, sorted(bad))), what))

    def graph_loop(self, f):
        c = self.c
        which = f.info.name
        pred = (lambda n: n.is_call() and n.callee is not None and n.callee.name in ("emplace_back", "push_back") and any(x.is_call() and x.callee is not None and x.callee.name == "dump" for a in n.params_args for x in a.walk())) if which == "dump" else \
               (lambda n: n.is_call() and n.callee is not None and n.callee.name == "load" and n.obj is not None)
        for lp in loops(f):
            if any(n.is_call() and n.callee is not None and n.callee.name == which for n in lp.nodes()):
                c.count("snapshot loops")
                if which == "dump" and not any(pred(n) for n in lp.nodes()):
                    pred = lambda n: n.is_call() and n.callee is not None and n.callee.name in ("emplace_back", "push_back")
                self.covers(f, lp, pred, "stored" if which == "dump" else "restored", "graph:" + which)
                return
        c.violation("graph:%s" % which, f.info.loc, "snapshot-incomplete", "%s does not visit the nodes" % f.info.pretty)

    def expired(self, f, n):
        b = block_of(f, n)
        for lp in loops(f):
            for (tb, s, alive) in self.lock_edges(f, lp):
                if alive:
                    continue
                # n must be unreachable within one iteration without taking the edge tb->s
                for cn, br in edge_guards(f, b):
                    blk = f.blocks[tb]
                    c2 = blk.d.get("lcond", blk.d.get("cond", -1))
                    if cn.id == c2 and (s, br) in f.succs(blk):
                        return True
        # remove_if(expired)
        if n.callee.name in ("remove_if", "erase") and any(x.k == "LambdaExpr" for a in n.params_args for x in a.walk()):
            return True
        return False


def norm(t):
    return t.replace(" ", "").replace("const&", "").replace("&", "")


def body(c):
    c.rules += [
        "every replacement of a stored value is preceded on all paths by invalidation of the dependents",
        "invalidation drops the own value and reaches every live dependent; entries leave the list only when expired",
        "every argument a node is computed from registers the node as its dependent on all paths; every data node is entered in the graph",
        "snapshots store and restore every live node with matching types",
    ]
    c.assumptions += ["the user's functions read only the declared arguments"]
    lz = os.path.join(VERIF, "harness", "lazy_all.cpp")
    for p in extract_many([(lz, [], False)] + square_jobs(False)):
        Lazy(c, p).check()
    c.need("replacements of stored values", 4)
    c.need("dependency registrations", 3)
    c.need("graph registrations", 2)
    c.need("release obligations", 2)
    c.need("invalidation functions", 1)


report.main("C11", "typestate and must-reach dataflow over the lazy graph's member functions", body)
