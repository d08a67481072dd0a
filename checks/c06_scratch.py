"""C06: memory of a scratch arena is never reachable after the arena is gone."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from ir import Node, REPO, extract_many
from report import main
from sym import Sym
from flow import forward
from poly import Poly, sym as psym, add, const, TOP
from loops import loops
import targets

PMR = "polymorphic_allocator"
GROW = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "emplace_hint", "try_emplace", "insert_or_assign", "resize", "assign", "operator[]", "merge", "splice"}
SKIPFILE = "pmr_resource.hpp"


def nested(t):
    """Does an element of container type t itself hold scratch memory?"""
    i = t.find("<")
    if i < 0 or PMR not in t:
        return False
    # first template argument list of the container without its own allocator: count allocator mentions that are
    # not the container's own (own allocator repeats the element type)
    depth, args, cur = 0, [], ""
    for ch in t[i + 1:t.rfind(">")]:
        if ch == "<":
            depth += 1
        if ch == ">":
            depth -= 1
        if ch == "," and depth == 0:
            args.append(cur)
            cur = ""
        else:
            cur += ch
    args.append(cur)
    head = t[:i]
    if "tuple" in head or "pair" in head or "array" in head:
        return any(PMR in a for a in args)
    return any(PMR in a and not a.strip().startswith("TAT::pmr::" + PMR) for a in args)


def is_guard(t):
    return "scope_resource<" in t and not t.endswith("&") and not t.endswith("*")


class Guards:
    """Live scratch arenas of the function at every point."""

    def __init__(self, prog, sy, fn, guard_types):
        self.p, self.sy, self.fn = prog, sy, fn
        self.gt = guard_types
        self.decl = {}

        def transfer(e, st):
            if isinstance(e, Node):
                if e.k == "DeclStmt":
                    for d in e.d["ds"]:
                        v = d.get("v")
                        if v is None:
                            continue
                        if v in self.decl:
                            self.decl[v] &= st
                        else:
                            self.decl[v] = st
                        if self.guard(prog.vtype(v)) and prog.vars[v]["k"] == "local":
                            st = st | {v}
            elif e.get("k") == "dtor" and e.get("v") in st:
                st = st - {e["v"]}
            return st
        self.transfer = transfer
        self.ins, _ = forward(fn, frozenset(), transfer, lambda a, b: a | b)

    def guard(self, t):
        return is_guard(t) or t.replace("const ", "") in self.gt

    def walk(self):
        for bid in self.ins:
            st = self.ins[bid]
            els, _ = self.fn.block_elems(self.fn.blocks[bid])
            for e in els:
                yield e, st
                st = self.transfer(e, st)


def root_var(n):
    n = n.strip()
    while True:
        n = n.strip()
        if n.k == "MemberExpr" and n.kids:
            n = n.kids[0]
        elif n.k == "UnaryOperator" and n.op in ("*", "&"):
            n = n.kids[0]
        elif n.k == "ArraySubscriptExpr":
            n = n.kids[0]
        elif n.is_call() and n.obj is not None and n.callee is not None and not (n.callee.ret and PMR in n.callee.ret and not n.callee.ret.endswith("&")):
            n = n.obj
        elif n.k == "CallExpr" and n.callee is not None and n.callee.q == "std::get" and n.args:
            n = n.args[0]
        else:
            break
    if n.k == "DeclRefExpr":
        return n.var
    if n.k == "CXXThisExpr":
        return "this"
    return None


def resolve_ref(sy, fn, v, depth=0):
    """Root variable a reference variable refers to."""
    if v is None or v == "this" or depth > 8:
        return v
    init, bind, _ = sy.tables(fn)
    k = sy.p.vars[v]["k"]
    if k == "binding" and v in bind:
        return resolve_ref(sy, fn, root_var(bind[v]), depth + 1)
    t = sy.p.vtype(v)
    if k == "local" and v in init and (t.endswith("&") or "iterator" in t or t.endswith("*")):
        r = root_var(init[v])
        return resolve_ref(sy, fn, r, depth + 1) if r is not None else v
    return v


def direct_store(e):
    """Does call e create an element (or exchange storage) inside its object with the scratch allocator?"""
    o = e.obj
    if o is None or e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or e.callee is None:
        return False
    ot = o.strip().type
    name = e.callee.name
    if name in GROW and nested(ot):
        return not (name == "operator[]" and "map" not in ot.split("<")[0])
    return name == "swap" and PMR in ot or name == "operator=" and nested(ot)


def stored_by(prog, sy, fn, e):
    """Variables (or 'this') of fn's frame into which call e stores scratch elements."""
    out = []
    if direct_store(e):
        v = resolve_ref(sy, fn, root_var(e.obj))
        if v is not None:
            out.append((v, ""))
        return out
    r = prog.resolve(e)
    if r is None or r.body is None or not r.in_repo or r.body.nocfg or r.file.endswith(SKIPFILE):
        return out
    for s in store_summary(prog, sy, r.body):
        if s == "this":
            v = resolve_ref(sy, fn, root_var(e.obj)) if e.obj is not None else None
        elif s[0] == "param":
            pa = e.params_args
            v = resolve_ref(sy, fn, root_var(pa[s[1]])) if s[1] < len(pa) else None
        else:
            v = s[1]
        if v is not None:
            out.append((v, " (in %s called here)" % r.name))
    return out


def store_summary(prog, sy, fn):
    memo = prog.__dict__.setdefault("_storesum", {})
    if fn.info.id in memo:
        return memo[fn.info.id]
    memo[fn.info.id] = set()
    local = {d["v"] for n in fn.nodes() if n.k == "DeclStmt" for d in n.d["ds"] if d.get("v") is not None}
    out = set()
    for e in fn.calls():
        for v, _ in stored_by(prog, sy, fn, e):
            if v == "this":
                out.add("this")
            elif v in fn.info.params:
                if sy.p.vtype(v).endswith("&"):
                    out.add(("param", fn.info.params.index(v)))
            elif v not in local:
                out.add(("var", v))
    memo[fn.info.id] = out
    return out


def check_functions(c, prog, sy, guard_types):
    for fn in prog.repo_fns():
        if fn.nocfg or fn.info.file.endswith(SKIPFILE):
            continue
        has = any((is_guard(prog.vtype(d["v"])) or prog.vtype(d["v"]).replace("const ", "") in guard_types)
                  for n in fn.nodes() if n.k == "DeclStmt" for d in n.d["ds"] if d.get("v") is not None)
        ret = fn.info.ret
        if not has:
            continue
        c.count("functions with a scratch arena")
        g = Guards(prog, sy, fn, guard_types)
        key = fn.info.name
        for e, st in list(g.walk()):
            if not isinstance(e, Node) or not st:
                continue
            if e.k == "ReturnStmt" and e.kids:
                c.count("returns while an arena is live")
                t = ret
                if PMR in t and not t.endswith("&") and not t.endswith("*"):
                    s = e.kids[0].strip()
                    while s.k in ("CXXConstructExpr",) and len(s.args) == 1:
                        s = s.args[0].strip()
                    v = s.var if s.k == "DeclRefExpr" else None
                    if v is not None and v in g.decl and not (g.decl[v] & st) and not nested(t):
                        continue   # constructed before the arena existed
                    if v is not None and v in g.decl and not (g.decl[v] & st):
                        continue   # nested growth is judged below
                    c.violation("return:" + key, e.loc, "result refers to scratch memory", "%s returns a container whose memory is in the scratch arena that the function releases" % fn.info.q)
                continue
            if e.is_call() and e.callee is not None:
                cal = e.callee
                if cal.q in ("std::make_shared", "std::make_unique", "std::allocate_shared") and cal.d.get("targs") and PMR in str(cal.d["targs"][0]):
                    c.violation("heap:" + key, e.loc, "long-lived object in scratch memory", "%s puts a container of the scratch arena into an object that outlives it" % fn.info.q)
                for v, how in stored_by(prog, sy, fn, e):
                    if v == "this":
                        outer = True
                    elif v in g.decl:
                        outer = bool(st - g.decl[v])
                    elif v in fn.info.params:
                        outer = sy.p.vtype(v).endswith("&")
                    else:
                        outer = True      # captured, or an object of the caller
                    if outer:
                        c.violation("store:" + key, e.loc, "container outlives the arena of its elements",
                                    "%s stores elements allocated in a scratch arena in a container that outlives the arena%s" % (fn.info.q, how))
                c.count("calls while an arena is live")
            if e.k == "CXXNewExpr" and PMR in e.type:
                c.violation("heap:" + key, e.loc, "long-lived object in scratch memory", "%s puts a container of the scratch arena into an object that outlives it" % fn.info.q)


def check_types(c, prog):
    for r in prog.records:
        f = prog.files[r["f"]]
        if not f.startswith(REPO + "/") or f.endswith(SKIPFILE):
            continue
        for x in r["fields"]:
            t = prog.types[x["t"]]
            c.count("fields inspected")
            if PMR in t and "iterator" not in t:
                # classes that only live as locals of operations are fine: those declared inside functions or helper aggregates never stored
                if prog.types[r["t"]] in STORED(prog):
                    c.violation("field:%s.%s" % (r["q"].split("<")[0], x["n"]), "%s:%d" % (f, x["l"]), "stored object in scratch memory", "%s keeps %s in scratch memory although it outlives operations" % (r["q"], x["n"]))
            if is_guard(t):
                c.violation("guardfield:%s" % r["q"].split("<")[0], "%s:%d" % (f, x["l"]), "arena outlives its scope", "%s holds a scratch arena as a member: arenas are then not released in the reverse order" % r["q"])
        for b in r["bases"]:
            bt = prog.types[b["t"]] if isinstance(b, dict) and "t" in b else (prog.types[b] if isinstance(b, int) else str(b))
            if PMR in bt and prog.types[r["t"]] in STORED(prog):
                c.violation("base:%s" % r["q"].split("<")[0], "%s:%d" % (f, r["l"]), "stored object in scratch memory", "%s derives from a container in scratch memory although it outlives operations" % r["q"])
    for v in prog.vars:
        if v["k"] in ("global", "static", "staticlocal", "member_static") and PMR in prog.types[v["t"]] and prog.files[v["f"]].startswith(REPO):
            c.violation("static:" + v["n"], "%s:%d" % (prog.files[v["f"]], v["l"]), "stored object in scratch memory", "the static object %s allocates from whatever scratch arena is live when it is first used" % v["n"])
    for d in prog.decls:
        if d.get("kind") == "var" and PMR in prog.types[d["t"]] and prog.files[d["f"]].startswith(REPO):
            c.violation("static:" + d["q"], "%s:%d" % (prog.files[d["f"]], d["l"]), "stored object in scratch memory", "the static object %s allocates from whatever scratch arena is live when it is first used" % d["q"])


def STORED(prog):
    """Record names reachable by value from what operations return or users hold."""
    s = getattr(prog, "_stored", None)
    if s is None:
        recs = {}
        for r in prog.records:
            recs[prog.types[r["t"]]] = r
        st = [t for t, r in recs.items() if r["q"].split("::")[-1] in ("Tensor", "Core", "Singular", "FastName", "TensorShape", "Edge", "BoseEdge", "FermiEdge", "svd_result", "qr_result") or r["q"].startswith("square::") or r["q"].startswith("lazy::")]
        seen = set()
        while st:
            q = st.pop()
            if q in seen:
                continue
            seen.add(q)
            r = recs[q]
            ts = [prog.types[x["t"]] for x in r["fields"]]
            ts += [prog.types[b["t"]] if isinstance(b, dict) and "t" in b else (prog.types[b] if isinstance(b, int) else str(b)) for b in r["bases"]]
            for t in ts:
                for o in recs:
                    if o not in seen and o in t:
                        st.append(o)
        s = prog._stored = seen
    return s


def check_guard_class(c, prog, sy):
    """Classes that install a resource restore the previous one."""
    setters = [f for f in prog.fninfo if f.q == "TAT::pmr::set_default_resource"]
    if not setters:
        return set()
    sid = {f.id for f in setters}
    guard_types = set()
    # set_default_resource returns the previous value
    for f in setters:
        if f.body is not None and not f.body.nocfg and not loops(f.body):
            b = f.body
            order = []
            for n in b.live_nodes():
                if n.k == "BinaryOperator" and n.op == "=":
                    order.append(("set", n))
                if n.k == "DeclStmt":
                    order.append(("decl", n))
                if n.k == "ReturnStmt":
                    order.append(("ret", n))
            rets = [n for k, n in order if k == "ret"]
            sets = [n for k, n in order if k == "set" and n.kids[0].strip().k == "DeclRefExpr" and sy.p.vars[n.kids[0].strip().var]["k"] == "global"]
            exch = any(n.is_call() and n.callee is not None and n.callee.q == "std::exchange" for n in b.live_nodes())
            c.count("arena installation functions")
            if not exch and rets and sets:
                s = rets[0].kids[0].strip()
                init = sy.tables(b)[0].get(s.var) if s.k == "DeclRefExpr" else None
                ok = False
                if init is not None:
                    i = init.strip()
                    while i.is_call() and i.callee is not None and i.callee.body is not None and not i.args:
                        rr = [x for x in i.callee.body.live_nodes() if x.k == "ReturnStmt"]
                        i = rr[0].kids[0].strip() if rr else i
                        break
                    if i.k == "DeclRefExpr" and i.var == sets[0].kids[0].strip().var:
                        # the old value is read before the store
                        ids = [n.id for k, n in order if k in ("decl", "set")]
                        d = next(n for k, n in order if k == "decl" and any(x.get("v") == s.var for x in n.d["ds"]))
                        ok = ids.index(d.id) < ids.index(sets[0].id)
                if not ok:
                    c.violation("setter", f.loc, "previous resource", "set_default_resource does not return the resource that was installed before")
            elif not exch and not sets:
                c.violation("setter", f.loc, "previous resource", "set_default_resource does not install its argument")
    ctor_field, dtor_field, cls_loc = {}, {}, {}
    for fn in prog.repo_fns():
        if fn.nocfg or fn.info.id in sid:
            continue
        for bid in fn.live():
            els, _ = fn.block_elems(fn.blocks[bid])
            for e in els:
                if isinstance(e, Node) and e.is_call() and prog.resolve(e) is not None and prog.resolve(e).id in sid:
                    c.count("arena installations")
                    nm = fn.info.name
                    cls = fn.info.cls
                    if cls is None or not (fn.info.is_ctor or nm.startswith("~")):
                        c.violation("install:" + nm, e.loc, "arena installation", "%s changes the default resource outside a scope object: it is not restored when an exception leaves" % fn.info.q)
                        continue
                    cls_loc[cls] = fn.info.loc
                    if fn.info.is_ctor:
                        # which field receives the previous resource
                        for x in els:
                            if isinstance(x, dict) and x.get("k") == "init" and x.get("init", -1) >= 0 and any(y.id == e.id for y in fn.node(x["init"]).walk()):
                                ctor_field[cls] = x["m"]
                        for x in fn.live_nodes():
                            if x.k == "BinaryOperator" and x.op == "=" and any(y.id == e.id for y in x.kids[1].walk()) and x.kids[0].strip().k == "MemberExpr":
                                ctor_field[cls] = x.kids[0].strip().d["m"]
                        ctor_field.setdefault(cls, None)
                    else:
                        a = e.args[0].strip()
                        dtor_field[cls] = a.d["m"] if a.k == "MemberExpr" else None
                        # the arena itself also remembers what was installed when it was made
                        if (a.k == "MemberExpr" and a.d["m"] == "m_upstream") or (a.is_call() and a.callee is not None and a.callee.name == "upstream_resource"):
                            dtor_field[cls] = "#upstream"
    for cls, f in ctor_field.items():
        guard_types.add(cls)
        c.count("scope objects")
        if cls not in dtor_field:
            c.violation("restore:" + cls.split("<")[0], cls_loc[cls], "resource restored", "%s installs a resource and never restores the previous one" % cls)
        elif dtor_field[cls] != "#upstream" and (dtor_field[cls] is None or f is None or dtor_field[cls] != f):
            c.violation("restore:" + cls.split("<")[0], cls_loc[cls], "resource restored", "%s does not restore the resource that was installed before it" % cls)
        # the arena must take its upstream before it is installed itself
        rec = [r for r in prog.records if prog.types[r["t"]] == cls]
        if rec:
            names = [x["n"] for x in rec[0]["fields"]]
            ar = [x["n"] for x in rec[0]["fields"] if prog.types[x["t"]].endswith("_resource")]
            if f in names and ar and names.index(f) < names.index(ar[0]):
                c.violation("order:" + cls.split("<")[0], cls_loc[cls], "resource order", "%s installs its arena before the arena has found its upstream: the arena becomes its own upstream" % cls)
            methods = {m["n"]: m for m in rec[0]["methods"]}
            for m in rec[0]["methods"]:
                if m["n"] in (cls.split("::")[-1].split("<")[0], "operator=") and not m["deleted"] and m["fn"] is not None:
                    fi = prog.fninfo[m["fn"]]
                    if fi.d.get("ctor") in ("copy", "move") or m["n"] == "operator=":
                        c.violation("copy:" + cls.split("<")[0], fi.loc, "arena not copied", "%s can be copied: two objects then restore the same resource" % cls)
    return guard_types


def check_arena(c, prog):
    """Bump allocation: what remains plus what was handed out is exactly the buffer."""
    for fn in prog.repo_fns():
        if fn.info.clsn and "monotonic_buffer_resource" in str(fn.info.cls) and fn.info.name == "allocate_from_current" and len(fn.info.params) == 2:
            p = Poly(prog)
            this = ("loc", (("arena",),))
            st = {}
            B, S = psym("buffer"), psym("size")
            p.put(st, (("arena",), "m_current_buffer"), B)
            p.put(st, (("arena",), "m_current_buffer_size"), S)
            a, b = psym("aligner"), psym("bytes")
            res = p.run(fn, this, [a, b], st)
            if res is None:
                continue
            for ret, env, cons in res:
                c.count("arena allocation paths")
                nb, ns = p.get(env, (("arena",), "m_current_buffer")), p.get(env, (("arena",), "m_current_buffer_size"))
                if nb == TOP or ns == TOP or ret is None or ret == TOP:
                    continue
                if add(add(nb, ns), add(B, S), -1) != const(0):
                    c.violation("arena:end", fn.info.loc, "arena accounting", "allocate_from_current: position plus remaining size changes, so later allocations pass the end of the buffer")
                if add(ret, add(B, a), -1) != const(0):
                    c.violation("arena:aligned", fn.info.loc, "arena accounting", "allocate_from_current does not return the aligned position")
                if add(nb, add(ret, b), -1) != const(0):
                    c.violation("arena:overlap", fn.info.loc, "arena accounting", "allocate_from_current: the next allocation overlaps this one")
        if "monotonic_buffer_resource" in str(fn.info.cls) and fn.info.name == "do_deallocate":
            for n in fn.live_nodes():
                if n.k == "BinaryOperator" and n.op == "=" and n.kids[0].strip().k == "MemberExpr":
                    pass
        if "monotonic_buffer_resource" in str(fn.info.cls) and fn.info.name == "do_allocate":
            # a fresh buffer is at least as large as the request, and its recorded size is the size requested
            up = [n for n in fn.calls() if n.callee is not None and n.callee.name == "allocate" and n.obj is not None]
            for n in up:
                c.count("arena refills")
                s = n.args[0].strip()
                if s.k == "MemberExpr":
                    for x in fn.live_nodes():
                        if x.k == "BinaryOperator" and x.op == "=" and x.kids[0].strip().k == "MemberExpr" and x.kids[0].strip().d["m"] == "m_current_buffer_size":
                            r = x.kids[1].strip()
                            if r.k == "MemberExpr" and r.d["m"] != s.d["m"]:
                                c.violation("arena:refill", x.loc, "arena accounting", "the recorded size of a fresh buffer is not the size that was allocated")
                            if r.k == "BinaryOperator" and r.op in ("+", "*"):
                                c.violation("arena:refill", x.loc, "arena accounting", "the recorded size of a fresh buffer exceeds the size that was allocated")
                    grown = [x for x in fn.calls() if x.callee is not None and x.callee.name == "increase_next_size_to" and x.args]
                    ok = any(any(y.k == "DeclRefExpr" and y.var == fn.info.params[0] for y in x.args[0].walk()) for x in grown)
                    if grown and not ok:
                        c.violation("arena:request", n.loc, "arena accounting", "a fresh buffer is not made large enough for the request")


def body(c):
    c.rules = [
        "a function whose scope object is live returns no container allocated under it and stores no such element in a container that outlives it",
        "no field of tensors, edges, singular values or lattices and no static object uses the scratch allocator",
        "scope objects are automatic, not copyable, and restore the previously installed resource",
        "bump allocation keeps position + remaining size constant and returns disjoint aligned ranges",
    ]
    c.assumptions = ["one thread (the library documents its resource as thread-unsafe)", "standard containers keep the allocator they were constructed with; copies take the current default (select_on_container_copy_construction)"]
    n = 0
    for prog in extract_many(targets.tensor_jobs(c.thorough) + targets.square_jobs(False)):
        sy = Sym(prog)
        gt = check_guard_class(c, prog, sy)
        check_functions(c, prog, sy, gt)
        check_types(c, prog)
        check_arena(c, prog)
    c.need("functions with a scratch arena", 5)
    c.need("scope objects", 1)


if __name__ == "__main__":
    main("C06", "lifetime analysis of scratch arenas over the clang CFG", body)
