"""Loading and navigation of the extractor's facts (one translation unit each).

A fact file holds, for every function definition under the analysed roots, the
clang CFG with all expressions linearised in evaluation order.  Everything here
is pure inspection: no repository code is executed.
"""
import json
import os
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
PY_INC = ["-isystem", "/usr/include/python3.12"]


class AnalysisBroken(Exception):
    pass


def build_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build: " + r.stdout[-2000:])


def extract(source, flags, roots=None, mpi=True, keep=None):
    """Parse `source` with clang and return the Prog."""
    build_tool()
    fd, out = tempfile.mkstemp(suffix=".json", prefix="facts.")
    os.close(fd)
    cmd = [os.path.join(VERIF, "build", "extract"), out, source] + (roots or [REPO + "/", VERIF + "/harness/"])
    cmd += ["--", "-std=c++17", "-I" + REPO + "/include"] + (MPI_INC + ["-DTAT_USE_MPI"] if mpi else []) + list(flags)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode:
            errs = [l for l in r.stdout.splitlines() if " error: " in l]
            raise AnalysisBroken("cannot parse %s: %s" % (source, "\n".join(errs[:10]) or r.stdout[-2000:]))
        with open(out) as f:
            data = json.load(f)
        if keep:
            os.replace(out, keep)
            out = None
        return Prog(data, source)
    finally:
        if out and os.path.exists(out):
            os.unlink(out)


def extract_many(jobs):
    """jobs: list of (source, flags, mpi).  Parsed in parallel."""
    from concurrent.futures import ThreadPoolExecutor
    build_tool()
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(lambda j: extract(j[0], j[1], mpi=j[2] if len(j) > 2 else True), jobs))


TRANSPARENT = {
    "ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups",
    "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
    "CXXDefaultArgExpr", "CXXDefaultInitExpr", "OpaqueValueExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr",
}
MOVE_LIKE = {"std::move", "std::forward", "std::as_const", "std::addressof"}


class Node:
    __slots__ = ("fn", "id", "d")

    def __init__(self, fn, id, d):
        self.fn = fn
        self.id = id
        self.d = d

    @property
    def k(self):
        return self.d["k"]

    @property
    def kids(self):
        return [self.fn.node(i) for i in self.d["c"] if i >= 0]

    @property
    def line(self):
        return self.d["l"]

    @property
    def file(self):
        return self.fn.prog.files[self.d["f"]]

    @property
    def loc(self):
        return "%s:%d" % (self.file, self.line)

    @property
    def type(self):
        t = self.d.get("t", -1)
        return self.fn.prog.types[t] if t >= 0 else ""

    @property
    def op(self):
        return self.d.get("op")

    @property
    def callee(self):
        """FnInfo of the directly called/constructed function, or None."""
        if self.k.endswith("CallExpr") or self.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr"):
            f = self.d.get("fn")
            if f is not None:
                return self.fn.prog.fninfo[f]
        return None

    @property
    def args(self):
        """Explicit arguments (for operator members the object is the first)."""
        return [self.fn.node(i) for i in self.d.get("a", [])]

    @property
    def obj(self):
        """Implicit object of a member call (also of member operators)."""
        if "obj" in self.d:
            return self.fn.node(self.d["obj"])
        if self.d.get("omem"):
            return self.args[0]
        return None

    @property
    def params_args(self):
        """Arguments that correspond to callee parameters."""
        return self.args[1:] if self.d.get("omem") else self.args

    @property
    def var(self):
        return self.d.get("v")

    @property
    def iv(self):
        return self.d.get("iv")

    def is_call(self):
        return self.k.endswith("CallExpr") or self.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr")

    def strip(self, moves=True):
        n = self
        while True:
            if n.k in TRANSPARENT:
                sub = n.d.get("sub")
                if sub is not None and sub >= 0:
                    n = n.fn.node(sub)
                    continue
                ks = n.kids
                if len(ks) == 1 or (ks and n.k in ("SubstNonTypeTemplateParmExpr",)):
                    n = ks[-1]
                    continue
            if moves and n.k == "CallExpr" and n.callee and n.callee.q in MOVE_LIKE and len(n.args) == 1:
                n = n.args[0]
                continue
            return n

    def walk(self):
        yield self
        for c in self.kids:
            yield from c.walk()

    def __repr__(self):
        return "<%s@%s>" % (self.k, self.loc)


class FnInfo:
    """A function known to the translation unit (maybe without analysed body)."""

    def __init__(self, prog, id, d):
        self.prog = prog
        self.id = id
        self.d = d
        self.body = None

    q = property(lambda s: s.d["q"])
    name = property(lambda s: s.d["n"])
    pretty = property(lambda s: s.d["pretty"])
    file = property(lambda s: s.prog.files[s.d["f"]])
    line = property(lambda s: s.d["l"])
    loc = property(lambda s: "%s:%d" % (s.file, s.line))
    in_repo = property(lambda s: s.d["in"])
    ret = property(lambda s: s.prog.types[s.d["ret"]])
    params = property(lambda s: s.d["p"])
    param_types = property(lambda s: [s.prog.types[t] for t in s.d["pt"]])
    cls = property(lambda s: s.prog.types[s.d["cls"]] if "cls" in s.d else None)
    clsn = property(lambda s: s.d.get("clsn"))
    is_const = property(lambda s: s.d.get("const", False))
    is_ctor = property(lambda s: "ctor" in s.d)
    is_lambda = property(lambda s: s.d.get("lambda", False))

    @property
    def key(self):
        """Source-level identity shared by all instantiations."""
        if "pf" in self.d:
            return (self.prog.files[self.d["pf"]], self.d["pl"], self.name)
        return (self.file, self.line, self.name)

    def __repr__(self):
        return "<fn %s>" % self.pretty


class Block:
    __slots__ = ("id", "elems", "succs", "d", "preds")

    def __init__(self, d):
        self.d = d
        self.id = d["id"]
        self.elems = d["e"]
        self.succs = d["s"]
        self.preds = []


class Fn:
    """A function body."""

    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self.info = prog.fninfo[d["id"]]
        self._nodes = {}
        self.raw = d["n"]
        self.blocks = {}
        self.nocfg = d.get("nocfg", False)
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        for b in d.get("b", []):
            self.blocks[b["id"]] = Block(b)
        self._live = None

    def node(self, i):
        n = self._nodes.get(i)
        if n is None:
            n = self._nodes[i] = Node(self, i, self.raw[i])
        return n

    def nodes(self):
        for i in range(len(self.raw)):
            yield self.node(i)

    def block_elems(self, b):
        """Node or dict (init/dtor/tdtor) elements of a block, cut after a call that never returns."""
        out = []
        for e in b.elems:
            if isinstance(e, int):
                n = self.node(e)
                out.append(n)
                if self.prog.call_never_returns(n):
                    return out, True
            else:
                out.append(e)
        return out, b.d.get("nr", False)

    def succs(self, b):
        """List of (successor block id, branch) with branch True/False/None/case."""
        _, dead = self.block_elems(b)
        if dead:
            return []
        ss = b.succs
        res = []
        if "cond" in b.d or b.d.get("term") in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "ConditionalOperator", "CXXForRangeStmt", "BinaryOperator"):
            if len(ss) == 2:
                if ss[0] >= 0:
                    res.append((ss[0], True))
                if ss[1] >= 0:
                    res.append((ss[1], False))
                return res
        for s in ss:
            if s >= 0:
                res.append((s, None))
        return res

    def live(self):
        """Blocks reachable from the entry."""
        if self._live is None:
            seen = set()
            st = [self.entry]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for s, _ in self.succs(self.blocks[x]):
                    st.append(s)
            self._live = seen
        return self._live

    def live_nodes(self):
        """All nodes occurring as CFG elements of live blocks, in block order."""
        for bid in sorted(self.live(), reverse=True):
            els, _ = self.block_elems(self.blocks[bid])
            for e in els:
                if isinstance(e, Node):
                    yield e

    def calls(self):
        for n in self.live_nodes():
            if n.is_call():
                yield n

    def __repr__(self):
        return "<body %s>" % self.info.pretty


class Prog:
    def __init__(self, data, source):
        self.source = source
        self.types = data["types"]
        self.files = data["files"]
        self.vars = data["vars"]
        self.fninfo = [FnInfo(self, i, d) for i, d in enumerate(data["fns"])]
        self.decls = data["decls"]
        self.records = data["records"]
        self.templates = data["templates"]
        self._nr = {}
        self.fns = []
        for d in data["bodies"]:
            f = Fn(self, d)
            f.info.body = f
            self.fns.append(f)
        self._infer_noreturn()
        for f in self.fns:
            f._live = None

    def rel(self, path):
        return path[len(REPO) + 1:] if path.startswith(REPO + "/") else path

    def vname(self, v):
        return self.vars[v]["n"]

    def vtype(self, v):
        return self.types[self.vars[v]["t"]]

    def var_fn(self, v):
        """Function a const function-pointer variable is initialised with."""
        f = self.vars[v].get("fninit")
        return self.fninfo[f] if f is not None else None

    def resolve(self, n):
        """Callee of call node n: direct callee, or through a constant function pointer."""
        c = n.callee
        if c is None and n.k == "CallExpr":
            cn = n.d.get("callee", -1)
            if cn >= 0:
                s = n.fn.node(cn).strip()
                if s.k == "UnaryOperator" and s.op == "*":
                    s = s.kids[0].strip()
                if s.k == "DeclRefExpr":
                    if s.var is not None:
                        return self.var_fn(s.var)
                    if "fn" in s.d:
                        return self.fninfo[s.d["fn"]]
        return c

    def call_never_returns(self, n):
        if not n.is_call():
            return False
        c = self.resolve(n)
        if c is None:
            return False
        return self._nr.get(c.id, False) or c.d.get("noreturn", False)

    def _infer_noreturn(self):
        changed = True
        while changed:
            changed = False
            for f in self.fns:
                if f.nocfg or self._nr.get(f.info.id):
                    continue
                f._live = None
                if f.exit not in f.live() or not self._exit_reached(f):
                    self._nr[f.info.id] = True
                    changed = True

    def _exit_reached(self, f):
        # exit is reached normally if some live predecessor does not end in a throw
        for bid in f.live():
            b = f.blocks[bid]
            els, dead = f.block_elems(b)
            if dead:
                continue
            if f.exit in [s for s, _ in f.succs(b)]:
                if any(isinstance(e, Node) and e.k == "CXXThrowExpr" for e in els):
                    continue
                return True
        return False

    def throws_in_block(self, f, b):
        els, dead = f.block_elems(b)
        return any(isinstance(e, Node) and e.k == "CXXThrowExpr" for e in els) or dead

    def by_name(self, q):
        return [f for f in self.fns if f.info.q == q]

    def repo_fns(self):
        return [f for f in self.fns if f.info.file.startswith(REPO + "/")]
