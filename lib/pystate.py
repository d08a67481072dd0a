"""State kept between calls in the Python package: default arguments and shared tables that functions modify."""
import ast
import os
from ir import REPO

MUT = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "__setitem__", "__delitem__",
       "difference_update", "intersection_update", "symmetric_difference_update"}


def mutable_value(v):
    if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and (getattr(v.func, "id", None) or v.func.attr) in ("dict", "list", "set", "defaultdict", "deque", "Counter", "OrderedDict")


def root(n):
    """The expression whose object is reached by subscripts/attributes."""
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n


def modifications(f, match):
    """Nodes in f that modify an object denoted by an expression for which match(expr) holds (or an item inside it)."""
    def hits(e):
        while True:
            if match(e):
                return True
            if isinstance(e, (ast.Subscript, ast.Attribute)):
                e = e.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("setdefault", "get"):
                e = e.func.value
            else:
                return False
    for n in ast.walk(f):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and hits(n.value):
            yield n
        elif isinstance(n, ast.AugAssign) and match(n.target):
            yield n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and hits(n.func.value):
            yield n


def rebinds(f, name):
    """The statement that rebinds a parameter at the top of the function body (before that it may denote the shared default)."""
    for s in f.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, ast.Name) and t.id == name and s.value is not None and not (isinstance(s.value, ast.Name) and s.value.id == name):
                    return s.end_lineno
    return None


def run(c):
    d = REPO + "/square"
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        p = os.path.join(d, fn)
        rel = os.path.relpath(p, REPO)
        tree = ast.parse(open(p, encoding="utf-8").read())
        shared = {}
        for s in tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and mutable_value(s.value):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name) and not t.id.startswith("__"):
                        shared[("module", t.id)] = s
        for cl in [x for x in tree.body if isinstance(x, ast.ClassDef)]:
            for s in cl.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and mutable_value(s.value):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(t, ast.Name) and not t.id.startswith("__"):
                            # an attribute that constructors always assign is per object
                            inits = [f for f in cl.body if isinstance(f, ast.FunctionDef) and f.name == "__init__"]
                            own = inits and all(any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == t.id and isinstance(x.value, ast.Name) and x.value.id == "self" for x in ast.walk(f)) for f in inits)
                            if not own:
                                shared[(cl.name, t.id)] = s
        for f in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.Lambda))]:
            if isinstance(f, ast.Lambda):
                continue
            c.count("Python functions")
            a = f.args
            pos = a.posonlyargs + a.args
            defs = list(zip(reversed(pos), reversed(a.defaults))) + [(k, v) for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]
            for par, v in defs:
                c.count("Python default arguments")
                if not mutable_value(v):
                    continue
                c.count("Python mutable default arguments")
                end = rebinds(f, par.arg)
                for n in modifications(f, lambda e: isinstance(e, ast.Name) and e.id == par.arg):
                    if end is None or n.lineno <= end:
                        c.violation("pydefault:%s:%s:%s" % (fn, f.name, par.arg), "%s:%d" % (rel, n.lineno), "default argument modified",
                                    "%s modifies its argument '%s', whose default is one object shared by all calls: a later call sees what an earlier one left (and the caller's object changes)" % (f.name, par.arg))
            for (owner, name), s in shared.items():
                glob = any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(f))

                def m(e):
                    if owner == "module":
                        return isinstance(e, ast.Name) and e.id == name
                    return isinstance(e, ast.Attribute) and e.attr == name
                for n in modifications(f, m):
                    c.count("Python modifications of shared tables")
                    if owner == "module" and not glob and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
                        continue
                    why = keyed_ok(f, n)
                    if why:
                        c.sample("%s.%s: %s" % (owner, name, why), 20)
                        continue
                    c.violation("pyshared:%s:%s" % (fn, name), "%s:%d" % (rel, n.lineno), "shared table modified",
                                "%s modifies '%s', a table shared by all objects and calls, without holding on to the object the entry belongs to" % (f.name, name))


def keyed_ok(f, n):
    """A memo table is harmless when its entry is determined by the key: the key is the object itself, or id(object) with the object kept in the entry."""
    if not isinstance(n, ast.Subscript):
        return None
    key = n.slice
    params = {a.arg for a in f.args.args}
    ids = set()
    if isinstance(key, ast.Name):
        for s in ast.walk(f):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == key.id for t in s.targets):
                key2 = s.value
                break
        else:
            key2 = key
        key = key2
    if isinstance(key, ast.Call) and isinstance(key.func, ast.Name) and key.func.id == "id" and key.args and isinstance(key.args[0], ast.Name):
        obj = key.args[0].id
        for s in ast.walk(f):
            if isinstance(s, ast.Assign) and any(t is n for t in s.targets):
                v = s.value
                if isinstance(v, ast.Name):
                    for z in ast.walk(f):
                        if isinstance(z, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in z.targets) and isinstance(z.value, (ast.Tuple, ast.List)):
                            v = z.value
                if isinstance(v, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == obj for x in v.elts):
                    return "keyed by id, the entry keeps the object alive"
        return None
    return None
