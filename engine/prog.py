"""Reads the code under verification: parses pyNTM's current source, finds
classes, functions and property accessors, and computes static write effects."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
SKIP = {"weathermap.py"}


class Fn:
    def __init__(self, cls, name, node, mod, kind):
        self.cls, self.name, self.node, self.mod, self.kind = cls, name, node, mod, kind
        # kind: method | getter | setter | classmethod | function
        self.qual = (cls + "." if cls else "") + name + (".setter" if kind == "setter" else "")

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]

    @property
    def defaults(self):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[x.arg] = v
        return d

    @property
    def body(self):
        b = self.node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            return b[1:]
        return b


class Program:
    def __init__(self, repo=REPO):
        self.classes, self.bases, self.mod_funcs, self.imports, self.src = {}, {}, {}, {}, {}
        self.module_consts = {}
        d = os.path.join(repo, "pyNTM")
        for f in sorted(os.listdir(d)):
            if f.endswith(".py") and f not in SKIP:
                src = open(os.path.join(d, f), encoding="utf-8").read()
                self.src[f] = src
                tree = ast.parse(src)
                for n in tree.body:
                    if isinstance(n, ast.ClassDef):
                        self._cls(n, f)
                    elif isinstance(n, ast.FunctionDef):
                        self.mod_funcs[n.name] = Fn(None, n.name, n, f, "function")
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                        self.module_consts[f, n.targets[0].id] = n.value

    def _cls(self, n, f):
        m = {}
        for x in n.body:
            if isinstance(x, ast.FunctionDef):
                kind = "method"
                for d in x.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "property":
                        kind = "getter"
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        kind = "setter"
                    elif isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod"):
                        kind = d.id
                m[x.name + (".setter" if kind == "setter" else "")] = Fn(n.name, x.name, x, f, kind)
        self.classes[n.name] = m
        self.bases[n.name] = [b.id for b in n.bases if isinstance(b, ast.Name) and b.id != "object"]

    def mro(self, cls):
        out = [cls]
        for b in self.bases.get(cls, []):
            out += self.mro(b)
        return out

    def find(self, cls, name):
        for c in self.mro(cls):
            f = self.classes.get(c, {}).get(name)
            if f is not None:
                return f
        return None

    def reads(self, fn):
        """Attribute names read by fn or by anything it may call (by name)."""
        if getattr(self, "_by_name", None) is None:
            self._by_name, self._reads = {}, {}
            for f in [f for m in self.classes.values() for f in m.values()] + list(self.mod_funcs.values()):
                self._by_name.setdefault(f.name, []).append(f)
        if fn not in self._reads:
            names, todo, seen = set(), [fn], set()
            while todo:
                f = todo.pop()
                if f in seen:
                    continue
                seen.add(f)
                for n in ast.walk(f.node):
                    m = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                    if m is not None:
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                            names.add(m)
                        todo += self._by_name.get(m, [])
            self._reads[fn] = names
        return self._reads[fn]

    def function(self, qual):
        """Fn of 'Class.name', 'Class.name.setter' or 'name'."""
        p = qual.split(".")
        if len(p) == 1:
            return self.mod_funcs.get(p[0])
        return self.classes.get(p[0], {}).get(".".join(p[1:]))


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def mutated_names(stmts):
    """Local names whose container may be mutated: x.add(..), x[..] = .., x[..].append(..)."""
    out = set()
    MUT = {"add", "append", "remove", "discard", "update", "extend", "pop", "reverse", "sort", "clear", "setdefault"}

    def root(e):
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                r = root(n.func.value)
                if r:
                    out.add(r)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = root(n)
                if r:
                    out.add(r)
    return out
