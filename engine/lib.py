"""Field schema, contracts and spec macros: parsed from /verif/contracts."""
import ast
import os

from vals import Builtin, ClsV, ModV, Opaque, parse_ty

CDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
NX_EXC = {"NetworkXNoPath", "NodeNotFound"}


class Contract:
    def __init__(self, qual, node, props, mode):
        self.qual, self.node, self.props, self.mode = qual, node, props, mode
        self.file = ""
        self.params = {}
        self.result = None
        self.requires, self.ensures, self.raises, self.updates, self.modifies = [], [], [], [], []
        self.returns, self.loops, self.on_raise, self.lemmas, self.lets = [], {}, [], [], []
        self.assumed = mode == "assumed"
        self.inline = []
        self.note = ""
        self.types = {}
        self.defaults = {}
        self.steps = {}
        self.afters = {}
        self.mays, self.raise_modifies, self.raise_ensures = [], [], []


class Lib:
    def __init__(self, prog, cdir=CDIR):
        self.prog = prog
        self.fields, self.contracts, self.specs = {}, {}, {}
        self.opaque = set()
        self.cls = {}
        self.global_assumptions = []
        for f in sorted(os.listdir(cdir)):
            if f.endswith(".py"):
                self.load(os.path.join(cdir, f))

    def class_id(self, c):
        return self.cls.setdefault(c, len(self.cls))

    def classes_with(self, attr):
        out = [c for c in self.prog.classes if self.prog.find(c, attr) is not None
               or any("%s.%s" % (k, attr) in self.fields for k in self.prog.mro(c))]
        return out

    def mod_attr(self, mod, name):
        if mod == "random" and name == "choice":
            return Builtin("random.choice")
        if mod == "itertools":
            return Builtin("itertools." + name)
        if mod == "nx":
            if name == "exception":
                return ModV("nx")
            return Builtin("nx." + name)
        if mod in ("datetime", "time"):
            return Builtin("opaque")
        return Opaque("%s.%s" % (mod, name))

    # contract files ---------------------------------------------------------
    def load(self, path):
        tree = ast.parse(open(path).read())
        for n in tree.body:
            if isinstance(n, ast.Assign) and n.targets[0].id == "FIELDS":
                for k, v in ast.literal_eval(n.value).items():
                    for a, t in v.items():
                        self.fields["%s.%s" % (k, a)] = parse_ty(t)
            elif isinstance(n, ast.FunctionDef):
                d = n.decorator_list[0]
                if isinstance(d, ast.Name) and d.id in ("spec", "opaque"):
                    self.specs[n.name] = n
                    if d.id == "opaque":
                        self.opaque.add(n.name)
                elif isinstance(d, ast.Call) and d.func.id == "contract":
                    self.contract(n, d, path)

    def contract(self, n, d, path):
        kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
        c = Contract(ast.literal_eval(d.args[0]), n, kw.get("props", []), kw.get("mode", "proof"))
        c.inline = kw.get("inline", [])
        c.types = {k: parse_ty(v) for k, v in kw.get("types", {}).items()}
        c.maxpaths = kw.get("maxpaths", 400)
        c.timeout = kw.get("timeout", None)
        c.allocates = kw.get("allocates", False)
        c.wall = kw.get("wall", None)
        c.note = ast.get_docstring(n) or ""
        c.file = os.path.basename(path)
        c.opaque_result = kw.get("opaque_result", False)
        c.recv = kw.get("recv", None)
        for a in n.args.args:
            c.params[a.arg] = parse_ty(ast.literal_eval(a.annotation))
        if n.returns is not None:
            c.result = parse_ty(ast.literal_eval(n.returns))
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign):
                c.lets.append((s.targets[0].id, s.value))
                continue
            k = s.value
            f = k.func.id
            if f == "requires":
                c.requires.append(k.args[0])
            elif f == "ensures":
                c.ensures.append(k.args[0])
            elif f in ("raises", "may_raise"):
                exc = k.args[0]
                names = [e.id for e in exc.elts] if isinstance(exc, ast.Tuple) else [exc.id]
                (c.raises if f == "raises" else c.mays).append((names, k.args[1]))
            elif f == "raise_modifies":
                c.raise_modifies.append((ast.literal_eval(k.args[0]), k.args[1] if len(k.args) > 1 else None))
            elif f == "raise_ensures":
                c.raise_ensures.append(k.args[0])
            elif f in ("updates", "on_raise"):
                (c.updates if f == "updates" else c.on_raise).append((ast.literal_eval(k.args[0]), k.args[1], k.args[2] if len(k.args) > 2 else None))
            elif f == "modifies":
                c.modifies.append((ast.literal_eval(k.args[0]), k.args[1] if len(k.args) > 1 else None))
            elif f == "returns":
                c.returns.append(k.args[0])
            elif f == "loop":
                c.loops.setdefault(ast.literal_eval(k.args[0]), []).append(k.args[1])
            elif f == "before":
                c.afters.setdefault("<" + ast.literal_eval(k.args[0]), []).append(k.args[1])
            elif f == "after":
                c.afters.setdefault(ast.literal_eval(k.args[0]), []).append(k.args[1])
            elif f == "step":
                c.steps.setdefault(ast.literal_eval(k.args[0]), []).append(k.args[1])
            elif f == "default":
                c.defaults[ast.literal_eval(k.args[0])] = k.args[1]
            elif f == "lemma":
                c.lemmas.append(k.args[0])
            else:
                raise ValueError("contract clause " + f)
        self.contracts[c.qual] = c
