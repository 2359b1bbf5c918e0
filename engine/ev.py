"""Evaluator: expressions, calls, loops and statements of the code under
verification and of contract expressions (spec mode)."""
import ast

import z3

from prog import assigned_names
from sym import (BreakEx, ContEx, Dead, Exec, FALSE, PyRaise, RetEx, TRUE, Unsupported, is_exc)
from vals import (ANY, And, BOOL, Builtin, Cell, ClsV, Coll, DictV, Exists, FieldLoc, FnV, Graph, INT, Lam, Meth, ModV,
                  NONE, Not, Opaque, Or, Part, REAL, Rec, Ref, STR, Str, SubLoc, Tup, Ty, V, Val, at_fn, cls_of, olen,
                  parse_ty, ref, simp, sort_of)

BUILTINS = {"len", "sum", "min", "max", "any", "all", "abs", "round", "float", "int", "str", "repr", "isinstance", "print",
            "pprint", "list", "set", "tuple", "dict", "iter", "sorted", "range", "enumerate", "zip", "reversed", "bool",
            "hash", "type", "id", "super", "next", "frozenset", "map", "filter"}
SPECF = {"old", "head", "forall", "exists", "implies", "iff", "elems", "distinct", "isnum", "isint", "isbool", "isstr", "isnone",
         "isref", "unchanged", "unchanged_except", "fmt", "contains", "cls", "nonempty", "same", "ite", "isobj", "isrec", "alike", "pick",
         "card", "apply", "setof", "sumof", "minof", "digraph", "multidigraph", "is_new", "reached"}
MISSING = object()


class Carry:
    """A local carried over loop iterations (readable only through +=)."""

    def __init__(self, name):
        self.name, self.adds = name, []


class Acc:
    """An outer container while a loop body runs: additions are recorded."""

    def __init__(self, kind, added=()):
        self.kind, self.added = kind, tuple(added)


class Fmt:
    """'%.2f' % x"""

    def __init__(self, n, v):
        self.n, self.v = n, v


class Ev(Exec):
    # ------------------------------------------------------------ helpers
    def freeze(self, v, floor):
        if isinstance(v, Cell) and v.id > floor:
            return self.freeze(self.cells[v.id], floor)
        if isinstance(v, Tup):
            return Tup([self.freeze(x, floor) for x in v.items])
        if isinstance(v, Rec):
            return Rec({k: self.freeze(x, floor) for k, x in v.f.items()})
        if isinstance(v, Coll) and v.conc is not None:
            return Coll(v.kind, [Part(p.vars, p.dom, self.freeze(p.val, floor)) for p in v.parts], v.ety, None, v.obj,
                        v.arr, v.src)
        return v

    def force(self, v):
        r = super().force(v)
        if isinstance(r, Acc):
            raise Unsupported("a container built by the loop is read inside it (needs a loop invariant)")
        if isinstance(r, Carry):
            raise Unsupported("loop-carried variable %s needs a loop invariant" % r.name)
        return r

    def changed(self, base, st):
        """Did a nested run change state that outlives it?"""
        if len(st[5]) != len(base[5]) or len(st[3]) != len(base[3]):
            return True
        for k, v in base[2].items():
            if st[2].get(k) is not v:
                return True
        return False

    def pure(self, fn):
        """Runs fn on all its paths and merges the values when it has no effect."""
        base = self.snapshot()
        floor = self.ncell
        try:
            outs = self.nested(lambda: self.freeze(fn(), floor))
        except Unsupported:
            return fn()
        ok = [o for o in outs if o[1][0] == "val"]
        bad = [o for o in outs if o[1][0] != "val"]
        if not self.spec and (bad or any(self.changed(base, o[2]) for o in ok)) or not ok:
            return fn()
        if any(self.env_changed(base, o[2]) for o in ok):
            return fn()
        try:
            r = ok[-1][1][1]
            for pc, o, _ in reversed(ok[:-1]):
                r = self.ite(pc, o[1], r)
            return r
        except Unsupported:
            return fn()

    def env_changed(self, a, b):
        return any(b[0].get(k) is not v for k, v in a[0].items()) or len(a[0]) != len(b[0])

    def boolv(self, f):
        return Val(BOOL, f)

    def cond(self, node):
        return simp(self.truth(self.ev(node)))

    def exc_if(self, c, exc):
        if self.spec:
            return
        if self.branch(c):
            raise PyRaise(exc)

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return self.lit(n.value)

    def e_JoinedStr(self, n):
        return Val(STR, self.const("fstr", Str))

    def e_Name(self, n):
        nm = n.id
        if nm in self.env:
            return self.env[nm]
        if nm in self.prog.classes:
            return ClsV(nm)
        if self.spec and nm in self.lib.specs:
            return Builtin("spec:" + nm)
        if self.spec and nm in SPECF:
            return Builtin("sf:" + nm)
        if nm in self.prog.mod_funcs:
            return FnV(self.prog.mod_funcs[nm])
        if nm in ("nx", "random", "itertools", "datetime", "time", "pprint") and nm != "pprint":
            return ModV(nm)
        if nm in BUILTINS:
            return Builtin(nm)
        for (f, k), v in self.prog.module_consts.items():
            if k == nm:
                return self.ev(v)
        if nm in self.locals_now:
            raise PyRaise("UnboundLocalError", nm)
        raise Unsupported("name " + nm)

    def e_Attribute(self, n):
        v = self.ev(n.value)
        return self.getattr(v, n.attr)

    def e_Tuple(self, n):
        return Tup([self.ev(x) for x in n.elts])

    def e_List(self, n):
        return self.cell(Coll("list", [Part((), TRUE, self.ev(x)) for x in n.elts]))

    def e_Set(self, n):
        return self.cell(Coll("set", [Part((), TRUE, self.force(self.ev(x))) for x in n.elts]))

    def e_Dict(self, n):
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys):
            return self.cell(Rec({k.value: self.ev(v) for k, v in zip(n.keys, n.values)}))
        if not n.keys:
            return self.cell(DictV(None, None, lambda k: FALSE, None))
        d = DictV(None, None, lambda k: FALSE, None)
        for k, v in zip(n.keys, n.values):
            d = self.dict_set(d, self.ev(k), self.ev(v))
        return self.cell(d)

    def e_Lambda(self, n):
        return Lam(n, dict(self.env))

    def e_IfExp(self, n):
        c = self.cond(n.test)
        if z3.is_true(c):
            return self.ev(n.body)
        if z3.is_false(c):
            return self.ev(n.orelse)

        def run():
            return self.force(self.ev(n.body if self.branch(c) else n.orelse))
        return self.pure(run)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        if self.spec:
            fs = []
            pushed = 0
            try:
                for x in n.values:
                    f = self.cond(x)
                    fs.append(f)
                    self.frames.append([f if isand else Not(f)])
                    pushed += 1
                    if (z3.is_false(f) if isand else z3.is_true(f)):
                        break
            finally:
                for _ in range(pushed):
                    self.frames.pop()
            return self.boolv(And(*fs) if isand else Or(*fs))

        def run():
            v = None
            for x in n.values:
                v = self.force(self.ev(x))
                if x is n.values[-1]:
                    return v
                if self.branch(self.truth(v)) != isand:
                    return v
            return v
        return self.pure(run)

    def e_UnaryOp(self, n):
        v = self.force(self.ev(n.operand))
        if isinstance(n.op, ast.Not):
            return self.boolv(Not(simp(self.truth(v))))
        if isinstance(n.op, ast.USub):
            v = self.numeric(v)
            return Val(v.ty, simp(-v.t))
        raise Unsupported("unary operator")

    def numeric(self, v):
        v = self.force(v)
        if not isinstance(v, Val):
            if self.spec:
                raise Unsupported("number expected")
            raise PyRaise("TypeError", "number expected")
        if v.ty.k == "any":
            self.exc_if(Not(self.isnum(v)), "TypeError")
            return Val(REAL, self.num(v))
        if v.ty.k == "bool":
            return Val(INT, self.num(v))
        if v.ty.k not in ("int", "real"):
            raise PyRaise("TypeError", "number expected")
        return v

    def e_BinOp(self, n):
        a = self.force(self.ev(n.left))
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            if n.left.value.startswith("%.") and n.left.value.endswith("f") and len(n.left.value) == 4:
                return Fmt(int(n.left.value[2]), self.numeric(self.ev(n.right)))
            return Val(STR, self.const("fmt", Str))
        b = self.force(self.ev(n.right))
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, Coll) and isinstance(b, Coll):
                return self.cell(Coll(a.kind, a.parts + b.parts))
            if isinstance(a, Val) and isinstance(b, Val) and a.ty.k == "str" and b.ty.k == "str":
                f = z3.Function("concat", Str, Str, Str)
                return Val(STR, f(a.t, b.t))
        if isinstance(a, Coll) and isinstance(b, Coll) and isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
            if isinstance(op, ast.BitOr):
                return self.cell(Coll("set", a.parts + b.parts))
            ps = []
            for p in a.parts:
                p = self.fresh_part(p)
                m = self.under(p.vars, p.dom, lambda: self.member(b, p.val))
                ps.append(Part(p.vars, And(p.dom, m if isinstance(op, ast.BitAnd) else Not(m)), p.val))
            return self.cell(Coll("set", ps, a.ety))
        a, b = self.numeric(a), self.numeric(b)
        both = a.ty.k == b.ty.k == "int"
        if isinstance(op, ast.Div):
            x, y = self.num(a, "real"), self.num(b, "real")
            self.exc_if(y == 0, "ZeroDivisionError")
            return Val(REAL, x / y)
        x, y = (a.t, b.t) if both else (self.num(a, "real"), self.num(b, "real"))
        ty = INT if both else REAL
        if isinstance(op, ast.Add):
            return Val(ty, x + y)
        if isinstance(op, ast.Sub):
            return Val(ty, x - y)
        if isinstance(op, ast.Mult):
            return Val(ty, x * y)
        raise Unsupported("operator " + type(op).__name__)

    def e_Compare(self, n):
        if len(n.ops) == 1:
            return self.boolv(self.compare(n.ops[0], self.ev(n.left), self.ev(n.comparators[0])))
        fs, left = [], self.ev(n.left)
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            fs.append(self.compare(op, left, right))
            left = right
        return self.boolv(And(*fs))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = self.is_(a, b)
            return f if isinstance(op, ast.Is) else Not(f)
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.in_(a, b)
            return f if isinstance(op, ast.In) else Not(f)
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Eq):
            return simp(self.eq(a, b))
        if isinstance(op, ast.NotEq):
            return Not(simp(self.eq(a, b)))
        if isinstance(a, Coll) or isinstance(b, Coll):
            raise Unsupported("set comparison")
        if isinstance(a, Val) and a.ty.k == "str" and isinstance(b, Val) and b.ty.k == "str":
            f = z3.Function("strlt", Str, Str, z3.BoolSort())
            return {ast.Lt: f(a.t, b.t), ast.Gt: f(b.t, a.t)}.get(type(op)) if type(op) in (ast.Lt, ast.Gt) else \
                Not(f(b.t, a.t) if isinstance(op, ast.LtE) else f(a.t, b.t))
        x, y = self.numeric(a), self.numeric(b)
        if x.ty.k == y.ty.k == "int":
            p, q = x.t, y.t
        else:
            p, q = self.num(x, "real"), self.num(y, "real")
        if isinstance(op, ast.Lt):
            return simp(p < q)
        if isinstance(op, ast.LtE):
            return simp(p <= q)
        if isinstance(op, ast.Gt):
            return simp(p > q)
        if isinstance(op, ast.GtE):
            return simp(p >= q)
        raise Unsupported("comparison")

    def is_(self, a, b):
        if isinstance(a, Cell) and isinstance(b, Cell) and a.id == b.id:
            return TRUE
        a, b = self.force(a), self.force(b)
        if isinstance(a, Val) and isinstance(b, Val):
            ka, kb = a.ty.k, b.ty.k
            if ka == kb == "any":
                return a.t == b.t
            if "any" in (ka, kb):
                o, k = (a, b) if ka == "any" else (b, a)
                if k.ty.k in ("bool", "none", "ref"):
                    return simp(o.t == self.box(k))
                raise Unsupported("is between values")
            if ka == kb and ka in ("bool", "ref"):
                return simp(a.t == b.t)
            if ka == kb == "none":
                return TRUE
            if ka == kb:
                raise Unsupported("is between values")
            return FALSE
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, Val) and a.ty.k in ("none", "bool") or isinstance(b, Val) and b.ty.k in ("none", "bool"):
            return FALSE
        raise Unsupported("is")

    def substring(self, a, b):
        """a in b for strings."""
        la, lb = [next((k for k, t in self.strs.items() if t.eq(x)), None) for x in (a, b)]
        if la is not None and lb is not None:
            return z3.BoolVal(la in lb)
        f = z3.Function("contains", Str, Str, z3.BoolSort())
        if la is not None:
            for k, t in list(self.strs.items()):
                self.fact(("contains", la, k), f(a, t) == z3.BoolVal(la in k))
        return f(a, b)

    def fact(self, key, f):
        if key not in self.facts:
            self.facts.add(key)
            self.defs.append(f)

    def in_(self, a, b):
        a = self.force(a)
        b = self.force(b)
        if isinstance(b, Val) and b.ty.k == "any":
            # str | rec | list
            fs = []
            for alt in b.ty.a or ():
                g = self.tycheck(b.t, alt)
                if alt.k == "str":
                    fs.append(And(g, self.substring(self.coerce(a, STR, "in").t, V.sv(b.t))
                                  if isinstance(a, Val) and a.ty.k == "str" else FALSE))
                elif alt.k in ("rec", "list"):
                    u = self.unbox(b, alt)
                    self.frames.append([g])
                    try:
                        fs.append(And(g, self.in_(a, u)))
                    finally:
                        self.frames.pop()
                elif not self.spec:
                    self.exc_if(g, "TypeError")
            if not b.ty.a:
                raise Unsupported("in an untyped value")
            return simp(Or(*fs))
        if isinstance(b, Val) and b.ty.k == "str":
            if isinstance(a, Val) and a.ty.k == "str":
                return simp(self.substring(a.t, b.t))
            raise PyRaise("TypeError", "in string")
        if isinstance(b, Rec):
            if not isinstance(a, Val):
                return FALSE
            return simp(Or(*[self.eq(a, self.lit(k)) for k in b.f]))
        if isinstance(b, DictV):
            if b.kty is None:
                return FALSE
            return simp(b.dom(self.key_term(a, b.kty)))
        if isinstance(b, Tup):
            return simp(Or(*[self.eq(a, x) for x in b.items]))
        if isinstance(b, Coll):
            return simp(self.member(b, a))
        raise Unsupported("in")

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, n):
        v = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            return self.slice(self.force(v), n.slice)
        k = self.ev(n.slice)
        c = self.force(v)
        r = self.getitem(c, k)
        if isinstance(self.force(r), (Coll, DictV, Rec)) and isinstance(v, (Cell, FieldLoc, SubLoc)):
            return SubLoc(v, self.force(k))
        return r

    def slice(self, c, s):
        if isinstance(c, Coll) and c.kind == "list" and s.step is None:
            lo = self.numeric(self.ev(s.lower)).t if s.lower is not None else z3.IntVal(0)
            n, at = self.ordering(c)
            hi = self.numeric(self.ev(s.upper)).t if s.upper is not None else n
            for t in (lo, hi):
                if not z3.is_int(t):
                    raise Unsupported("slice bound")
            if not z3.is_int_value(simp(lo)) or simp(lo).as_long() < 0:
                lo = z3.If(lo < 0, z3.If(lo + n < 0, z3.IntVal(0), lo + n), lo)
            if s.upper is not None:
                hi = z3.If(hi < 0, hi + n, z3.If(hi > n, n, hi))
            m = simp(z3.If(hi - lo > 0, hi - lo, z3.IntVal(0)))
            i = self.bvar("i", z3.IntSort())
            return self.cell(Coll("list", [Part([i], And(i >= 0, i < m), at(simp(i + lo)))], c.ety,
                                  (m, lambda k: at(simp(k + lo)))))
        raise Unsupported("slice")

    def key_term(self, k, kty):
        k = self.force(k)
        if kty.k == "tuple":
            if not isinstance(k, Tup):
                raise Unsupported("dict key")
            sorts = [sort_of(t) for t in kty.a]
            nm = "tup_" + "_".join(x.name() for x in sorts)
            f = z3.Function(nm, *sorts, sort_of(kty))
            if nm not in self.tuples:
                self.tuples.add(nm)
                xs = [z3.Const("t%d?tup" % i, x) for i, x in enumerate(sorts)]
                for i, x in enumerate(xs):
                    self.axioms.append(z3.ForAll(xs, z3.Function("%s_%d" % (nm, i), sort_of(kty), x.sort())(f(*xs)) == x, patterns=[f(*xs)]))
            return f(*[self.term(x, t) for x, t in zip(k.items, kty.a)])
        return self.term(k, kty)

    def getitem(self, c, k):
        c, k = self.force(c), self.force(k)
        if isinstance(c, Val) and c.ty.k == "any":
            alts = [a for a in c.ty.a if a.k in ("rec", "list")]
            if len(alts) != 1:
                raise Unsupported("subscript of an untyped value")
            self.exc_if(Not(self.tycheck(c.t, alts[0])), "TypeError")
            return self.getitem(self.unbox(c, alts[0]), k)
        if isinstance(c, Val) and c.ty.k == "str":
            return Val(STR, self.const("char", Str))
        if isinstance(c, Rec):
            name = self.litstr(k)
            if name is None:
                raise Unsupported("record subscript")
            if name not in c.f:
                raise PyRaise("KeyError", name)
            return c.f[name]
        if isinstance(c, Tup):
            i = simp(self.numeric(k).t)
            if not z3.is_int_value(i):
                raise Unsupported("tuple subscript")
            return c.items[i.as_long()]
        if isinstance(c, DictV):
            if c.kty is None:
                raise PyRaise("KeyError")
            t = self.key_term(k, c.kty)
            self.exc_if(Not(c.dom(t)), "KeyError")
            return c.get(t)
        if isinstance(c, Coll) and (c.kind == "list" or c.kind == "gen" and self.spec):
            i = simp(self.numeric(k).t)
            if c.conc is not None and z3.is_int_value(i):
                try:
                    return c.conc[i.as_long()]
                except IndexError:
                    raise PyRaise("IndexError")
            if c.order is None and z3.is_int_value(i) and i.as_long() in (0, -1):
                self.exc_if(Not(self.nonempty(c)), "IndexError")
                return self.pick(c)
            n, at = self.ordering(c)
            if z3.is_int_value(i) and i.as_long() < 0:
                i = simp(n + i)
            self.exc_if(Not(And(i >= 0, i < n)), "IndexError")
            return at(i)
        if isinstance(c, Coll):
            raise PyRaise("TypeError", "not subscriptable")
        if isinstance(c, Val) and c.ty.k in ("int", "real", "bool", "none", "ref"):
            raise PyRaise("TypeError", "not subscriptable")
        if isinstance(c, Opaque) and c.why == "exception object":
            raise PyRaise("TypeError", "not subscriptable")
        raise Unsupported("subscript of %s" % type(c).__name__)

    def litstr(self, k):
        if isinstance(k, Val) and k.ty.k == "str":
            return next((s for s, t in self.strs.items() if t.eq(k.t)), None)
        return None

    def pick(self, c):
        """An arbitrary element of a collection known to be non-empty."""
        ps = c.parts
        for j, p in enumerate(ps):
            last = j == len(ps) - 1
            if last or self.branch(Exists(p.vars, p.dom)):
                p = self.fresh_part(p)
                sub = [(v, self.const("pick_" + str(v).split("?")[0], v.sort())) for v in p.vars]
                if sub:
                    self.define(z3.substitute(p.dom, *sub))
                return self.subst(p.val, sub)
        raise Dead()

    def fresh_part(self, p):
        if not p.vars:
            return p
        nv = [self.bvar(str(v).split("?")[0], v.sort()) for v in p.vars]
        sub = list(zip(p.vars, nv))
        return Part(nv, z3.substitute(p.dom, *sub), self.subst(p.val, sub))

    def under(self, vars, guard, fn):
        nb = len(self.bound)
        self.bound.extend(vars)
        self.frames.append([guard])
        try:
            return fn()
        finally:
            self.frames.pop()
            del self.bound[nb:]

    def dict_set(self, d, k, v):
        k, v = self.force(k), v
        kty = d.kty or self.elem_ty(k)
        t = self.key_term(k, kty)
        v = self.force(v)
        og, od = d.get, d.dom
        get = (lambda q: v) if og is None else (lambda q: self.ite(q == t, v, og(q)))
        return DictV(kty, d.vty, lambda q: Or(q == t, od(q)), get)

    def setitem(self, loc, k, v):
        c = super().force(loc) if isinstance(loc, Cell) else self.force(loc)
        if isinstance(c, Acc):
            raise Unsupported("dict filled in a loop")
        if isinstance(c, Rec):
            name = self.litstr(self.force(k))
            if name is None:
                raise Unsupported("record update")
            f = dict(c.f)
            f[name] = v
            return self.store(loc, Rec(f))
        if isinstance(c, DictV):
            return self.store(loc, self.dict_set(c, k, v))
        raise Unsupported("item assignment")

    # ------------------------------------------------------------ iteration
    def iterable(self, v):
        """The collection a for loop or comprehension runs over."""
        v = self.force(v)
        if isinstance(v, Coll):
            if not self.spec:
                for c, e in v.lazy:
                    self.exc_if(c, e)
            if v.made is not None and not self.spec:
                ids = {b.get_id() for k, (b, ws) in v.made.items() if self.heap[k] != (b, ws)}
                if ids and any(self.mentions(p.dom, ids) for p in v.parts):
                    raise Unsupported("what a generator depends on has changed since it was created")
            return v if self.spec else self.canon(v)
        if isinstance(v, Tup):
            return Coll("list", [Part((), TRUE, x) for x in v.items])
        if isinstance(v, Rec):
            return Coll("list", [Part((), TRUE, self.lit(k)) for k in v.f])
        if isinstance(v, DictV):
            if v.kty is None:
                return Coll("list", [])
            k = self.bvar("k", sort_of(v.kty))
            return Coll("set", [Part([k], v.dom(k), self.of_key(k, v.kty))], v.kty)
        if isinstance(v, Val) and v.ty.k == "any":
            alts = [a for a in v.ty.a if a.k == "list"]
            if len(alts) == 1:
                if not self.spec:
                    strs = any(a.k == "str" for a in v.ty.a)
                    if self.branch(V.is_o(v.t)):
                        return self.unbox(v, alts[0])
                    if strs and self.branch(V.is_s(v.t)):
                        # the characters of a string
                        i = self.bvar("i", z3.IntSort())
                        n = self.const("strlen", z3.IntSort())
                        self.define(n >= 0)
                        ch = self.const("chars", z3.ArraySort(z3.IntSort(), Str))
                        return Coll("list", [Part([i], And(i >= 0, i < n), Val(STR, z3.Select(ch, i)))], STR)
                    raise PyRaise("TypeError", "not iterable")
                u = self.unbox(v, alts[0])
                return Coll("list", [Part(p.vars, And(V.is_o(v.t), p.dom), p.val) for p in u.parts], u.ety)
        if isinstance(v, Val) and v.ty.k == "str":
            i = self.bvar("i", z3.IntSort())
            n = self.const("strlen", z3.IntSort())
            self.define(n >= 0)
            ch = self.const("chars", z3.ArraySort(z3.IntSort(), Str))
            return Coll("list", [Part([i], And(i >= 0, i < n), Val(STR, z3.Select(ch, i)))], STR)
        if isinstance(v, Val) and v.ty.k in ("none", "int", "real", "bool"):
            raise PyRaise("TypeError", "not iterable")
        raise Unsupported("iteration over %s" % (v.ty if isinstance(v, Val) else type(v).__name__))

    def canon(self, c):
        """A set with every element listed once (set-builders with several
        variables may produce an element repeatedly)."""
        if c.kind != "set" or c.arr is not None or len(c.parts) == 0:
            return c
        if len(c.parts) == 1 and (not c.parts[0].vars or self.ident_part(c) is not None or self.keyed_part(c)):
            return c
        for c0, r in self.canons:
            if self.same_parts(c0, c):
                return r
        ety = self.coll_ety(c)
        if any(isinstance(p.val, (Tup, Rec, Coll)) for p in c.parts) or ety.k in ("tuple", "list", "set", "rec"):
            r = Coll("set", c.parts, c.ety)
            r.multi = True
            return r
        r = self.as_set(c, Ty("set", (ety,)))
        if not self.bound:
            self.canons.append((c, r))
            for c0, n0 in list(self.cards):
                if c0.kind == "set" and self.same_parts(c0, c):
                    self.define(n0 == self.card(r).t)
        return r

    def of_key(self, t, kty):
        if kty.k == "tuple":
            return Tup([self.of_term(z3.Function("key%d_%d" % (len(kty.a), j), sort_of(kty), sort_of(e))(t), e)
                        for j, e in enumerate(kty.a)])
        return self.of_term(t, kty)

    def bind(self, target, v):
        if isinstance(target, ast.Name):
            self.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            v = self.force(v)
            if isinstance(v, Coll) and v.conc is not None:
                v = Tup(v.conc)
            if not isinstance(v, Tup) or len(v.items) != len(target.elts):
                raise Unsupported("unpacking")
            for t, x in zip(target.elts, v.items):
                self.bind(t, x)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value), target.attr, v)
        elif isinstance(target, ast.Subscript):
            self.setitem(self.ev(target.value), self.ev(target.slice), v)
        else:
            raise Unsupported("assignment target")

    def comp(self, gens, elt):
        """(parts, order, src) of a comprehension."""
        g = gens[0]
        coll = self.iterable(self.ev(g.iter))
        if coll.multi:
            raise Unsupported("comprehension over a set of tuples")
        parts, order = [], None
        excs = []
        for p in coll.parts:
            p = self.fresh_part(p)
            base = self.snapshot()
            floor = self.ncell

            def body():
                self.bind(g.target, p.val)
                for c in g.ifs:
                    if not self.branch(self.cond(c)):
                        raise ContEx()
                if len(gens) > 1:
                    return self.comp(gens[1:], elt)[0]
                return self.freeze(self.force(elt()), floor)
            outs = self.nested(body, p.vars, p.dom)
            for pc, o, st in outs:
                if self.changed(base, st):
                    raise Unsupported("comprehension with effects")
                if o[0] == "exc":
                    if not self.spec:
                        excs.append((Exists(p.vars, And(p.dom, pc)), o[1]))
                elif o[0] == "val":
                    if len(gens) > 1:
                        parts += [Part(p.vars + q.vars, And(p.dom, pc, q.dom), q.val) for q in o[1]]
                    else:
                        parts.append(Part(p.vars, And(p.dom, pc), o[1]))
            if len(coll.parts) == 1 and len(gens) == 1 and len(outs) == 1 and outs[0][1][0] == "val" and \
                    z3.is_true(simp(outs[0][0])) and coll.kind != "set":
                if len(p.vars) == 1 and p.vars[0].sort() == z3.IntSort() and coll.order is not None:
                    v = parts[-1].val
                    order = (coll.order[0], lambda k, v=v, x=p.vars[0]: self.subst(v, [(x, k)]))
        for c, e in excs:
            if self.branch(c):
                raise e
        src = coll.src if coll.src is not None else coll.arr
        return parts, order, src

    def e_ListComp(self, n):
        parts, order, src = self.saved(lambda: self.comp(n.generators, lambda: self.ev(n.elt)))
        return self.cell(Coll("list", parts, None, order, src=src))

    def e_SetComp(self, n):
        parts, order, src = self.saved(lambda: self.comp(n.generators, lambda: self.ev(n.elt)))
        return self.cell(Coll("set", parts))

    def e_GeneratorExp(self, n):
        parts, order, src = self.saved(lambda: self.comp(n.generators, lambda: self.ev(n.elt)))
        c = Coll("gen", parts, None, order, src=src)
        c.made = dict(self.heap)
        return c

    def saved(self, f):
        env = dict(self.env)
        try:
            return f()
        finally:
            self.env = env

    def e_DictComp(self, n):
        parts, order, src = self.saved(lambda: self.comp(n.generators, lambda: Tup([self.ev(n.key), self.ev(n.value)])))
        return self.cell(self.dict_of(parts))

    def dict_of(self, parts):
        """Dict from a collection of (key, value) pairs."""
        if not parts:
            return DictV(None, None, lambda k: FALSE, None)
        if len(parts) > 1:
            raise Unsupported("dict from several parts")
        p = parts[0]
        k, v = p.val.items
        kty = self.elem_ty(k)
        dom = self.key_dom(p, k, kty)
        kt = self.under(p.vars, p.dom, lambda: self.key_term(k, kty))
        if len(p.vars) == 1 and kt.eq(p.vars[0]):
            return DictV(kty, None, lambda q: z3.substitute(p.dom, (p.vars[0], q)),
                         lambda q: self.subst(v, [(p.vars[0], q)]))
        src = [z3.Function("dsrc%d!%d" % (j, self._n("dsrc")), sort_of(kty), x.sort()) for j, x in enumerate(p.vars)]
        q = self.bvar("q", sort_of(kty))
        if self.bound:
            raise Unsupported("dict comprehension under a binder")
        sub = [(x, s(q)) for x, s in zip(p.vars, src)]
        self.define(z3.ForAll([q], z3.Implies(dom(q), z3.substitute(And(p.dom, q == kt), *sub)), patterns=[src[0](q)]))
        return DictV(kty, None, dom, lambda q: self.subst(v, [(x, s(q)) for x, s in zip(p.vars, src)]))

    def key_dom(self, p, k, kty):
        def dom(q):
            return Exists(p.vars, And(p.dom, self.under(p.vars, p.dom, lambda: self.key_term(k, kty)) == q))
        return dom
