"""Calls, built-ins, container methods, loops, statements and spec functions."""
import ast

import z3

from ev import Acc, Carry, Ev, Fmt
from graphs import GraphOps
from prog import assigned_names
from sym import (BreakEx, ContEx, Dead, EMPTY, FALSE, OLD, PyRaise, RetEx, TRUE, Unsupported, is_exc)
from vals import (olen, ANY, And, BOOL, Builtin, Cell, ClsV, Coll, DictV, Exists, FieldLoc, FnV, Graph, INT, Lam, Meth, ModV,
                  NONE, Not, Opaque, Or, Part, REAL, Rec, Ref, STR, Str, SubLoc, Tup, Ty, V, Val, at_fn, cls_of, olen,
                  parse_ty, ref, simp, sort_of)

MAXINLINE = 12


class Engine(Ev, GraphOps):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.locals_now = set()
        self.facts = set()
        self.target = None
        self.target_fn = None
        self.inlined = set()
        self.no_contract = set()
        self.probes = {}
        self.cenv, self.entry = {}, None

    def reset(self):
        super().reset()
        self.facts = set()
        self.items, self.lastres = [], None
        self.cards = []
        self.sums = []
        self.totals, self.elems, self.total_cache = [], [], {}
        self.loopctx = None
        self.mins = []
        self.sps, self.opaques = [], []
        self.canons = []
        self.old_ctx = None
        self.curkey_cls = ()
        self.cur_cls = None
        self.base_depth = 0

    def agg_lemmas(self):
        return self.total_lemmas()

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("print", "pprint") and f.id not in self.env:
            self.assumptions.add("print, pprint and the construction of messages raise nothing and have no effect")
            return Val(NONE, V.none)
        if isinstance(f, ast.Name) and f.id == "super" and not n.args:
            return ModV("super")
        fv = self.ev(f)
        if isinstance(fv, Builtin) and fv.name.startswith("sf:"):
            return self.specfn(fv.name[3:], n)
        if isinstance(fv, Builtin) and fv.name == "isinstance":
            return self.boolv(self.isinstance_(self.force(self.ev(n.args[0])), n.args[1]))
        if isinstance(fv, Meth) and fv.name in ("format", "ljust", "join") or isinstance(fv, Builtin) and fv.name == "opaque":
            return self.fmt_call(fv, n)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                raise Unsupported("star argument")
            args.append(self.ev(x))
        kw = {k.arg: self.ev(k.value) for k in n.keywords}
        return self.apply(fv, args, kw)

    def fmt_call(self, fv, n):
        if isinstance(fv, Meth) and fv.name == "format" and isinstance(n.func.value, ast.Constant):
            args = [self.force(self.ev(x)) for x in n.args]
            if all(isinstance(a, Val) and a.ty.k == "str" for a in args) and len(args) == 2:
                return Val(STR, self.fmt2(n.func.value.value, args[0].t, args[1].t))
        return Val(STR, self.const("fmt", Str))

    def fmt2(self, pat, a, b):
        f = z3.Function("fmt:" + pat, Str, Str, Str)
        return f(a, b)

    def apply(self, fv, args, kw):
        if isinstance(fv, FnV):
            a = ([fv.recv] if fv.recv is not None else []) + args
            if fv.fn.kind in ("classmethod",) and fv.recv is None:
                a = [ClsV(fv.fn.cls)] + args
            return self.call_fn(fv.fn, a, kw)
        if isinstance(fv, ClsV):
            return self.new(fv.name, args, kw)
        if isinstance(fv, Builtin):
            if fv.name.startswith("spec:"):
                return self.specmacro(fv.name[5:], args)
            return self.builtin(fv.name, args, kw)
        if isinstance(fv, Meth):
            return self.method(fv.recv, fv.name, args, kw)
        if isinstance(fv, Lam):
            env = self.env
            self.env = dict(fv.env)
            try:
                for p, v in zip(fv.node.args.args, args):
                    self.env[p.arg] = v
                return self.ev(fv.node.body)
            finally:
                self.env = env
        if isinstance(fv, Opaque):
            return Opaque(fv.why)
        raise Unsupported("call of %s" % type(fv).__name__)

    def getattr(self, v, name):
        if isinstance(v, Cell) and isinstance(self.raw(v)[1], Acc):
            return Meth(v, name)
        if isinstance(v, ModV) and v.name == "super":
            for c in self.prog.mro(self.cur_cls)[1:]:
                f = self.prog.classes.get(c, {}).get(name)
                if f is not None:
                    return FnV(f, self.env["self"])
            raise Unsupported("super()." + name)
        if isinstance(v, Val) and v.ty.k == "ref" and len(v.ty.a) > 1:
            fs = {id(self.prog.find(c, name)) for c in v.ty.a}
            if len(fs) > 1:
                virt = self.virtual(v.ty.a, name)
                if virt is None:
                    v = self.narrow(v)
        if isinstance(v, Val) and v.ty.k == "ref" and name == "__class__":
            v = self.narrow(v)
            return ClsV(v.ty.a[0])
        if isinstance(v, (Fmt,)):
            raise Unsupported("attribute of formatted number")
        return super().getattr(v, name)

    def virtual(self, classes, name):
        return None

    def new(self, cls, args, kw):
        if cls in ("ModelException",):
            return Opaque("exception object")
        if cls not in self.prog.classes:
            raise Unsupported("class " + cls)
        o = self.allocate(cls)
        f = self.prog.find(cls, "__init__")
        if f is not None:
            self.call_fn(f, [o] + args, kw)
        return o

    def bind_args(self, fn, args, kw):
        env = {}
        ps = fn.params
        for p, v in zip(ps, args):
            env[p] = v
        if len(args) > len(ps):
            raise PyRaise("TypeError", "arguments")
        for k, v in kw.items():
            if k not in ps or k in env:
                raise PyRaise("TypeError", "arguments")
            env[k] = v
        for p in ps:
            if p not in env:
                if p not in fn.defaults:
                    raise PyRaise("TypeError", "arguments")
                env[p] = self.ev(fn.defaults[p])
        return env

    def call_fn(self, fn, args, kw):
        c = self.contract_of(fn)
        env = self.bind_args(fn, args, kw)
        if c is not None:
            return self.apply_contract(c, fn, env)
        if self.spec:
            return self.pure(lambda: self.inline(fn, env))
        if fn.kind == "getter":
            return self.pure(lambda: self.inline(fn, env))
        return self.inline(fn, env)

    def contract_of(self, fn):
        c = self.lib.contracts.get(fn.qual)
        if c is None or fn.qual in self.no_contract:
            return None
        return c

    def inline(self, fn, env):
        if self.inline_depth > MAXINLINE:
            raise Unsupported("recursion in " + fn.qual)
        self.inlined.add(fn.qual)
        saved = (self.env, self.locals_now, self.cur_cls, self.loopctx)
        self.env, self.locals_now, self.cur_cls = env, assigned_names(fn.body) | set(fn.params), fn.cls
        self.loopctx = None
        self.inline_depth += 1
        floor = 10 ** 9
        try:
            self.block(fn.body)
            r = Val(NONE, V.none)
        except RetEx as e:
            r = e.v
        finally:
            self.env, self.locals_now, self.cur_cls, self.loopctx = saved
            self.inline_depth -= 1
        return r

    def spec_env(self, c, env):
        e = {}
        for p, ty in c.params.items():
            if p not in env:
                raise Unsupported("contract of %s: parameter %s" % (c.qual, p))
            v = env[p]
            if isinstance(v, (ClsV, FnV, ModV, Opaque)):
                e[p] = v
            elif ty.k in ("set", "list", "dict") and isinstance(v, (Cell, FieldLoc, SubLoc)):
                e[p] = v
            else:
                e[p] = self.coerce(v, ty, "argument %s of %s" % (p, c.qual))
        return e

    def in_spec(self, env, fn, old=None):
        saved = (self.env, self.spec, self.old_ctx)
        self.env = dict(env)
        self.spec = 1
        if old is not None:
            self.old_ctx = old
        try:
            return fn()
        except PyRaise as e:
            raise Unsupported("a specification raises " + e.exc)
        finally:
            self.env, self.spec, self.old_ctx = saved

    def spec_truth(self, node):
        return simp(self.truth(self.ev(node)))

    def lets(self, c, env):
        for k, v in c.lets:
            r = env[k] = self.ev_in(env, v)
            if isinstance(r, Val) and r.ty.k == "bool" and not self.bound and has_quant(r.t):
                n = self.const("let_" + k, z3.BoolSort())
                self.define(z3.Implies(n, simp(r.t)))
                self.define(z3.Implies(Not(n), simp(Not(r.t))))
                env[k] = Val(BOOL, n)

    def ev_in(self, env, node):
        saved = self.env
        self.env = dict(env)
        try:
            return self.freeze(self.ev(node), 0)
        finally:
            self.env = saved

    def apply_contract(self, c, fn, env):
        self.used.add(c.qual)
        e = self.spec_env(c, env)
        spec0 = self.spec
        if self.poison and not spec0 and (fn is None or self.prog.reads(fn) & {k.split(".")[1] for k in self.poison}):
            self.unpoisoned("at the call of %s" % c.qual)
        if not spec0 and not self.quiet and self.target is not None and "<" + c.qual in self.target.afters:
            self.hints("<" + c.qual, "before", e)
        pre = self.snapshot_state()

        def before():
            self.lets(c, e)
            self.env = dict(e)
            for i, r in enumerate(c.requires):
                f = self.spec_truth(r)
                if not spec0:
                    self.spec = 0
                    try:
                        self.check(f, "call of %s: requires %d: %s" % (c.qual, i + 1, src(r)))
                    finally:
                        self.spec = 1
            return [(names, self.spec_truth(x), 0) for names, x in c.raises] + [
                (names, self.spec_truth(x), 1) for names, x in c.mays]
        raises = self.in_spec(e, before)
        if not spec0:
            for names, f, may in raises:
                if may:
                    if z3.is_false(simp(f)) or not self.feasible(f):
                        continue
                    f = And(f, self.const("choice", z3.BoolSort()))
                if self.branch(f):
                    if any(k == "*" for k, p, v in c.on_raise):
                        raise PyRaise(names[0], c.qual)

                    def onr():
                        return [(k, self.lam_pred(p), self.lam_val(v, k)) for k, p, v in c.on_raise]
                    for k, p, v in self.in_spec(e, onr):
                        self.apply_update(k, p, v, e, pre)
                    for k, p in self.in_spec(e, lambda: [(k, self.lam_pred(p)) for k, p in c.raise_modifies]):
                        self.havoc(k, self.keyed(k, self.state_fn(p, pre)))
                    if c.allocates:
                        self.grow_alloc()

                    def after_r():
                        for x in c.raise_ensures:
                            self.define(self.spec_truth(x))
                    self.in_spec(e, after_r, pre)
                    raise PyRaise(names[0], c.qual)
        # effects (evaluated in the pre-state)
        if c.updates or c.modifies:
            if spec0:
                raise Unsupported("effect in a contract expression")
            ups = self.in_spec(e, lambda: [(k, self.lam_pred(p), self.lam_val(v, k)) for k, p, v in c.updates])
            mods = self.in_spec(e, lambda: [(k, self.lam_pred(p)) for k, p in c.modifies])
            for k, p, v in ups:
                self.apply_update(k, p, v, e, pre)
            for k, p in mods:
                self.havoc(k, self.keyed(k, self.state_fn(p, pre)))
        base0 = self.new_base
        if c.allocates:
            self.new_base = self.alloc
            self.grow_alloc()
            for k in {k for k, p, v in c.updates} | {k for k, p in c.modifies}:
                self.closed(k)
        # result
        if c.returns:
            res = self.in_spec(e, lambda: self.freeze(self.ev(c.returns[0]), 0))
            if isinstance(res, Graph):
                res = self.cell(res)
            elif isinstance(res, Coll) and res.kind in ("list", "set", "gen"):
                res = self.cell(Coll("list" if res.kind == "gen" else res.kind, res.parts, res.ety, res.order, res.obj, res.arr,
                                     res.src))
        elif c.result is not None:
            res = self.typed_const("res_" + c.qual, c.result)
        else:
            res = Val(NONE, V.none)
        if c.ensures:
            e2 = dict(e)
            e2["result"] = res

            def after():
                for x in c.ensures:
                    self.define(self.spec_truth(x))
            self.in_spec(e2, after, pre)
        if c.allocates:
            self.new_base = base0
            if isinstance(res, Val) and res.ty.k == "ref":
                self.define(self.alloc(res.t))
        if not spec0 and not self.quiet and self.target is not None and c.qual in self.target.afters:
            self.lastres = res
            self.hints(c.qual, "after", e, _res=res)
        return res

    def hints(self, key, when, e, **more):
        """The claims made before or after a call: checked, and then known."""
        env = dict(self.cenv, **more)
        env.update({"_arg_" + n: x for n, x in e.items()})
        if self.items:
            env["_it"] = self.items[-1]
        for x in self.target.afters[key]:
            self.check(self.in_spec(env, lambda: self.spec_truth(x), self.entry), "%s %s: %s" % (when, key.strip("<"), src(x)))

    def keyed(self, k, p):
        return lambda r: self.with_key(k, lambda: p(r))

    def typed_const(self, name, ty):
        if ty.k == "tuple":
            return Tup([self.typed_const(name, t) for t in ty.a])
        if ty.k == "dict":
            f = self.const(name + "_dom", z3.ArraySort(sort_of(ty.a[0]), z3.BoolSort()))
            g = self.const(name + "_get", z3.ArraySort(sort_of(ty.a[0]), sort_of(ty.a[1])))
            if ty.a[1].k == "list" and ty.a[1].a[0].k == "ref":
                k, i = self.bvar("k", sort_of(ty.a[0])), self.bvar("i", z3.IntSort())
                x = at_fn(ty.a[1].a[0])(z3.Select(g, k), i)
                self.define(z3.ForAll([k, i], Or(*[cls_of(x) == self.cid(c) for c in ty.a[1].a[0].a]), patterns=[x]))
            return DictV(ty.a[0], ty.a[1], lambda k: z3.Select(f, k), lambda k: self.of_term(z3.Select(g, k), ty.a[1]))
        t = self.const(name, sort_of(ty))
        if ty.k == "any" and ty.a:
            self.define(self.tycheck(t, ty))
        if ty.k == "ref":
            self.define(Or(*[cls_of(t) == self.cid(c) for c in ty.a]))
        if ty.k == "set" and ty.a[0].k == "ref":
            x = self.bvar("x", Ref)
            self.define(z3.ForAll([x], z3.Implies(z3.Select(t, x), Or(*[cls_of(x) == self.cid(c) for c in ty.a[0].a])),
                                  patterns=[z3.Select(t, x)]))
        return self.of_term(t, ty)

    # heap snapshots for old() and for contract expressions
    def snapshot_state(self):
        return (dict(self.heap), dict(self.cells))

    def at_state(self, state, fn):
        heap, cells = state
        saved, sc = self.heap, self.cells
        self.heap = dict(heap)
        self.cells = dict(cells)
        try:
            return fn()
        finally:
            for k, v in self.heap.items():
                if k not in heap:
                    heap[k] = v
                    if k not in saved:
                        saved[k] = v
            self.heap = saved
            for k, v in self.cells.items():
                if k not in cells and k not in sc:
                    sc[k] = v
            self.cells = sc

    def state_fn(self, f, heap):
        return lambda r: self.at_state(heap, lambda: f(r))

    def lam_pred(self, node):
        """lambda r: cond  ->  Ref term -> formula, in the present environment."""
        env = dict(self.env)
        if node is None:
            return lambda r: TRUE

        def run(r):
            def go():
                saved = self.env
                self.env = dict(env)
                self.env[node.args.args[0].arg] = Val(ref(*self.curkey_cls), r)
                try:
                    return simp(self.truth(self.ev(node.body)))
                finally:
                    self.env = saved
            return self.in_spec(env, go, self.old_ctx)
        return run

    def lam_val(self, node, key):
        env = dict(self.env)
        ty = self.lib.fields[key]

        def run(r):
            def go():
                if isinstance(node, ast.Lambda):
                    self.env[node.args.args[0].arg] = Val(ref(*self.curkey_cls), r)
                    v = self.ev(node.body)
                else:
                    v = self.ev(node)
                return self.term(self.coerce(v, ty, key), ty)
            return self.in_spec(env, go, self.old_ctx)
        return run

    def key_classes(self, key):
        c = key.split(".")[0]
        return tuple(k for k in self.prog.classes if c in self.prog.mro(k)) or (c,)

    def with_key(self, key, fn):
        saved = self.curkey_cls
        self.curkey_cls = self.key_classes(key)
        try:
            return fn()
        finally:
            self.curkey_cls = saved

    def apply_update(self, k, p, v, e, pre):
        cond = self.state_fn(lambda r: self.with_key(k, lambda: And(self.cls_guard(k, r), p(r))), pre)
        val = self.state_fn(lambda r: self.with_key(k, lambda: v(r)), pre)
        self.update(k, cond, val)

    def cls_guard(self, k, r):
        return TRUE

    # ------------------------------------------------------------ spec functions
    def specmacro(self, name, args):
        if name in self.lib.opaque:
            vs = [self.force(a) for a in args]
            vs = [Val(Ty("list", (v.ety,)), v.obj) if isinstance(v, Coll) and v.obj is not None and v.ety is not None else v for v in vs]
            if all(isinstance(v, Val) for v in vs):
                return self.opaque_spec(name, vs)
        return self.specbody(name, args)

    def opaque_spec(self, name, args):
        """The specification's value as a named function of its arguments (one per heap)."""
        xs = [z3.Const("op_%s_%d" % (name, k), a.t.sort()) for k, a in enumerate(args)]
        bound, frames = self.bound, self.frames
        self.bound, self.frames = list(xs), self.frames[:1]
        try:
            v = self.force(self.specbody(name, [self.of_term(x, a.ty) for a, x in zip(args, xs)]))
            if not isinstance(v, Val):
                raise Unsupported("opaque specification " + name)
            key = self.akey(v.t)
            for nm, t, g in self.opaques:
                if nm == name and t == key:
                    break
            else:
                self.bound = []
                g = z3.Function("%s!%d" % (name, self._n(name)), *[x.sort() for x in xs], v.t.sort())
                self.define(z3.ForAll(xs, g(*xs) == v.t, patterns=[g(*xs)]))
                self.opaques.append((name, key, g))
        finally:
            self.bound, self.frames = bound, frames
        return Val(v.ty, g(*[a.t for a in args]))

    def specbody(self, name, args):
        n = self.lib.specs[name]
        saved = self.env
        self.env = {}
        for a, v in zip(n.args.args, args):
            self.env[a.arg] = v
        try:
            for s in n.body:
                if isinstance(s, ast.Assign):
                    self.env[s.targets[0].id] = self.ev(s.value)
                elif isinstance(s, ast.Return):
                    return self.ev(s.value)
        finally:
            self.env = saved
        raise Unsupported("spec " + name)

    def specfn(self, f, n):
        a = n.args
        if f == "old":
            if self.old_ctx is None:
                return self.ev(a[0])
            return self.at_state(self.old_ctx, lambda: self.freeze(self.ev(a[0]), 0))
        if f == "head":
            return self.at_state(self.head_ctx, lambda: self.freeze(self.ev(a[0]), 0))
        if f in ("forall", "exists"):
            tys = a[0]
            lam = a[-1]
            ty = [parse_ty(ast.literal_eval(t)) for t in a[:-1]]
            vs = [self.bvar("q_" + p.arg, sort_of(t)) for p, t in zip(lam.args.args, ty)]
            guard = And(*[Or(*[cls_of(v) == self.cid(c) for c in t.a]) for v, t in zip(vs, ty) if t.k == "ref" and t.a])
            saved = dict(self.env)
            for p, v, t in zip(lam.args.args, vs, ty):
                self.env[p.arg] = self.of_term(v, t)
            try:
                body = self.under(vs, TRUE, lambda: self.spec_truth(lam.body))
            finally:
                self.env = saved
            return self.boolv(z3.ForAll(vs, z3.Implies(guard, body)) if f == "forall" else z3.Exists(vs, And(guard, body)))
        if f == "implies":
            p = self.spec_truth(a[0])
            if z3.is_false(simp(p)):
                return self.boolv(TRUE)
            self.frames.append([p])
            try:
                q = self.spec_truth(a[1])
            finally:
                self.frames.pop()
            return self.boolv(Or(Not(p), q))
        if f == "iff":
            return self.boolv(self.spec_truth(a[0]) == self.spec_truth(a[1]))
        v = [self.force(self.ev(x)) if not isinstance(x, ast.Lambda) else None for x in a]
        if f in ("digraph", "multidigraph"):
            return self.graph_of(self.iterable(v[0]), self.iterable(v[1]), f == "multidigraph")
        if f in ("elems", "setof"):
            c = self.iterable(v[0])
            return Coll("set", c.parts, c.ety)
        if f == "nonempty":
            return self.boolv(self.nonempty(self.iterable(v[0])))
        if f == "distinct":
            return self.boolv(self.distinct(self.iterable(v[0])))
        if f in ("isnum", "isint", "isbool", "isstr", "isnone", "isref", "isobj", "isrec"):
            x = v[0]
            if f == "isrec":
                t = self.box(x)
                return self.boolv(And(V.is_o(t), Not(EMPTY(V.ov(t)))))
            if isinstance(x, Val):
                if x.ty.k == "any":
                    t = x.t
                    return self.boolv({"isnum": Or(V.is_i(t), V.is_r(t)), "isint": V.is_i(t), "isbool": V.is_b(t),
                                       "isstr": V.is_s(t), "isnone": V.is_none(t), "isref": V.is_ref(t),
                                       "isobj": V.is_o(t)}[f])
                k = x.ty.k
                return self.boolv(z3.BoolVal(k in {"isnum": ("int", "real"), "isint": ("int",), "isbool": ("bool",),
                                                   "isstr": ("str",), "isnone": ("none",), "isref": ("ref",),
                                                   "isobj": ("list", "rec", "tuple")}[f]))
            return self.boolv(z3.BoolVal(f == "isobj"))
        if f == "alike":
            # lists are values: equal length and elements make them one
            x, y = [self.iterable(q) for q in v[:2]]
            (n, at), (m, bt) = self.ordering(x), self.ordering(y)
            i = self.bvar("i", z3.IntSort())
            g = And(i >= 0, i < n)
            f = And(n == m, z3.ForAll([i], z3.Implies(g, self.under([i], g, lambda: self.term(at(i), x.ety) == self.term(bt(i), x.ety)))))
            eq = self.intern(x) == self.intern(y)
            self.define(z3.Implies(f, eq))
            return self.boolv(And(f, eq))
        if f == "fmt":
            return Val(STR, self.fmt2(ast.literal_eval(a[0]), v[1].t, v[2].t))
        if f == "contains":
            if v[1].ty.k == "any":
                return self.boolv(And(V.is_s(v[1].t), self.substring(v[0].t, V.sv(v[1].t))))
            return self.boolv(self.substring(v[0].t, v[1].t))
        if f == "cls":
            nm = ast.literal_eval(a[1])
            return self.boolv(self.isinst(v[0], nm))
        if f == "ite":
            return self.ite(self.truth(v[0]), v[1], v[2])
        if f == "same":
            return self.boolv(self.is_(v[0], v[1]))
        if f == "card":
            return self.card(v[0])
        if f == "is_new":
            return self.boolv(Not(self.new_base(v[0].t)))
        if f in ("unchanged", "unchanged_except"):
            key = ast.literal_eval(a[0])
            r = self.bvar("r", Ref)
            new = self.sel(key, r)
            old = self.at_state(self.old_ctx, lambda: self.sel(key, r))
            g = [OLD(r)] if self.allocated else []
            g.append(Or(*[cls_of(r) == self.cid(x) for x in self.key_classes(key)]))
            if f == "unchanged_except":
                p = self.lam_pred(a[1])
                g.append(Not(self.with_key(key, lambda: self.under([r], TRUE, lambda: p(r)))))
            return self.boolv(z3.ForAll([r], z3.Implies(And(*g), new == old)))
        if f == "sumof":
            return self.sum_(self.iterable(v[0]))
        raise Unsupported("spec function " + f)

    def distinct(self, c):
        fs = []
        ps = c.parts
        if all(not p.vars for p in ps) is False and len(ps) == 1 and ps[0].vars and isinstance(ps[0].val, Val) and \
                len(ps[0].vars) == 1 and ps[0].val.t.eq(ps[0].vars[0]):
            return TRUE
        for i, p in enumerate(ps):
            for j in range(i, len(ps)):
                a, b = self.fresh_part(p), self.fresh_part(ps[j])
                if i == j and not p.vars:
                    continue
                e = self.under(tuple(a.vars) + tuple(b.vars), And(a.dom, b.dom), lambda: self.eq(a.val, b.val))
                same = And(*[x == y for x, y in zip(a.vars, b.vars)]) if i == j else FALSE
                vs = list(a.vars) + list(b.vars)
                f = z3.Implies(And(a.dom, b.dom, e), same)
                fs.append(z3.ForAll(vs, f) if vs else f)
        return And(*fs)

    # ------------------------------------------------------------ built-ins
    def isinst(self, v, nm):
        if nm in ("int", "float", "bool", "str", "list", "dict", "set", "tuple"):
            if isinstance(v, Val):
                k, t = v.ty.k, v.t
                if k == "any":
                    if nm == "int":
                        return Or(V.is_i(t), V.is_b(t))
                    if nm == "float":
                        return V.is_r(t)
                    if nm == "bool":
                        return V.is_b(t)
                    if nm == "str":
                        return V.is_s(t)
                    alts = {"list": "list", "dict": "rec", "set": "set", "tuple": "tuple"}[nm]
                    if v.ty.a and not any(a.k == alts for a in v.ty.a):
                        return FALSE
                    if [a.k for a in v.ty.a if a.k in ("list", "rec", "set", "tuple", "dict")] == [alts]:
                        return V.is_o(t)
                    raise Unsupported("isinstance of an untyped value")
                m = {"int": ("int", "bool"), "float": ("real",), "bool": ("bool",), "str": ("str",)}.get(nm, ())
                return z3.BoolVal(k in m)
            if isinstance(v, Coll):
                return z3.BoolVal(nm == v.kind)
            if isinstance(v, (Rec, DictV)):
                return z3.BoolVal(nm == "dict")
            if isinstance(v, Tup):
                return z3.BoolVal(nm == "tuple")
            return FALSE
        if isinstance(v, Val):
            sub = {c for c in self.prog.classes if nm in self.prog.mro(c)}
            if v.ty.k == "ref":
                if set(v.ty.a) <= sub:
                    return TRUE
                return Or(*[cls_of(v.t) == self.cid(c) for c in v.ty.a if c in sub])
            if v.ty.k == "any":
                return And(V.is_ref(v.t), Or(*[cls_of(V.refv(v.t)) == self.cid(c) for c in sorted(sub)]))
        return FALSE

    def isinstance_(self, v, node):
        if isinstance(node, ast.Tuple):
            return simp(Or(*[self.isinstance_(v, x) for x in node.elts]))
        return simp(self.isinst(v, node.id))

    def card(self, c):
        """Number of elements; cardinality facts used: 0 and at most 1."""
        c = self.force(c)
        if isinstance(c, DictV):
            c = self.iterable(c)
        if isinstance(c, (Rec, Tup)):
            return self.lit(len(c.f if isinstance(c, Rec) else c.items))
        if isinstance(c, Val) and c.ty.k == "str":
            n = z3.Function("strlen", Str, z3.IntSort())(c.t)
            self.define(n >= 0)
            return Val(INT, n)
        if isinstance(c, Val) and c.ty.k == "any":
            alts = [a for a in c.ty.a if a.k in ("list", "rec")]
            if len(alts) == 1:
                return self.card(self.unbox(c, alts[0]))
        if isinstance(c, Val) and c.ty.k in ("none", "int", "real", "bool", "ref"):
            raise PyRaise("TypeError", "len")
        if not isinstance(c, Coll):
            raise Unsupported("len of %s" % type(c).__name__)
        if c.kind != "set":
            if c.conc is not None:
                return self.lit(len(c.conc))
            if c.order is not None:
                return Val(INT, c.order[0])
        key = (c.kind, tuple((tuple(p.vars), p.dom, p.val) for p in c.parts))
        if c.kind == "set" and c.arr is not None:
            n = z3.Function("card:" + c.arr.sort().name() + str(c.arr.sort().domain()), c.arr.sort(), z3.IntSort())(c.arr)
        else:
            n = None
            for (c0, n0) in self.cards:
                if c0.kind == c.kind and self.same_parts(c0, c):
                    return Val(INT, n0)
            n = self.const("card", z3.IntSort())
            if not self.bound:
                self.cards.append((c, n))
            if c.kind == "set":
                for c0, r in self.canons:
                    if self.same_parts(c0, c):
                        self.define(n == self.card(r).t)
        self.define(n >= 0)
        self.define((n == 0) == Not(self.nonempty(c)))
        two = []
        ps = c.parts
        for i, p in enumerate(ps):
            for j in range(i, len(ps)):
                a, b = self.fresh_part(p), self.fresh_part(ps[j])
                if i == j and not p.vars:
                    continue
                vs = list(a.vars) + list(b.vars)
                if c.kind == "set":
                    d = Not(self.under(tuple(vs), And(a.dom, b.dom), lambda: self.eq(a.val, b.val)))
                else:
                    d = Not(And(*[x == y for x, y in zip(a.vars, b.vars)])) if i == j else TRUE
                two.append(Exists(vs, And(a.dom, b.dom, d)))
        self.define((n >= 2) == Or(*two))
        canon = all(len(p.vars) == 1 and isinstance(p.val, Val) and p.val.t.eq(p.vars[0]) for p in ps) and len(ps) == 1
        if c.kind != "set" or canon:
            self.define(n == (z3.Sum(*[self.card_total(p) for p in ps]) if ps else 0))
        elif len(ps) == 1:
            m = self.card_total(ps[0])
            self.define(And(n <= m, (n == m) == self.distinct(Coll("list", ps))))
        return Val(INT, n)

    def same_parts(self, a, b):
        if len(a.parts) != len(b.parts):
            return False
        for p, q in zip(a.parts, b.parts):
            if len(p.vars) != len(q.vars) or [x.sort() for x in p.vars] != [x.sort() for x in q.vars]:
                return False
            sub = list(zip(q.vars, p.vars))
            qd = z3.substitute(q.dom, *sub) if sub else q.dom
            if not simp(qd).eq(simp(p.dom)):
                return False
            if not self.same_val(p.val, self.subst(q.val, sub)):
                return False
        return True

    def same_val(self, a, b):
        if isinstance(a, Val) and isinstance(b, Val):
            return a.t.eq(b.t)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        return False

    def builtin(self, f, args, kw):
        if f == "len":
            return self.card(self.force(args[0]))
        if f in ("list", "set", "tuple", "iter", "sorted", "frozenset", "reversed"):
            if not args:
                return self.cell(Coll("set" if f in ("set", "frozenset") else "list", []))
            v = self.force(args[0])
            if f == "tuple" and isinstance(v, Tup):
                return v
            c = self.iterable(v)
            if f in ("list", "tuple", "sorted") and c.kind == "set" and c.multi:
                raise Unsupported("list of a set of tuples")
            if f in ("set", "frozenset"):
                return self.cell(Coll("set", c.parts, c.ety, arr=c.arr if c.kind == "set" else None))
            if f == "iter":
                return Coll(c.kind if c.kind == "set" else "gen", c.parts, c.ety, c.order, c.obj, c.arr, c.src)
            if f == "reversed":
                n, at = self.ordering(c)
                i = self.bvar("i", z3.IntSort())
                return Coll("gen", [Part([i], And(i >= 0, i < n), at(n - 1 - i))], c.ety, (n, lambda k: at(n - 1 - k)))
            src_ = c.src if c.src is not None else c.arr
            return self.cell(Coll("list", c.parts, c.ety, None if c.kind == "set" or f == "sorted" else c.order,
                                  None, None, src_ if f == "list" else None))
        if f == "dict" and not args and not kw:
            return self.cell(DictV(None, None, lambda k: FALSE, None))
        if f in ("any", "all"):
            c = self.iterable(args[0])
            fs = []
            for p in c.parts:
                p = self.fresh_part(p)
                t = self.under(p.vars, p.dom, lambda: simp(self.truth(p.val)))
                fs.append(Exists(p.vars, And(p.dom, t)) if f == "any" else
                          (z3.ForAll(list(p.vars), z3.Implies(p.dom, t)) if p.vars else Or(Not(p.dom), t)))
            return self.boolv(Or(*fs) if f == "any" else And(*fs))
        if f in ("min", "max"):
            if len(args) > 1:
                r = self.numeric(args[0])
                for x in args[1:]:
                    x = self.numeric(x)
                    a, b = self.num(r, "real"), self.num(x, "real")
                    r = self.ite(a <= b if f == "min" else a >= b, r, x)
                return r
            return self.minmax(f, self.iterable(args[0]))
        if f == "sum":
            return self.sum_(self.iterable(args[0]))
        if f == "abs":
            v = self.numeric(args[0])
            return Val(v.ty, z3.If(v.t >= 0, v.t, -v.t))
        if f == "round":
            v = self.numeric(args[0])
            n = simp(self.numeric(args[1]).t).as_long() if len(args) > 1 else 0
            return self.round_(v, n)
        if f == "float":
            v = self.force(args[0])
            if isinstance(v, Fmt):
                return self.round_(v.v, v.n)
            if isinstance(v, Val) and v.ty.k == "str":
                ok = z3.Function("isfloat", Str, z3.BoolSort())(v.t)
                self.exc_if(Not(ok), "ValueError")
                return Val(REAL, z3.Function("floatof", Str, z3.RealSort())(v.t))
            v = self.numeric(v)
            return Val(REAL, self.num(v, "real"))
        if f == "int":
            v = self.force(args[0])
            if isinstance(v, Val) and v.ty.k == "str":
                ok = z3.Function("isint", Str, z3.BoolSort())(v.t)
                self.exc_if(Not(ok), "ValueError")
                return Val(INT, z3.Function("intof", Str, z3.IntSort())(v.t))
            v = self.numeric(v)
            if v.ty.k == "int":
                return v
            i = self.const("int", z3.IntSort())
            self.define(z3.If(v.t >= 0, And(z3.ToReal(i) <= v.t, v.t < z3.ToReal(i) + 1),
                              And(z3.ToReal(i) >= v.t, v.t > z3.ToReal(i) - 1)))
            return Val(INT, i)
        if f == "bool":
            return self.boolv(self.truth(args[0]))
        if f in ("str", "repr"):
            v = self.force(args[0])
            if f == "str" and isinstance(v, Val):
                if v.ty.k == "str":
                    return v
                if v.ty.k == "int":
                    g = z3.Function("str_of_int", z3.IntSort(), Str)
                    h = z3.Function("int_of_str", Str, z3.IntSort())
                    self.define(h(g(v.t)) == v.t)
                    return Val(STR, g(v.t))
            return Val(STR, self.const("str", Str))
        if f == "range":
            lo = self.numeric(args[0]).t if len(args) > 1 else z3.IntVal(0)
            hi = self.numeric(args[-1]).t if len(args) < 3 else None
            if hi is None:
                raise Unsupported("range step")
            i = self.bvar("i", z3.IntSort())
            m = simp(z3.If(hi - lo > 0, hi - lo, z3.IntVal(0)))
            if z3.is_int_value(m) and m.as_long() <= 8:
                return Coll("list", [Part((), TRUE, Val(INT, simp(lo + k))) for k in range(m.as_long())], INT)
            return Coll("list", [Part([i], And(i >= 0, i < m), Val(INT, simp(lo + i)))], INT, (m, lambda k: Val(INT, simp(lo + k))))
        if f == "zip":
            os = [self.ordering(self.iterable(a)) for a in args]
            n = os[0][0]
            for m, _ in os[1:]:
                n = z3.If(n <= m, n, m)
            n = simp(n)
            if z3.is_int_value(n) and n.as_long() <= 8:
                return Coll("list", [Part((), TRUE, Tup([g(z3.IntVal(k)) for _, g in os])) for k in range(n.as_long())])
            i = self.bvar("i", z3.IntSort())
            return Coll("list", [Part([i], And(i >= 0, i < n), Tup([g(i) for _, g in os]))], None,
                        (n, lambda k: Tup([g(k) for _, g in os])))
        if f == "enumerate":
            c = self.iterable(args[0])
            n, at = self.ordering(c)
            i = self.bvar("i", z3.IntSort())
            return Coll("list", [Part([i], And(i >= 0, i < n), Tup([Val(INT, i), at(i)]))], None,
                        (n, lambda k: Tup([Val(INT, k), at(k)])))
        if f == "random.choice":
            c = self.iterable(args[0])
            self.exc_if(Not(self.nonempty(c)), "IndexError")
            self.assumptions.add("random.choice returns some element of a non-empty list")
            return self.pick(c)
        if f == "hash" or f == "id":
            return Val(INT, self.const("hash", z3.IntSort()))
        if f in ("nx.DiGraph", "nx.MultiDiGraph") and not args and not kw:
            return self.new_graph(f == "nx.MultiDiGraph")
        if f.startswith("nx.") and args:
            return self.nx_call(f[3:], args, kw)
        if f.startswith("nx.") or f.startswith("itertools."):
            c = self.lib.contracts.get(f)
            if c is None:
                raise Unsupported(f)
            return self.ext_call(c, args, kw)
        if f == "opaque":
            return Opaque("time")
        raise Unsupported("built-in " + f)

    def ext_call(self, c, args, kw):
        env = dict(zip(c.params, args))
        env.update(kw)
        return self.apply_contract(c, None, env)

    def round_(self, v, n):
        x = self.num(v, "real")
        rd = z3.Function("round%d" % n, z3.RealSort(), z3.RealSort())
        r = rd(x)
        h = z3.Q(1, 2 * 10 ** n)
        self.define(And(r - x <= h, x - r <= h))
        self.define(z3.Implies(z3.IsInt(x * 10 ** n), r == x))
        self.assumptions.add("round(x, n) is within half a unit of its last digit of x and exact on multiples of it")
        return Val(REAL, r)

    def minmax(self, f, c):
        e = self.nonempty(c)
        if not self.spec:
            self.exc_if(Not(e), "ValueError")
        if c.conc is not None and c.conc:
            r = self.numeric(c.conc[0])
            for x in c.conc[1:]:
                x = self.numeric(x)
                r = self.ite(self.num(r, "real") <= self.num(x, "real") if f == "min" else
                             self.num(r, "real") >= self.num(x, "real"), r, x)
            return r
        ety = self.coll_ety(c)
        if ety.k == "str":
            raise Unsupported("min of strings")
        sort = z3.IntSort() if ety.k == "int" else z3.RealSort()
        for c0, f0, m0 in self.mins:
            if f0 == f and self.same_parts(c0, c):
                return Val(INT if ety.k == "int" else REAL, m0)
        m = self.const(f, sort)
        if not self.bound:
            self.mins.append((c, f, m))
        ex = []
        for p in c.parts:
            p = self.fresh_part(p)

            def go():
                v = self.numeric_total(p.val)
                t = v.t if v.ty.k == ("int" if ety.k == "int" else "real") else self.num(v, "real")
                return t
            t = self.under(p.vars, p.dom, go)
            b = z3.Implies(p.dom, m <= t if f == "min" else m >= t)
            self.define(z3.ForAll(list(p.vars), b) if p.vars else b)
            ex.append(Exists(p.vars, And(p.dom, m == t)))
        self.define(z3.Implies(e, Or(*ex)))
        return Val(INT if ety.k == "int" else REAL, m)

    def numeric_total(self, v):
        v = self.force(v)
        if isinstance(v, Val) and v.ty.k == "any":
            return Val(REAL, self.num(v))
        if isinstance(v, Val) and v.ty.k == "bool":
            return Val(INT, self.num(v))
        if not isinstance(v, Val) or v.ty.k not in ("int", "real"):
            raise Unsupported("number expected")
        return v

    def sum_(self, c):
        if c.multi:
            raise Unsupported("sum over a set of tuples")
        if c.conc is not None:
            r = self.lit(0)
            for x in c.conc:
                r = self.binop(ast.Add(), r, self.force(x))
            return r
        ety = self.coll_ety(c)
        for c0, n0 in self.sums:
            if self.same_parts(c0, c):
                return Val(INT if ety.k == "int" else REAL, n0)
        sort = z3.IntSort() if ety.k == "int" else z3.RealSort()
        tot = []
        for p in c.parts:
            p = self.fresh_part(p)
            t = self.under(p.vars, p.dom, lambda: self.numeric_total(p.val).t)
            if sort == z3.RealSort() and t.sort() == z3.IntSort():
                t = z3.ToReal(t)
            t = z3.If(p.dom, t, z3.RealVal(0) if sort == z3.RealSort() else z3.IntVal(0))
            if not p.vars:
                tot.append(t)
                continue
            tot.append(self.total(p.vars, t, sort))
        s = simp(z3.Sum(*tot)) if len(tot) > 1 else tot[0]
        if not self.bound:
            self.sums.append((c, s))
        return Val(INT if ety.k == "int" else REAL, s)

    def total(self, vars, t, sort):
        """The sum of t over all values of vars."""
        o = self.list_of(t, vars)
        if o is not None and not any(o.eq(b) for b in self.bound):
            # a sum over a list is a function of the list
            P = z3.Const("sumP", o.sort())
            saved, self.bound = self.bound, [P]
            try:
                f = self.total(vars, z3.substitute(t, (o, P)), sort)
            finally:
                self.bound = saved
            return z3.substitute(f, (P, o))
        if o is not None:
            saved, self.bound = self.bound, [o]
            try:
                return self.total_of(vars, t, sort)
            finally:
                self.bound = saved
        return self.total_of(vars, t, sort)

    def list_of(self, t, vars):
        """The list a term sums over, when everything else in it is fixed."""
        st, seen, out = [t], set(), []
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                if z3.is_quantifier(x):
                    return None
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().eq(olen) and not any(o.eq(x.arg(0)) for o in out):
                out.append(x.arg(0))
            st.extend(x.children())
        if len(out) != 1:
            return None
        ids = {v.get_id() for v in vars}
        if self.mentions(out[0], ids):
            return None
        u = z3.substitute(t, (out[0], z3.Const("sumP", out[0].sort())))
        if self.mentions(u, {b.get_id() for b in self.bound if not b.eq(out[0])}):
            return None
        return out[0]

    def total_of(self, vars, t, sort):
        B = tuple(self.bound)
        sub = [(v, z3.Const("cb%d:%s" % (n, v.sort()), v.sort())) for n, v in enumerate(B)] + \
            [(v, z3.Const("cx%d:%s" % (n, v.sort()), v.sort())) for n, v in enumerate(vars)]
        key = self.akey(z3.substitute(t, *sub))
        for old in self.totals:
            if old[4] == key and len(old[0]) == len(B) and len(old[1]) == len(vars):
                return z3.substitute(old[3], *zip(old[0], B)) if B else old[3]
        s = self.const("sum", sort)
        x = list(vars)
        self.define_always(z3.Implies(z3.ForAll(x, t == 0), s == 0))
        self.define_always(z3.Implies(z3.ForAll(x, t >= 0), And(s >= 0, z3.ForAll(x, t <= s))))
        self.totals.append((B, tuple(vars), t, s, key))
        return s

    def card_total(self, p):
        t = z3.If(p.dom, z3.IntVal(1), z3.IntVal(0))
        return self.total(p.vars, t, z3.IntSort()) if p.vars else t

    def total_lemmas(self):
        """Sums over the same kind of index: equal when all terms are equal, and
        different by one term when all other terms are equal."""
        out = []
        T = self.totals
        for j in range(len(T)):
            for i in range(j):
                key = (T[i][3].get_id(), T[j][3].get_id(), len(self.elems))
                if key not in self.total_cache:
                    self.total_cache[key] = (self.total_pair(T[i], T[j]), T[i], T[j])
                out += self.total_cache[key][0]
        return out

    def total_pair(self, a, b):
        (B, xs, t, s, _), (B2, ys, u, r, _) = a, b
        if [v.sort() for v in xs] != [v.sort() for v in ys] or s.sort() != r.sort():
            return []
        if B and B2 and [v.sort() for v in B] != [v.sort() for v in B2]:
            return []
        nb = [z3.FreshConst(v.sort(), "tb") for v in (B or B2)]
        nx = [z3.FreshConst(v.sort(), "tx") for v in xs]
        sa, sb = list(zip(B, nb)) if B else [], list(zip(B2, nb)) if B2 else []
        t, s = z3.substitute(t, *sa, *zip(xs, nx)), z3.substitute(s, *sa) if sa else s
        u, r = z3.substitute(u, *sb, *zip(ys, nx)), z3.substitute(r, *sb) if sb else r
        if 1:
            fs = [z3.Implies(z3.ForAll(nx, t == u), s == r)]
            if len(nx) == 1:
                for e in self.elems:
                    if e.sort() == nx[0].sort():
                        fs.append(z3.Implies(z3.ForAll(nx, Or(nx[0] == e, t == u)),
                                             s - r == z3.substitute(t, (nx[0], e)) - z3.substitute(u, (nx[0], e))))
        if nb:
            pats = [z3.MultiPattern(s, r)] if B and B2 else [s if B else r]
            fs = [z3.ForAll(nb, f, patterns=pats) for f in fs]
        return fs

    # ------------------------------------------------------------ container methods
    def raw(self, loc):
        while isinstance(loc, Cell):
            v = self.cells[loc.id]
            if not isinstance(v, (Cell, FieldLoc, SubLoc)):
                return loc, v
            loc = v
        return loc, None

    def method(self, recv, name, args, kw):
        loc, acc = self.raw(recv) if isinstance(recv, Cell) else (recv, None)
        if isinstance(acc, Acc):
            if name in ("add", "append") and acc.kind in ("set", "list"):
                v = self.freeze(args[0], self.cell_floor)
                self.cells[loc.id] = Acc(acc.kind, acc.added + (Part((), TRUE, self.force(v)),))
                return Val(NONE, V.none)
            if name in ("update", "extend") and acc.kind in ("set", "list"):
                c = self.iterable(args[0])
                self.cells[loc.id] = Acc(acc.kind, acc.added + tuple(c.parts))
                return Val(NONE, V.none)
            raise Unsupported("a container built by the loop is used inside it (needs a loop invariant)")
        c = self.force(recv)
        if isinstance(c, Coll):
            if c.kind == "set":
                return self.set_method(recv, c, name, args)
            return self.list_method(recv, c, name, args)
        if isinstance(c, DictV):
            return self.dict_method(recv, c, name, args)
        if isinstance(c, Graph):
            return self.graph_method(recv, c, name, args, kw)
        if isinstance(c, Rec):
            if name == "items":
                return Coll("list", [Part((), TRUE, Tup([self.lit(k), v])) for k, v in c.f.items()])
            if name == "keys":
                return Coll("list", [Part((), TRUE, self.lit(k)) for k in c.f])
            if name == "values":
                return Coll("list", [Part((), TRUE, v) for v in c.f.values()])
            if name == "get":
                k = self.litstr(self.force(args[0]))
                if k is not None:
                    return c.f.get(k, args[1] if len(args) > 1 else Val(NONE, V.none))
            raise Unsupported("record method " + name)
        if isinstance(c, Val) and c.ty.k in ("str", "any"):
            if name == "split":
                return self.split(c, args)
            if name in ("strip", "rstrip", "lstrip", "lower", "upper", "replace", "title"):
                return Val(STR, self.const("str", Str))
            if name in ("startswith", "endswith"):
                return self.boolv(self.const("sw", z3.BoolSort()))
        raise Unsupported("method %s" % name)

    def split(self, c, args):
        raise Unsupported("split")

    def set_method(self, recv, c, name, args):
        none = Val(NONE, V.none)
        if name == "add":
            v = self.force(args[0])
            if isinstance(recv, FieldLoc) and isinstance(v, Val) and isinstance(recv.ty.a[0], Ty):
                e = recv.ty.a[0]
                v = self.coerce(v, e, "element added to %s" % recv.key)
                self.write(recv.key, recv.ref, z3.Store(self.sel(recv.key, recv.ref), v.t, TRUE))
                return none
            self.store(recv, Coll("set", c.parts + [Part((), TRUE, v)], c.ety if c.ety == self.elem_ty(v) else None))
            return none
        if name in ("remove", "discard"):
            v = self.force(args[0])
            if name == "remove":
                self.exc_if(Not(self.member(c, v)), "KeyError")
            if isinstance(recv, FieldLoc) and isinstance(v, Val):
                if name == "remove":
                    v = self.coerce(v, recv.ty.a[0], "element removed from %s" % recv.key)
                self.write(recv.key, recv.ref, z3.Store(self.sel(recv.key, recv.ref), v.t, FALSE))
                return none
            self.store(recv, self.set_minus(c, v))
            return none
        if name == "union":
            ps = list(c.parts)
            for a in args:
                ps += self.iterable(a).parts
            return self.cell(Coll("set", ps))
        if name == "update":
            ps = list(c.parts)
            for a in args:
                ps += self.iterable(a).parts
            self.store(recv, Coll("set", ps))
            return none
        if name in ("difference", "intersection"):
            return self.binop(ast.Sub() if name == "difference" else ast.BitAnd(), c, self.iterable(args[0]))
        if name == "copy":
            return self.cell(c)
        if name == "clear":
            self.store(recv, Coll("set", []))
            return none
        if name in ("issubset", "issuperset"):
            a, b = (c, self.iterable(args[0])) if name == "issubset" else (self.iterable(args[0]), c)
            fs = []
            for p in a.parts:
                p = self.fresh_part(p)
                m = self.under(p.vars, p.dom, lambda: self.member(b, p.val))
                fs.append(z3.ForAll(list(p.vars), z3.Implies(p.dom, m)) if p.vars else Or(Not(p.dom), m))
            return self.boolv(And(*fs))
        raise Unsupported("set method " + name)

    def set_minus(self, c, v):
        ps = []
        for p in c.parts:
            p = self.fresh_part(p)
            e = self.under(p.vars, p.dom, lambda: self.eq(p.val, v))
            ps.append(Part(p.vars, And(p.dom, Not(e)), p.val))
        return Coll("set", ps, c.ety)

    def list_method(self, recv, c, name, args):
        none = Val(NONE, V.none)
        if name == "append":
            v = args[0]
            n_at = None
            if c.order is not None or c.conc is not None:
                if c.conc is None:
                    n, at = c.order
                    fv = self.freeze(v, 0)
                    n_at = (simp(n + 1), lambda k: self.ite(k == n, fv, at(k)))
            self.store(recv, Coll("list", c.parts + [Part((), TRUE, v)], None, n_at))
            return none
        if name == "extend":
            o = self.iterable(args[0])
            self.store(recv, Coll("list", c.parts + o.parts))
            return none
        if name == "count":
            v = self.force(args[0])
            ps = []
            for p in c.parts:
                p = self.fresh_part(p)
                ps.append(Part(p.vars, And(p.dom, self.under(p.vars, p.dom, lambda: self.eq(p.val, v))), p.val))
            return self.card(Coll("list", ps, c.ety))
        if name in ("sort", "reverse"):
            if name == "sort":
                self.store(recv, Coll("list", c.parts, c.ety))
            else:
                n, at = self.ordering(c)
                i = self.bvar("i", z3.IntSort())
                self.store(recv, Coll("list", [Part([i], And(i >= 0, i < n), at(n - 1 - i))], c.ety,
                                      (n, lambda k: at(n - 1 - k))))
            return none
        if name == "index":
            self.exc_if(Not(self.member(c, self.force(args[0]))), "ValueError")
            i = self.const("index", z3.IntSort())
            n, at = self.ordering(c)
            self.define(And(i >= 0, i < n))
            self.define(self.eq(at(i), self.force(args[0])))
            return Val(INT, i)
        if name == "copy":
            return self.cell(c)
        if name == "remove":
            v = self.force(args[0])
            self.exc_if(Not(self.member(c, v)), "ValueError")
            ety = self.coll_ety(c)
            n0 = self.card(c).t
            new = self.typed_const("removed", Ty("list", (ety,)))
            n1 = self.card(new).t
            self.define(n1 == n0 - 1)
            for src, dst, skip in ((new, c, False), (c, new, True)):
                for p in src.parts:
                    p = self.fresh_part(p)
                    f = self.under(p.vars, p.dom, lambda: Or(self.member(dst, p.val), self.eq(p.val, v) if skip else FALSE))
                    self.define(z3.ForAll(p.vars, z3.Implies(p.dom, f)) if p.vars else z3.Implies(p.dom, f))
            self.store(recv, new)
            return none
        raise Unsupported("list method " + name)

    def dict_method(self, recv, c, name, args):
        if name == "items":
            if c.kty is None:
                return Coll("list", [])
            k = self.bvar("k", sort_of(c.kty))
            return Coll("set", [Part([k], c.dom(k), Tup([self.of_key(k, c.kty), c.get(k)]))])
        if name == "keys":
            return self.iterable(c)
        if name == "values":
            if c.kty is None:
                return Coll("list", [])
            k = self.bvar("k", sort_of(c.kty))
            return Coll("gen", [Part([k], c.dom(k), c.get(k))])
        if name == "get":
            if c.kty is None:
                return args[1] if len(args) > 1 else Val(NONE, V.none)
            t = self.key_term(args[0], c.kty)
            return self.ite(c.dom(t), c.get(t), args[1] if len(args) > 1 else Val(NONE, V.none))
        raise Unsupported("dict method " + name)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        m(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        pass

    s_ImportFrom = s_Import

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.bind(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name) and isinstance(self.env.get(s.target.id), Carry):
            c = self.env[s.target.id]
            if isinstance(s.op, ast.Add):
                v = self.force(self.ev(s.value))
                n = Carry(c.name)
                n.adds = c.adds + [v]
                self.env[s.target.id] = n
                return
            raise Unsupported("loop-carried variable %s needs a loop invariant" % c.name)
        cur = self.ev(ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s))
        cv = self.force(cur)
        if isinstance(cv, Coll) and cv.kind == "list" and isinstance(s.op, ast.Add):
            loc, acc = self.raw(cur) if isinstance(cur, Cell) else (cur, None)
            self.list_method(cur, cv, "extend", [self.ev(s.value)])
            return
        v = self.binop(s.op, cv, self.force(self.ev(s.value)))
        self.bind(s.target, v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                loc = self.ev(t.value)
                c = self.force(loc)
                if isinstance(c, DictV) and c.kty is not None:
                    k = self.key_term(self.ev(t.slice), c.kty)
                    self.exc_if(Not(c.dom(k)), "KeyError")
                    self.store(loc, DictV(c.kty, c.vty, lambda q: And(c.dom(q), q != k), c.get))
                    continue
            raise Unsupported("del")

    def s_Return(self, s):
        raise RetEx(Val(NONE, V.none) if s.value is None else self.ev(s.value))

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContEx()

    def s_Assert(self, s):
        if not self.branch(self.cond(s.test)):
            raise PyRaise("AssertionError")

    def s_Raise(self, s):
        if s.exc is None:
            raise PyRaise("Exception", "re-raise")
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        if isinstance(s.exc, ast.Call):
            for x in s.exc.args:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id not in self.env and y.id in self.locals_now:
                        raise PyRaise("UnboundLocalError", y.id)
        raise PyRaise(e.id if isinstance(e, ast.Name) else e.attr)

    def plain_expr(self, e):
        """An expression that only builds a value of known names: it cannot raise or change anything."""
        if isinstance(e, ast.Name):
            return e.id in self.env
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, ast.Dict):
            return all(isinstance(k, ast.Constant) for k in e.keys) and all(self.plain_expr(x) for x in e.values)
        if isinstance(e, ast.Tuple):
            return all(self.plain_expr(x) for x in e.elts)
        return False

    def guarded_append(self, s, c):
        """`if c: xs.append(v)` without a fork: the element is in the list under c."""
        if s.orelse or len(s.body) != 1 or not isinstance(s.body[0], ast.Expr) or self.spec:
            return False
        e = s.body[0].value
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "add") and isinstance(e.func.value, ast.Name)
                and len(e.args) == 1 and not e.keywords and self.plain_expr(e.func.value) and self.plain_expr(e.args[0])):
            return False
        recv = self.env[e.func.value.id]
        cur = self.raw(recv)[1] if isinstance(recv, Cell) else None
        if not isinstance(cur, Coll) or cur.kind != ("list" if e.func.attr == "append" else "set") or isinstance(self.raw(recv)[0], FieldLoc):
            return False
        self.block(s.body)
        new, k = self.force(recv), len(cur.parts)
        r = self.ite(c, new, cur)
        if len(new.parts) >= k and all(p is q for p, q in zip(new.parts, cur.parts)):
            r.parts = cur.parts + [Part(p.vars, And(c, p.dom), p.val) for p in new.parts[k:]]
        self.store(recv, r)
        return True

    def s_If(self, s):
        c = simp(self.cond(s.test))
        if not z3.is_true(c) and not z3.is_false(c) and self.guarded_append(s, c):
            return
        if self.branch(c):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Try(self, s):
        try:
            self.block(s.body)
        except PyRaise as e:
            for h in s.handlers:
                ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = [t.id if isinstance(t, ast.Name) else t.attr for t in ts]
                if h.type is None or any(is_exc(e.exc, t) for t in names):
                    if h.name:
                        self.env[h.name] = Opaque("exception")
                    self.block(h.body)
                    break
            else:
                self.block(s.finalbody)
                raise
        else:
            self.block(s.orelse)
        self.block(s.finalbody)

    def s_While(self, s):
        inv = None
        if self.inline_depth == self.base_depth and self.target is not None and not self.spec:
            inv = self.target.loops.get(self.loop_index(s))
        if inv is None:
            raise Unsupported("while loop without an invariant")
        self.loop_inv(s, None, inv)

    # ------------------------------------------------------------ for loops
    def s_For(self, s):
        coll = self.iterable(self.ev(s.iter))
        inv = None
        if self.inline_depth == self.base_depth and self.target is not None and not self.spec:
            k = self.loop_index(s)
            inv = self.target.loops.get(k)
        if coll.conc is not None and inv is None:
            for x in coll.conc:
                try:
                    self.bind(s.target, x)
                    self.block(s.body)
                except BreakEx:
                    return
                except ContEx:
                    continue
            self.block(s.orelse)
            return
        if inv is not None:
            return self.loop_inv(s, coll, inv)
        self.loop_auto(s, coll)

    def loop_index(self, s):
        loops = [n for n in ast.walk(self.target_fn.node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        return next(i + 1 for i, n in enumerate(loops) if n is s)

    def mentions(self, t, consts, seen=None):
        """Does the term mention one of the constants (by ast id)?"""
        seen = set() if seen is None else seen
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.get_id() in consts:
                    return True
                st.extend(x.children())
        return False

    def reads_of(self, t, arr, out, seen):
        """Addresses at which the array constant is read in t; None for a
        read that is not a plain select at a closed address."""
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).eq(arr):
                    out.append(x.arg(1))
                    st.append(x.arg(1))
                    continue
                if x.eq(arr):
                    out.append(None)
                st.extend(x.children())

    @staticmethod
    def has_var(t):
        st = [t]
        while st:
            x = st.pop()
            if z3.is_var(x):
                return True
            if z3.is_quantifier(x):
                return True
            if z3.is_app(x):
                st.extend(x.children())
        return False

    def loop_auto(self, s, coll):
        base0 = self.snapshot()
        if coll.multi:
            raise Unsupported("loop over a set of tuples")
        W, MC = [], []
        heap_at = dict(self.heap)
        floor = self.ncell
        asg = assigned_names(s.body) - assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0), lineno=0)])
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        carried = [n for n in asg if n in self.env]
        pre_env = dict(self.env)
        for attempt in range(6):
            for k in W:
                self.materialise(k)
            for c in MC:
                v = self.cells[c]
                if isinstance(v, Acc):
                    self.cells[c] = Acc(v.kind, ())
                elif isinstance(v, Coll):
                    self.cells[c] = Acc(v.kind, ())
                elif isinstance(v, DictV):
                    self.cells[c] = Acc("dict", ())
                else:
                    raise Unsupported("loop changes a record (needs a loop invariant)")
            for n in carried:
                self.env[n] = Carry(n)
            base = self.snapshot()
            fl, self.cell_floor = self.cell_floor, self.ncell
            ndefs = len(self.defs)
            runs = []
            try:
                for p in coll.parts:
                    p = self.fresh_part(p)

                    def body():
                        self.bind(s.target, p.val)
                        self.block(s.body)
                    runs.append((p, self.nested(body, p.vars, p.dom)))
            finally:
                self.cell_floor = fl
            nw, nc = set(), set()
            for p, outs in runs:
                for pc, o, st in outs:
                    if o[0] in ("brk", "ret"):
                        continue
                    nw |= {e[0] for e in st[5][len(base[5]):]}
                    for c, v in base[2].items():
                        if c <= floor and st[2].get(c) is not v and c not in MC:
                            nc.add(c)
                    if len(st[3]) != len(base[3]):
                        raise Unsupported("allocation in a loop (needs a loop invariant)")
            nw = [k for k in sorted(nw) if k not in W]
            if not nw and not nc:
                break
            W += nw
            MC += sorted(nc)
            mat = {k: self.heap[k] for k in W if k in self.heap}
            self.restore(base0)
        else:
            raise Unsupported("loop effects do not stabilise")
        if W or MC:
            after = self.snapshot()
            self.restore(base0)
            self.lazy_check(coll, W, MC)
            self.restore(after)
        exits, excs, norm = [], [], []
        for p, outs in runs:
            for pc, o, st in outs:
                (exits if o[0] in ("brk", "ret") else excs if o[0] == "exc" else norm).append((p, pc, o, st))
        # restore the real containers and locals
        heapm = {k: self.heap[k] for k in W}
        self.restore(base0)
        for k in W:
            self.heap[k] = heapm[k]
        if exits:
            if W or MC or any(self.local_changes(st, base, carried) for _, _, _, st in norm):
                raise Unsupported("loop with effects and an early exit (needs a loop invariant)")
            return self.search_loop(s, coll, exits, excs, asg, pre_env)
        if excs:
            cond = [(Exists(p.vars, And(p.dom, pc)), o[1]) for p, pc, o, st in excs]
            for c, e in cond:
                if self.branch(c):
                    for k in W:
                        self.havoc(k)
                    for c2 in MC:
                        self.cells[c2] = Opaque("container after an exception in a loop")
                    raise e
        if W:
            self.combine(W, runs, base, norm, heapm, ndefs)
        elif MC or carried:
            pass
        for c in MC:
            old = self.cells[c]
            add = []
            kind = old.kind if isinstance(old, (Coll, Acc)) else "dict"
            for p, pc, o, st in norm:
                a = st[2][c]
                if not isinstance(a, Acc):
                    raise Unsupported("container replaced in a loop")
                for q in a.added:
                    add.append(Part(tuple(p.vars) + tuple(q.vars), And(p.dom, pc, q.dom), q.val))
            if isinstance(old, Acc):
                self.cells[c] = Acc(old.kind, old.added + tuple(add))
            else:
                srcc = None
                if not old.parts and coll.kind == "set" or coll.src is not None:
                    srcc = coll.src if coll.src is not None else coll.arr
                self.cells[c] = Coll(kind, old.parts + add, old.ety if not add or not old.parts else None, None,
                                     src=srcc if len(add) == 1 and not old.parts else None)
        for n in carried:
            adds = []
            for p, pc, o, st in norm:
                v = st[0].get(n)
                if not isinstance(v, Carry):
                    adds = None
                    break
                for x in v.adds:
                    adds.append(Part(p.vars, And(p.dom, pc), x))
            if adds is None:
                self.env[n] = Opaque("value of %s after the loop" % n)
            elif adds:
                self.env[n] = self.binop(ast.Add(), self.force(pre_env[n]), self.sum_(Coll("list", adds)))
            else:
                self.env[n] = pre_env[n]
        for n in (asg | tnames) - set(carried):
            self.env[n] = Opaque("value of %s after the loop" % n)
        self.block(s.orelse)

    def local_changes(self, st, base, carried):
        return any(st[0].get(n) is not base[0].get(n) for n in carried)

    def search_loop(self, s, coll, exits, excs, asg, pre_env):
        ex = [(p, And(p.dom, pc)) for p, pc, o, st in exits + excs]
        found = Or(*[Exists(p.vars, f) for p, f in ex])
        if self.branch(found):
            ps = []
            for p, f in ex:
                if p not in ps:
                    ps.append(p)
            for j, p in enumerate(ps):
                f = Or(*[g for q, g in ex if q is p])
                if j < len(ps) - 1 and not self.branch(Exists(p.vars, f)):
                    continue
                sub = [(v, self.const("found_" + str(v).split("?")[0], v.sort())) for v in p.vars]
                self.define(z3.substitute(f, *sub) if sub else f)
                if coll.kind != "set" and len(p.vars) == 1 and p.vars[0].sort() == z3.IntSort() and len(ps) == 1:
                    # first match of an ordered list
                    i = self.bvar("i", z3.IntSort())
                    self.define(z3.ForAll([i], z3.Implies(And(i < sub[0][1], i >= 0), Not(z3.substitute(f, (p.vars[0], i))))))
                elif coll.kind == "gen" and coll.src is None:
                    pass
                self.bind(s.target, self.subst(p.val, sub))
                try:
                    self.block(s.body)
                except BreakEx:
                    return
                except ContEx:
                    raise Dead()
                raise Dead()
            raise Dead()
        for n in asg:
            if n in pre_env:
                self.env[n] = pre_env[n]
        tn = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        for n in (asg | tn) - set(pre_env):
            self.env.pop(n, None)
        self.block(s.orelse)

    def combine(self, W, runs, base, norm, heapm, ndefs):
        """Effect of all iterations: every iteration reads the values from
        before the loop and writes do not conflict (both are obligations)."""
        nb = len(base[5])
        ent = []   # (part, pc, key, cond, val, outcome index, position)
        for oi, (p, pc, o, st) in enumerate(norm):
            for pos, (k, c, v) in enumerate(st[5][nb:]):
                ent.append((p, pc, k, c, v, oi, pos))
        r0 = self.const("loc", Ref)
        # reads
        for k in W:
            arr = heapm[k][0]
            reads = []
            seen = set()
            for p, pc, o, st in norm:
                self.reads_of(simp(pc), arr, reads, seen)
            for p, pc, kk, c, v, oi, pos in ent:
                self.reads_of(simp(c(r0)), arr, reads, seen)
                self.reads_of(simp(v(r0)), arr, reads, seen)
            for d in self.defs[ndefs:]:
                self.reads_of(d, arr, reads, seen)
            ws = [e for e in ent if e[2] == k]
            for a in reads:
                for p, pc, kk, c, v, oi, pos in ws:
                    # another iteration y must not write location a
                    q = self.fresh_part(p)
                    sub = list(zip(p.vars, q.vars))
                    if a is None or self.has_var(a):
                        a1 = self.const("anyloc", Ref)
                        tgt, other = a1, TRUE
                    else:
                        tgt = a
                        other = None
                    wr = z3.substitute(And(p.dom, pc, c(tgt if tgt is not r0 else r0)), *sub) if other is not None else \
                        And(q.dom, z3.substitute(pc, *sub), self.subst_at(c, sub, tgt))
                    # the reading iteration
                    for pr, _ in runs:
                        if other is None:
                            differ = Or(*[x != y for x, y in zip(pr.vars, q.vars)]) if pr is p else TRUE
                            g = And(pr.dom, differ, wr)
                        else:
                            g = wr
                        self.check(Not(g), "loop iterations: %s read by one iteration is not written by another" % k)
        # writes
        for i, e in enumerate(ent):
            for f in ent[i:]:
                if e[2] != f[2]:
                    continue
                p, q = e[0], self.fresh_part(f[0])
                sub = list(zip(f[0].vars, q.vars))
                v1, v2 = e[4](r0), self.subst_at(f[4], sub, r0)
                if v1.eq(v2):
                    continue
                differ = Or(*[x != y for x, y in zip(p.vars, q.vars)]) if f[0] is p else TRUE
                g = And(p.dom, e[1], e[3](r0), q.dom, z3.substitute(f[1], *sub) if sub else f[1], self.subst_at(f[3], sub, r0), differ)
                g = simp(g)
                if z3.is_false(g):
                    continue
                self.check(z3.Implies(g, v1 == v2), "loop iterations: writes to %s do not conflict" % e[2])
        for p, pc, k, c, v, oi, pos in ent:
            self.add_effect(p, pc, k, c, v)

    def subst_at(self, fn, sub, r):
        """fn(r) with the part variables replaced (not those inside r)."""
        d = self.const("at", Ref)
        t = fn(d)
        if sub:
            t = z3.substitute(t, *sub)
        return z3.substitute(t, (d, r))

    def add_effect(self, p, pc, k, c, v):
        d = self.const("at", Ref)
        cd, vd = simp(c(d)), v(d)
        if len(p.vars) == 1 and p.vars[0].sort() == Ref and simp(cd == (d == p.vars[0])).eq(TRUE) or \
                len(p.vars) == 1 and self.is_eq(cd, d, p.vars[0]):
            x = p.vars[0]
            g = And(p.dom, pc)
            self.update(k, lambda r: z3.substitute(g, (x, r)), lambda r: z3.substitute(z3.substitute(vd, (d, r)), (x, r)))
            return
        ids = {x.get_id() for x in p.vars}
        cond = lambda r: Exists(p.vars, And(p.dom, pc, z3.substitute(cd, (d, r))))
        if not self.mentions(vd, ids):
            self.update(k, cond, lambda r: z3.substitute(vd, (d, r)))
            return
        new = self.const("eff_" + k, z3.ArraySort(Ref, vd.sort()))
        vs = list(p.vars) + [d]
        f = z3.Implies(And(p.dom, pc, cd), z3.Select(new, d) == vd)
        self.define(z3.ForAll(vs, f))
        self.update(k, cond, lambda r: z3.Select(new, r))

    @staticmethod
    def is_eq(f, a, b):
        return z3.is_eq(f) and (f.arg(0).eq(a) and f.arg(1).eq(b) or f.arg(0).eq(b) and f.arg(1).eq(a))

    def loop_inv(self, s, coll, invs):
        """Loop with a stated invariant; _done is the collection of elements
        already treated (for an ordered list: a prefix of length _n)."""
        c = self.target
        k = self.loop_index(s)
        if coll is not None and coll.multi:
            raise Unsupported("loop over a set of tuples")
        W, MC, names, alloc, fresh_only = self.probe(s, coll, invs)
        if coll is not None:
            self.lazy_check(coll, W, MC)
        ordered = coll is not None and coll.kind != "set" and len(coll.parts) == 1 and coll.order is not None and \
            len(coll.parts[0].vars) == 1 and coll.parts[0].vars[0].sort() == z3.IntSort()
        self.inv_state(coll, None, ordered, "empty")
        for x in invs:
            self.check(self.inv_truth(x), "loop %d: invariant holds at the start: %s" % (k, src(x)))
        frames = self.loop_frames(W)
        for key in frames:
            self.check(self.loop_frame(key, frames[key]), "loop %d: %s is not changed outside its modifies clause so far" % (k, key))
        more = self.choose()
        self.loop_havoc(W, MC, names, alloc, fresh_only)
        D = None
        if coll is not None:
            D = [z3.Function("done%d!%d" % (j, self._n("done")), *[v.sort() for v in p.vars], z3.BoolSort()) if p.vars else
                 self.const("done", z3.BoolSort()) for j, p in enumerate(coll.parts)]
            if self.by_value(coll):
                self.closed_by_value(coll, D)
            if ordered:
                self.loop_n = self.const("n", z3.IntSort())
                self.define(And(self.loop_n >= 0, self.loop_n <= coll.order[0]))
        if coll is not None and not more:
            self.inv_state(coll, None, ordered, "all")
        else:
            self.inv_state(coll, D, ordered, "some")
        for key in frames:
            self.assume(self.loop_frame(key, frames[key]))
        for x in invs:
            self.assume(self.inv_truth(x))
        if coll is None:
            t = self.cond(s.test)
            if not more:
                self.assume(Not(t))
                self.drop_inv()
                self.block(s.orelse)
                return
            self.assume(t)
            cur = None
        elif not more:
            self.drop_inv()
            for n in {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}:
                self.env[n] = Opaque("value of %s after the loop" % n)
            self.block(s.orelse)
            return
        else:
            cur = self.loop_element(s, coll, D, ordered)
        if not self.feasible(TRUE):
            raise Dead()
        if coll is not None:
            self.env["_done%d" % k] = self.env["_done"]
        self.drop_inv()
        n0 = getattr(self, "loop_n", None)
        steps = c.steps.get(k, ())
        head, item = self.snapshot_state(), self.env.get(s.target.id) if coll is not None and isinstance(s.target, ast.Name) else None
        if coll is not None and isinstance(s.target, ast.Tuple) and all(isinstance(n, ast.Name) for n in s.target.elts):
            item = Tup([self.env[n.id] for n in s.target.elts])
        if item is not None and steps:
            self.items.append(item)
            self.lastres = None
        try:
            self.block(s.body)
        except ContEx:
            pass
        except BreakEx:
            return
        self.loop_n = n0
        self.unpoisoned("at the end of the loop's body")
        if steps:
            env = dict(self.cenv)
            env.update(self.env)
            if item is not None:
                env["_it"] = item
            if self.lastres is not None:
                env["_res"] = self.lastres
            for x in steps:
                if self.lastres is None and any(isinstance(n, ast.Name) and n.id == "_res" for n in ast.walk(x)):
                    continue
                self.head_ctx = head
                self.check(self.in_spec(env, lambda: self.spec_truth(x), self.entry), "loop %d: each iteration: %s" % (k, src(x)))
        if coll is not None:
            self.inv_state(coll, D, ordered, "more", cur)
        for x in invs:
            self.check(self.inv_truth(x), "loop %d: invariant is preserved: %s" % (k, src(x)))
        for key in frames:
            self.check(self.loop_frame(key, frames[key]), "loop %d: %s is still not changed outside its modifies clause" % (k, key))
        raise Dead()

    def loop_frames(self, W):
        """The keys a loop changes whose changes the contract limits: the limit is an implicit invariant."""
        c, out = self.target, {}

        def go():
            for k, p, *_ in list(c.modifies) + list(c.updates):
                if k in W:
                    out.setdefault(k, []).append(self.lam_pred(p))
        self.in_spec(self.cenv, go, self.entry)
        return out

    def loop_frame(self, key, preds):
        r = self.bvar("r", Ref)
        new = self.sel(key, r)
        old = self.at_state(self.entry, lambda: self.sel(key, r))
        g = [OLD(r)] if self.allocated else []
        g.append(Or(*[cls_of(r) == self.cid(x) for x in self.key_classes(key)]))
        for p in preds:
            g.append(Not(self.at_state(self.entry, lambda: self.with_key(key, lambda: self.under([r], TRUE, lambda: p(r))))))
        return z3.ForAll([r], z3.Implies(And(*g), new == old))

    def loop_element(self, s, coll, D, ordered):
        ps = coll.parts
        for j, p in enumerate(ps):
            if j < len(ps) - 1 and not self.choose():
                continue
            if ordered:
                sub = [(p.vars[0], self.loop_n)]
                self.assume(self.loop_n < coll.order[0])
            else:
                sub = [(v, self.const("it_" + str(v).split("?")[0], v.sort())) for v in p.vars]
                self.assume(z3.substitute(p.dom, *sub) if sub else p.dom)
                self.assume(Not(D[j](*[t for _, t in sub]) if sub else D[j]))
            self.elems.extend(t for _, t in sub)
            self.bind(s.target, coll.order[1](self.loop_n) if ordered else self.subst(p.val, sub))
            return j, [t for _, t in sub]

    def inv_state(self, coll, D, ordered, how, cur=None):
        """Binds _done (and _n) for the evaluation of invariants."""
        if coll is None:
            return
        parts = []
        for j, p in enumerate(coll.parts):
            if how == "all":
                d = p.dom
            elif how == "empty":
                d = FALSE
            elif ordered:
                n = self.loop_n + 1 if how == "more" else self.loop_n
                d = And(p.dom, p.vars[0] < n)
            else:
                d = And(p.dom, D[j](*p.vars) if p.vars else D[j])
                if how == "more" and cur[0] == j:
                    if self.by_value(coll):
                        v = self.subst(p.val, list(zip(p.vars, cur[1])))
                        d = Or(d, And(p.dom, self.under(p.vars, p.dom, lambda: self.eq(p.val, v))))
                    else:
                        d = Or(d, And(*[a == b for a, b in zip(p.vars, cur[1])]))
            parts.append(Part(p.vars, d, p.val))
        self.env["_all"] = coll
        self.env["_done"] = Coll("set" if coll.kind == "set" else "list", parts, coll.ety)
        if ordered:
            self.env["_n"] = Val(INT, {"all": coll.order[0], "empty": z3.IntVal(0)}.get(how) if how in ("all", "empty") else
                                 (self.loop_n + 1 if how == "more" else self.loop_n))

    def by_value(self, coll):
        """A set given as {f(x) | ...}: its iteration visits each value once."""
        return coll.kind == "set" and len(coll.parts) == 1 and coll.parts[0].vars and not (
            self.keyed_part(coll) or len(coll.parts[0].vars) == 1 and isinstance(coll.parts[0].val, Val) and coll.parts[0].val.t.eq(coll.parts[0].vars[0]))

    def closed_by_value(self, coll, D):
        p, q = self.fresh_part(coll.parts[0]), self.fresh_part(coll.parts[0])
        vs = list(p.vars) + list(q.vars)
        e = self.under(vs, And(p.dom, q.dom), lambda: self.eq(p.val, q.val))
        self.define(z3.ForAll(vs, z3.Implies(And(p.dom, q.dom, e, D[0](*p.vars)), D[0](*q.vars))))

    def drop_inv(self):
        self.env.pop("_done", None)
        self.env.pop("_all", None)
        self.env.pop("_n", None)

    def inv_truth(self, node):
        env = dict(self.cenv)
        env.update(self.env)
        return self.in_spec(env, lambda: self.spec_truth(node), self.entry)

    def loop_havoc(self, W, MC, names, alloc, fresh_only):
        pre = self.alloc
        if alloc:
            self.grow_alloc()
        for k in W:
            if k in fresh_only:
                self.havoc(k, lambda r: Not(pre(r)), "loop")
            else:
                self.havoc(k, None, "loop")
        if alloc:
            for k in W:
                self.closed(k)
        tys = self.target.types
        byid = {}
        for n, v in self.env.items():
            if isinstance(v, Cell):
                byid.setdefault(self.raw(v)[0].id if isinstance(self.raw(v)[0], Cell) else -1, n)
        for cid in MC:
            v = self.cells[cid]
            n = byid.get(cid)
            if n in tys:
                ty = tys[n]
            elif isinstance(v, Coll) and v.parts:
                ty = Ty("set" if v.kind == "set" else "list", (self.coll_ety(v),))
            elif isinstance(v, DictV) and v.kty is not None:
                ty = Ty("dict", (v.kty, v.vty))
            elif isinstance(v, Rec):
                ty = self.elem_ty(v)
            else:
                raise Unsupported("the type of the container %s changed by a loop is not in the contract" % (n or cid))
            self.cells[cid] = self.typed_const("loop_" + (n or "c"), ty)
            if alloc and ty.k == "set" and ty.a[0].k == "ref":
                x = self.bvar("x", Ref)
                self.define(z3.ForAll([x], z3.Implies(self.member(self.cells[cid], Val(ty.a[0], x)), self.alloc(x))))
        for n in names:
            v = self.env.get(n)
            if n in tys:
                ty = tys[n]
            elif isinstance(v, Val):
                ty = v.ty
            else:
                ty = None
            if n not in self.env:
                self.env[n] = Opaque("value of %s after or before an iteration" % n)
            elif ty is None:
                self.env[n] = Opaque("value of %s changed by a loop" % n)
            else:
                t = self.typed_const("loop_" + n, ty)
                self.env[n] = self.cell(t) if isinstance(t, (Coll, DictV)) else t

    def lazy_check(self, coll, W, MC):
        """A collection that is still being produced must not depend on what the loop changes."""
        if coll.kind == "list":
            return
        ids = {self.ha(k)[0].get_id() for k in W}
        for p in coll.parts:
            if self.mentions(p.dom, ids) or isinstance(p.val, Val) and self.mentions(p.val.t, ids):
                raise Unsupported("the loop changes what it iterates over")
        for c in MC:
            v = self.cells[c]
            if isinstance(v, Coll) and v is coll:
                raise Unsupported("the loop changes what it iterates over")

    def probe(self, s, coll, invs):
        """What the loop body may change."""
        tnames = set()
        if coll is not None:
            tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        names = sorted(assigned_names(s.body) - tnames)
        key = (id(s), self.ncell, len(self.cells), tuple(tuple(d[0][:d[1]]) for d in self.dec))
        if key in self.probes:
            return self.probes[key]
        keep = (dict(self.cnt), len(self.defs), self.ncell, set(self.facts), list(self.cards), list(self.sums), list(self.mins),
                list(self.canons), [list(f) for f in self.frames], self.quiet, list(self.totals), list(self.elems), list(self.sps), list(self.opaques), list(self.poison))
        snap = self.snapshot()
        self.quiet = 1
        W, MC, alloc, fresh_only = [], [], False, set()
        try:
            for attempt in range(6):
                self.restore(snap)
                self.loop_havoc(W, MC, names, alloc, fresh_only)
                base = self.snapshot()

                def body():
                    if coll is not None:
                        ordered = False
                        D = [z3.Function("pd%d" % j, *[v.sort() for v in p.vars], z3.BoolSort()) if p.vars else FALSE
                             for j, p in enumerate(coll.parts)]
                        self.inv_state(coll, D, False, "some")
                        self.env["_done%d" % self.loop_index(s)] = self.env["_done"]
                        self.drop_inv()
                        self.loop_element(s, coll, D, ordered)
                    else:
                        self.assume(self.cond(s.test))
                    self.block(s.body)
                outs = self.nested(body, (), TRUE, 400)
                nw, nc, na, bad = set(), set(), False, set()
                for pc, o, st in outs:
                    news = st[3][len(base[3]):]
                    na = na or len(news) > 0 or st[8] and not base[8] or st[7] is not base[7]
                    for e in st[5][len(base[5]):]:
                        nw.add(e[0])
                        d = z3.Const("probe?r", Ref)
                        cd = simp(e[1](d))
                        if not (z3.is_eq(cd) and any(x.eq(cd.arg(0)) or x.eq(cd.arg(1)) for x in news)):
                            bad.add(e[0])
                    for c, v in base[2].items():
                        if c <= keep[2] and st[2].get(c) is not v:
                            nc.add(c)
                fo = {k for k in nw if k not in bad}
                nW, nM = sorted(set(W) | nw), sorted(set(MC) | nc)
                if nW == W and nM == MC and na == alloc and fo == fresh_only:
                    break
                W, MC, alloc, fresh_only = nW, nM, alloc or na, fo
            else:
                raise Unsupported("loop effects do not stabilise")
        finally:
            self.restore(snap)
            self.cnt, self.ncell, self.facts, self.cards, self.sums, self.mins, self.canons = (
                keep[0], keep[2], keep[3], keep[4], keep[5], keep[6], keep[7])
            del self.defs[keep[1]:]
            self.frames, self.quiet, self.totals, self.elems, self.sps, self.opaques, self.poison = keep[8:15]
        self.probes[key] = (W, MC, names, alloc, fresh_only)
        return self.probes[key]


def has_quant(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def src(n):
    return ast.unparse(n)[:160]
