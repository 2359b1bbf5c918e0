"""Verifies one function against its contract."""
import ast
import time
import traceback

import z3

from ex import Engine, src
from prog import assigned_names
from sym import BreakEx, ContEx, Dead, FALSE, OLD, Ob, PyRaise, RetEx, TRUE, Unsupported, is_exc
from vals import (And, Cell, ClsV, Coll, DictV, FieldLoc, Graph, NONE, Not, Or, Rec, Ref, Tup, V, Val, cls_of, ref, simp, sort_of)


class Verifier(Engine):
    def param(self, name, ty):
        if ty.k == "ref" and ty.a and ty.a[0].startswith("class_"):
            return ClsV(ty.a[0][6:])
        v = self.typed_const("p_" + name, ty)
        if ty.k == "ref":
            self.define(OLD(v.t))
        if isinstance(v, (Coll, DictV)):
            if isinstance(v, Coll) and v.kind == "set" and ty.a[0].k == "ref":
                x = self.bvar("x", Ref)
                self.define(z3.ForAll([x], z3.Implies(self.member(v, Val(ty.a[0], x)), OLD(x))))
            return self.cell(v)
        return v

    def verify(self, c):
        fn = self.prog.function(c.qual)
        self.target, self.target_fn = c, fn
        if fn is None:
            self.obs.append(Ob("function exists", "unknown", 0, "no function %s in the source" % c.qual))
            return
        self.no_contract = {c.qual} | set(c.inline)
        if c.timeout:
            self.timeout = c.timeout
        self.reached = 0
        self.pathno = 0
        self.guarded(lambda: self.explore(lambda: self.path(c, fn), c.maxpaths))
        self.settle_calls()
        if not self.reached and all(o.status == "discharged" for o in self.obs):
            self.obs.append(Ob("some path is reachable", "unknown", 0, "no path"))

    def guarded(self, go):
        try:
            go()
        except Unsupported as e:
            self.obs.append(Ob("within the supported subset", "unknown", 0, "unsupported: %s" % e))
        except RecursionError:
            self.obs.append(Ob("within the supported subset", "unknown", 0, "recursion"))
        except PyRaise as e:
            self.obs.append(Ob("contract is well formed", "unknown", 0, "exception %s %s in a contract" % (e.exc, e.where)))
        except z3.Z3Exception as e:
            self.obs.append(Ob("within the supported subset", "unknown", 0, "z3: %s" % e))

    def path(self, c, fn):
        self.base_depth = 0
        env = {}
        for p, ty in c.params.items():
            env[p] = self.param(p, ty)
        missing = [p for p in fn.params if p not in env]
        for p in missing:
            if p in fn.defaults:
                env[p] = self.ev(fn.defaults[p])
            else:
                raise Unsupported("parameter %s is not in the contract" % p)
        self.old_heap = {}
        cenv = dict(env)

        def pre():
            self.lets(c, cenv)
            self.env = dict(cenv)
            for x in c.requires:
                self.define(self.spec_truth(x))
            self.mays = [(names, self.spec_truth(x)) for names, x in c.mays]
            return [(names, self.spec_truth(x), src(x)) for names, x in c.raises]
        raises = self.in_spec(cenv, pre)
        old = self.snapshot_state()
        self.cenv, self.entry = cenv, old
        if self.pathno == 0:
            self.vacuity()
            for p, want in c.defaults.items():
                got = fn.defaults.get(p)
                ok = isinstance(got, ast.Constant) and type(got.value) is type(ast.literal_eval(want)) and got.value == ast.literal_eval(want)
                self.obs.append(Ob("default of %s is %s" % (p, src(want)), "discharged" if ok else "refuted" if isinstance(got, ast.Constant) or got is None else "unknown", 0,
                                   "" if ok else "default is %s" % (None if got is None else src(got))))
        if c.allocates:
            self.start_alloc()
        self.pathno += 1
        pn = "path %s%d: " % (self.pathbase, self.pathno)
        self.env = dict(env)
        self.env = {k: v for k, v in self.env.items() if k in fn.params}
        self.locals_now = assigned_names(fn.body) | set(fn.params)
        self.cur_cls = fn.cls
        if fn.name == "__init__":
            self.deferred, self.self_ref = [], env["self"].t
        exc = None
        res = Val(NONE, V.none)
        try:
            self.block(fn.body)
        except RetEx as e:
            res = e.v
        except PyRaise as e:
            exc = e
        self.reached += 1
        self.unpoisoned("at the end")
        if exc is not None:
            ok = [f for names, f, t in raises if any(is_exc(exc.exc, n) for n in names)]
            ok += [f for names, f in self.mays if any(is_exc(exc.exc, n) for n in names)]
            self.check(Or(*ok), pn + "%s is raised only when the contract says so%s" % (exc.exc, " (" + exc.where + ")" if exc.where else ""))
            ups = c.on_raise
            for x in c.raise_ensures:
                f = self.in_spec(cenv, lambda: self.spec_truth(x), old)
                self.check(f, pn + "on an exception: " + src(x))
            if any(k == "*" for k, p, v in ups):
                return
        else:
            for names, f, t in raises:
                self.check(Not(f), pn + "raises %s when %s" % ("/".join(names), t))
            for f, k in self.deferred or []:
                self.check(f, pn + "type: " + k)
            self.deferred = None
            ups = c.updates
            if c.returns:
                want = self.in_spec(cenv, lambda: self.at_state(old, lambda: self.freeze(self.ev(c.returns[0]), 0)), old)
                self.same_result(res, want, pn + "returns " + src(c.returns[0]))
            elif c.result is not None:
                res = self.coerce(res, c.result, pn + "result") if not isinstance(res, (Cell, Tup)) else res
            e2 = dict(cenv)
            e2["result"] = res
            for x in c.ensures:
                f = self.in_spec(e2, lambda: self.spec_truth(x), old)
                self.check(f, pn + "ensures " + src(x))
        self.frame(c, cenv, old, ups, exc is not None, pn)

    def frame(self, c, cenv, old, ups, raised, pn):
        touched = []
        for e in self.log:
            if e[0] not in touched:
                touched.append(e[0])
        want = {}
        if ups:
            def go():
                for k, p, v in ups:
                    want.setdefault(k, []).append((self.lam_pred(p), self.lam_val(v, k)))
            self.in_spec(cenv, go, old)
        mods = {}
        if (c.raise_modifies if raised else c.modifies):
            def go2():
                for k, p in (c.raise_modifies if raised else c.modifies):
                    mods.setdefault(k, []).append(self.lam_pred(p))
            self.in_spec(cenv, go2, old)
        for k in sorted(set(touched) | set(want)):
            r = self.const("loc", Ref)
            new = self.sel(k, r)
            exp = self.at_state(old, lambda: self.sel(k, r))

            def build():
                e = exp
                for p, v in want.get(k, []):
                    e = z3.If(self.with_key(k, lambda: p(r)), self.with_key(k, lambda: v(r)), e)
                return e
            e = self.at_state(old, build)
            g = [OLD(r)] if self.allocated else []
            kc = self.key_classes(k)
            g.append(Or(*[cls_of(r) == self.cid(x) for x in kc]))
            for m in mods.get(k, []):
                g.append(Not(self.at_state(old, lambda: self.with_key(k, lambda: m(r)))))
            self.check(z3.Implies(And(*g), new == e), pn + ("changes to %s are exactly those the contract lists" % k
                                                           if k in want else "%s is not changed%s" % (k, " outside its modifies clause" if k in mods else "")))

    def same_result(self, res, want, name):
        a, b = self.force(res), self.force(want)
        if isinstance(a, Graph) and isinstance(b, Graph):
            return self.same_graph(a, b, name)
        if isinstance(a, Coll) and isinstance(b, Coll):
            if a.kind == "set" or b.kind == "set":
                if (a.kind == "set") != (b.kind == "set"):
                    self.check(FALSE, name + " (kind)")
                    return
                self.check(self.set_eq(a, b), name)
                return
            if a.conc is not None and b.conc is not None:
                if len(a.conc) != len(b.conc):
                    self.check(FALSE, name + " (length)")
                    return
                for x, y in zip(a.conc, b.conc):
                    self.same_result(x, y, name)
                return
            self.check(self.set_eq(a, b), name + " (same elements)")
            self.check(self.distinct(a), name + " (each once)")
            return
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for x, y in zip(a.items, b.items):
                self.same_result(x, y, name)
            return
        if isinstance(a, Rec) and isinstance(b, Rec) and set(a.f) == set(b.f):
            for k in a.f:
                self.same_result(a.f[k], b.f[k], name + " [%s]" % k)
            return
        self.check(simp(self.eq(a, b)), name)

    def set_eq(self, a, b):
        fs = []
        for x, y in ((a, b), (b, a)):
            for p in x.parts:
                p = self.fresh_part(p)
                m = self.under(p.vars, p.dom, lambda: self.member(y, p.val))
                f = z3.Implies(p.dom, m)
                fs.append(z3.ForAll(list(p.vars), f) if p.vars else f)
        return And(*fs)

    def vacuity(self):
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*self.axioms, *self.strax(), *self.defs, *self.pc())
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.obs.append(Ob("the precondition is not contradictory", "discharged" if r != z3.unsat else "unknown", time.time() - t,
                           "contradictory" if r == z3.unsat else ""))
