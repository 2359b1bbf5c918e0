"""Symbolic executor and verification-condition generator for the Python of
pyNTM.  Paths are explored by replaying decisions; every collection is a
set-builder over bound variables, so loops over sets and comprehensions are
handled for all sizes; calls use the callee's contract, or its body when it has
none."""
import ast
import collections
import itertools
import re
import shutil
import subprocess
import time

import z3

from par import finish_calls, fork_call
from prog import assigned_names, mutated_names
from vals import (Obj, ANY, And, BOOL, Builtin, Cell, ClsV, Coll, DictV, Exists, FieldLoc, FnV, ForAll, Graph, INT, Lam, Meth,
                  ModV, NONE, Not, Opaque, Or, Part, REAL, Rec, Ref, STR, Str, SubLoc, Tup, Ty, V, Val, at_fn, cls_of,
                  dict_fns, fld_fn, olen, ref, simp, sort_of)

OLD = z3.Function("existed", Ref, z3.BoolSort())
NORM = z3.Function("norm", V, V)     # 1, 1.0 and True are equal
EMPTY = z3.Function("emptydict", Obj, z3.BoolSort())     # the objects {} stands for where a record belongs
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
EXC_PARENTS = {"ModelException": ["Exception"], "ValueError": ["Exception"], "KeyError": ["LookupError", "Exception"],
               "IndexError": ["LookupError", "Exception"], "TypeError": ["Exception"], "AttributeError": ["Exception"],
               "UnboundLocalError": ["NameError", "Exception"], "ZeroDivisionError": ["ArithmeticError", "Exception"],
               "NetworkXNoPath": ["NetworkXUnfeasible", "NetworkXException", "Exception"],
               "NodeNotFound": ["NetworkXException", "Exception"]}


SYM = re.compile(r"\|[^|]*\||[A-Za-z_][A-Za-z0-9_!?.:$%&^~+*/<>=@-]*")
KEYWORDS = set("and or not ite let exists forall select store true false Int Real Bool Array _ is distinct to_real to_int mod div if".split())


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc, where=""):
        self.exc, self.where = exc, where


class Dead(Exception):
    """The path is infeasible or finished."""


class RetEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContEx(Exception):
    pass


class Ob:
    def __init__(self, name, status, secs, reason=""):
        self.name, self.status, self.secs, self.reason = name, status, secs, reason
        self.kind = ""


def cvc5_unsat(solver, ms, *opts):
    if not shutil.which("cvc5"):
        return False
    text = "(set-logic ALL)\n" + solver.to_smt2()
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--full-saturate-quant", "--tlimit=%d" % ms, *opts, "-"], input=text,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=ms / 1000 + 5)
    except subprocess.TimeoutExpired:
        return False
    return r.stdout.strip().splitlines()[-1:] == ["unsat"]


def is_exc(e, t):
    return e == t or t in ("Exception", "BaseException") or t in EXC_PARENTS.get(e, ())


class Exec:
    def __init__(self, prog, lib, timeout=10000, branch_timeout=60):
        self.prog, self.lib = prog, lib
        self.timeout, self.btimeout = timeout, branch_timeout
        self.obs = []
        self.solver_s = 0.0
        self.used = set()
        self.assumptions = set()
        self.strs = {}
        self.tuples = set()
        o = z3.Const("o?len", Obj)
        self.axioms = [z3.ForAll([o], olen(o) >= 0, patterns=[olen(o)])]
        self.inline_depth = 0
        self.normed = False
        self.akeys, self.akeyn = {}, {}
        self.backends = set()
        self.hits = {}
        self.symcache = {}
        self.calls, self.subs = [], []
        self.pathbase = ""

    # ------------------------------------------------------------ exploration
    def reset(self):
        self.frames = [[]]
        self.defs = []
        self.dec = []
        self.bound = []
        self.cnt = {}
        self.env, self.heap, self.cells = {}, {}, {}
        self.old_heap = None
        self.spec = 0
        self.ncell = 0
        self.news = []
        self.aggs = []
        self.log = []
        self.poison = []
        self.deferred = None
        self.cell_floor = 0
        self.cur_contract = None
        self.ghost = {}
        self.alloc = OLD
        self.allocated = False
        self.new_base = OLD
        self.quiet = 0

    def explore(self, fn, maxpaths=400, work=None):
        """Runs fn once per path; hands pending paths to other processes while tokens are free."""
        work = [[]] if work is None else work
        outs = []
        while work:
            while len(work) > 1:
                nm = "%s%d." % (self.pathbase, len(self.subs) + 1)
                c = fork_call(lambda: self.explore_sub(fn, maxpaths, work[0], nm))
                if c is None:
                    break
                self.subs.append(c)
                work.pop(0)
            pre = work.pop()
            self.reset()
            self.dec = [[pre, 0, work]]
            try:
                outs.append(fn())
            except Dead:
                pass
            if len(outs) > maxpaths:
                raise Unsupported("more than %d paths" % maxpaths)
        return outs

    def explore_sub(self, fn, maxpaths, pre, nm):
        """Explores the paths below one prefix, in a process of its own."""
        self.obs, self.calls, self.subs, self.solver_s, self.pathbase, self.reached = [], [], [], 0.0, nm, 0
        self.guarded(lambda: self.explore(fn, maxpaths, [pre]))
        self.settle_calls()
        return {"obs": [(o.name, o.status, o.secs, o.reason, o.kind) for o in self.obs], "solver_s": self.solver_s,
                "used": self.used, "inlined": self.inlined, "backends": self.backends, "assumptions": self.assumptions,
                "reached": self.reached}

    def pc(self):
        return [f for fr in self.frames for f in fr]

    def fresh_path(self):
        """True when the current path is past its replayed prefix."""
        return all(d[1] >= len(d[0]) for d in self.dec)

    def _solver(self, ms):
        s = z3.Solver()
        s.set("timeout", ms)
        return s

    def feasible(self, f):
        s = self._solver(self.btimeout)
        s.set("smt.mbqi", False)
        s.set("smt.qi.eager_threshold", 1.5)
        s.set("smt.qi.lazy_threshold", 1.5)
        s.set("smt.auto_config", False)
        t = time.time()
        s.add(*self.axioms, *self.strax(), *self.defs, *self.pc(), f)
        r = s.check()
        self.solver_s += time.time() - t
        return r != z3.unsat

    def branch(self, cond):
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        d = self.dec[-1]
        if d[1] < len(d[0]):
            v = d[0][d[1]]
        else:
            ft, ff = self.feasible(cond), self.feasible(Not(cond))
            if not ft and not ff:
                raise Dead()
            v = ft
            if ft and ff:
                d[2].append(d[0][:d[1]] + [False])
            d[0] = d[0][:d[1]] + [v]
        d[1] += 1
        self.frames[-1].append(cond if v else simp(Not(cond)))
        return v

    def choose(self):
        """A nondeterministic choice."""
        return self.branch(self.const("choice", z3.BoolSort()))

    def assume(self, f):
        self.frames[-1].append(f)

    def define(self, f):
        """A fact that holds for every value of the open bound variables
        (under the open guards)."""
        if z3.is_true(f):
            return
        if self.bound:
            g = [x for fr in self.frames[1:] for x in fr]
            f = z3.ForAll(list(self.bound), z3.Implies(And(*g), f) if g else f)
        self.defs.append(f)

    def define_always(self, f):
        """A fact that holds for every value of the open bound variables, whatever the guards."""
        self.defs.append(z3.ForAll(list(self.bound), f) if self.bound else f)

    def const(self, name, sort):
        n = self.cnt.get(name, 0)
        self.cnt[name] = n + 1
        nm = "%s!%d" % (name, n)
        if self.bound and name != "choice":
            return z3.Function(nm, *[b.sort() for b in self.bound], sort)(*self.bound)
        return z3.Const(nm, sort)

    def bvar(self, name, sort):
        n = self.cnt.get(name, 0)
        self.cnt[name] = n + 1
        return z3.Const("%s?%d" % (name, n), sort)

    def snapshot(self):
        return (dict(self.env), dict(self.heap), dict(self.cells), list(self.news), self.inline_depth, list(self.log),
                self.spec, self.alloc, self.allocated)

    def restore(self, s):
        self.env, self.heap, self.cells, self.news = dict(s[0]), dict(s[1]), dict(s[2]), list(s[3])
        self.inline_depth, self.log, self.spec = s[4], list(s[5]), s[6]
        self.alloc, self.allocated = s[7], s[8]

    def nested(self, fn, bound=(), guard=None, maxpaths=200):
        """Explores fn for arbitrary values of the bound variables; returns
        [(path condition, ('val', v) | ('exc', e) | ('brk'|'ret'|'cont', v), state)]."""
        outs, work = [], [[]]
        base = self.snapshot()
        nb = len(self.bound)
        self.bound.extend(bound)
        try:
            while work:
                pre = work.pop()
                self.restore(base)
                g = [] if guard is None or z3.is_true(guard) else [guard]
                self.frames.append(list(g))
                self.dec.append([pre, 0, work])
                out = None
                try:
                    out = ("val", fn())
                except PyRaise as e:
                    out = ("exc", e)
                except RetEx as e:
                    out = ("ret", e.v)
                except BreakEx:
                    out = ("brk", None)
                except ContEx:
                    out = ("cont", None)
                except Dead:
                    pass
                finally:
                    fr = self.frames.pop()
                    self.dec.pop()
                if out is not None:
                    outs.append((And(*fr[len(g):]), out, self.snapshot()))
                if len(outs) > maxpaths:
                    raise Unsupported("too many paths")
        finally:
            del self.bound[nb:]
        self.restore(base)
        return outs

    # ------------------------------------------------------------ obligations
    def strax(self):
        if len(self.strs) > 1:
            return [z3.Distinct(*self.strs.values())]
        return []

    def akey(self, t):
        """Key of a term up to the names of bound variables."""
        i = t.get_id()
        if i in self.akeys:
            return self.akeys[i][1]
        st = [(t, False)]
        while st:
            x, ready = st.pop()
            j = x.get_id()
            if j in self.akeys:
                continue
            kids = [x.body()] if z3.is_quantifier(x) else x.children()
            if not ready:
                st.append((x, True))
                st.extend((y, False) for y in kids)
                continue
            ks = tuple(self.akeys[y.get_id()][1] for y in kids)
            if z3.is_quantifier(x):
                raw = ("q", x.is_forall(), x.is_lambda(), tuple(x.var_sort(n).get_id() for n in range(x.num_vars())), ks)
            elif z3.is_var(x):
                raw = ("v", z3.get_var_index(x), x.sort().get_id())
            elif not kids:
                raw = ("c", j)
            else:
                raw = ("a", x.decl().get_id(), ks)
            self.akeys[j] = (x, self.akeyn.setdefault(raw, len(self.akeyn)))
        return self.akeys[i][1]

    def conjuncts(self, f):
        out, st = [], [f]
        while st:
            x = st.pop()
            if z3.is_and(x):
                st.extend(reversed(x.children()))
            else:
                out.append(x)
        return out

    def split_goal(self, f, extra=()):
        """A goal as a list of (hypotheses, goal) that together imply it."""
        if z3.is_and(f):
            return [y for x in f.children() for y in self.split_goal(x, extra)]
        if z3.is_not(f):
            g = f.arg(0)
            if z3.is_or(g):
                return [y for x in g.children() for y in self.split_goal(z3.Not(x), extra)]
            if z3.is_not(g):
                return self.split_goal(g.arg(0), extra)
            if z3.is_quantifier(g) and g.is_exists():
                return self.split_goal(z3.Not(self.open_q(g)), extra)
            if z3.is_implies(g):
                return self.split_goal(g.arg(0), extra) + self.split_goal(z3.Not(g.arg(1)), extra)
            return [(list(extra), f)]
        if z3.is_quantifier(f) and f.is_forall():
            return self.split_goal(self.open_q(f), extra)
        if z3.is_implies(f):
            return self.split_goal(f.arg(1), tuple(extra) + (f.arg(0),))
        if z3.is_or(f):
            ks = f.children()
            for j, x in enumerate(ks):
                if self.splittable(x):
                    return self.split_goal(x, tuple(extra) + tuple(z3.Not(y) for i, y in enumerate(ks) if i != j))
        if z3.is_app_of(f, z3.Z3_OP_ITE) and z3.is_bool(f):
            return self.split_goal(f.arg(1), tuple(extra) + (f.arg(0),)) + self.split_goal(f.arg(2), tuple(extra) + (z3.Not(f.arg(0)),))
        if z3.is_eq(f) and z3.is_bool(f.arg(0)) and (self.compound(f.arg(0)) or self.compound(f.arg(1))):
            a, b = f.children()
            return self.split_goal(b, tuple(extra) + (a,)) + self.split_goal(a, tuple(extra) + (b,))
        if z3.is_eq(f) and len(extra) < 8:
            for j in (0, 1):
                x, y = f.arg(j), f.arg(1 - j)
                if z3.is_app_of(x, z3.Z3_OP_ITE) and self.compound(x.arg(0)):
                    return self.split_goal(simp(x.arg(1) == y), tuple(extra) + (x.arg(0),)) + self.split_goal(simp(x.arg(2) == y), tuple(extra) + (z3.Not(x.arg(0)),))
        return [(list(extra), f)]

    def splittable(self, x):
        if z3.is_and(x) or z3.is_quantifier(x) and x.is_forall() or z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_bool(x):
            return True
        if z3.is_not(x) and not z3.is_app_of(x.arg(0), z3.Z3_OP_UNINTERPRETED):
            return z3.is_or(x.arg(0)) or z3.is_quantifier(x.arg(0)) and x.arg(0).is_exists()
        if z3.is_eq(x):
            return any(z3.is_app_of(y, z3.Z3_OP_ITE) and self.compound(y.arg(0)) or z3.is_bool(y) and self.compound(y) for y in x.children())
        return False

    def compound(self, f):
        return z3.is_quantifier(f) or z3.is_and(f) or z3.is_or(f)

    def open_q(self, q):
        vs = [z3.FreshConst(q.var_sort(i), "sk") for i in range(q.num_vars())]
        return z3.substitute_vars(q.body(), *reversed(vs))

    def prove(self, f, may_fork=False):
        """(status, seconds, reason); None when another process proves it (see the calls list)."""
        goal = simp(f)
        if z3.is_true(goal):
            return "unsat", 0.0, ""
        t = time.time()
        hyps = self.axioms + self.strax() + self.defs + self.pc() + self.agg_lemmas()
        known, keep = set(), []
        for h in hyps:
            k = self.akey(h)
            if z3.is_quantifier(h) and h.num_patterns():
                k = (k,) + tuple(self.akey(h.pattern(i)) for i in range(h.num_patterns()))
            if k in known:
                continue
            known.add(k)
            keep.append(h)
            for x in self.conjuncts(h):
                known.add(self.akey(x))
                if z3.is_quantifier(x) or z3.is_and(x):
                    known.add(self.akey(simp(x)))
        hyps = keep
        todo = [x for x in self.conjuncts(goal) if self.akey(x) not in known]
        if not todo:
            return "unsat", time.time() - t, ""
        if may_fork:
            for h in hyps:
                self.symbols(h)
            c = fork_call(lambda: self.prove_from(hyps, goal, todo, t) + (sorted(self.backends), self.hits))
            if c is not None:
                self.calls.append((c, len(self.obs)))
                return None
        return self.prove_from(hyps, goal, todo, t)

    def witnesses(self, todo):
        """Instances of an existential goal with the objects allocated on this path."""
        if len(todo) != 1 or not self.news or not (z3.is_quantifier(todo[0]) and todo[0].is_exists()):
            return []
        q = todo[0]
        n = q.num_vars()
        if n > len(self.news) or any(q.var_sort(i) != Ref for i in range(n)):
            return []
        out = []
        for vs in itertools.islice(itertools.permutations(self.news, n), 6):
            out.append(self.conjuncts(simp(z3.substitute_vars(q.body(), *reversed(vs)))))
        return out

    def closed_if(self, f):
        """The condition of an if-then-else on list positions in f, if it is closed."""
        st, seen = [f], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    c = x.arg(0)
                    if z3.is_eq(c) and c.arg(0).sort() == z3.IntSort() and "(:var " not in c.sexpr():
                        return c
                st.extend(x.children())
        return None

    def attempt_cases(self, hyps, goal):
        c = self.closed_if(goal)
        if c is None:
            return self.attempt(hyps, goal, self.timeout)
        st, reason = self.attempt(hyps, goal, self.timeout * 0.3, False)
        if st == "unknown":
            for h, v in ((c, z3.BoolVal(True)), (z3.Not(c), z3.BoolVal(False))):
                h = simp(h)
                g = simp(z3.substitute(goal, (c, v)))
                if z3.is_true(v) and z3.is_eq(h):
                    for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name().startswith("sk"):
                            g = simp(z3.substitute(g, (a, b)))
                            break
                st, reason = self.attempt(hyps + [h], g, self.timeout)
                if st != "unsat":
                    return st, reason
        return st, reason

    def prove_from(self, hyps, goal, todo, t):
        for w in self.witnesses(todo):
            st, dt, reason = self.prove_from(hyps, And(*w), w, t)
            if st == "unsat":
                return st, dt, reason
        parts = [y for x in todo for y in self.split_goal(x)]
        if len(parts) == 1:
            st, reason = self.attempt(hyps + parts[0][0], parts[0][1], self.timeout)
        else:
            st, reason = self.attempt(hyps, And(*todo), self.timeout, False)
        last = self.pc()[-1:]
        if st == "unknown" and len(parts) == 1 and last and z3.is_or(last[0]) and last[0].num_args() > 2:
            k = self.akey(last[0])
            rest = [h for h in hyps + parts[0][0] if self.akey(h) != k]
            for d in last[0].children():
                st, reason = self.attempt(rest + [d], parts[0][1], self.timeout)
                if st != "unsat":
                    break
        if st == "unknown" and len(parts) > 1:
            for extra, x in parts:
                st, reason = self.attempt_cases(hyps + extra, x)
                if st != "unsat":
                    break
                if not extra:
                    hyps = hyps + [x]
        dt = time.time() - t
        self.solver_s += dt
        self.last_query = (hyps, goal)
        return st, dt, reason

    def hit(self, cfg):
        self.hits[cfg] = self.hits.get(cfg, 0) + 1

    def symbols(self, f):
        k = f.get_id()
        if k not in self.symcache:
            self.symcache[k] = (f, frozenset(x for x in SYM.findall(f.sexpr()) if x not in KEYWORDS and "?" not in x))
        return self.symcache[k][1]

    def relevant(self, hyps, goal, depth=4, tol=2.0):
        """The hypotheses the goal's symbols lead to (by their rarest symbols)."""
        syms = [self.symbols(h) for h in hyps]
        freq = collections.Counter(x for ss in syms for x in ss)
        trig = collections.defaultdict(list)
        chosen = set()
        for i, ss in enumerate(syms):
            if not ss:
                chosen.add(i)
                continue
            m = min(freq[x] for x in ss)
            for x in ss:
                if freq[x] <= tol * m:
                    trig[x].append(i)
        seen, new = set(), set(self.symbols(goal))
        for _ in range(depth):
            add = {i for x in new for i in trig.get(x, ())} - chosen
            seen |= new
            chosen |= add
            new = {x for i in add for x in syms[i]} - seen
            if not new:
                break
        return [hyps[i] for i in sorted(chosen)]

    def rounding(self, f):
        """Does the formula speak of rounded (nonlinear) numbers?"""
        return any(x.startswith("round") for x in self.symbols(f))

    def opaque_def(self, f):
        return z3.is_quantifier(f) and f.num_vars() and f.var_name(0).startswith("op_")

    def attempt(self, hyps, goal, timeout, full=True):
        st, reason = "unknown", ""
        if len(hyps) > 25:
            for depth, ms in ((2, 150), (4, 300)):
                few = self.relevant(hyps, goal, depth)
                if len(few) < 0.8 * len(hyps):
                    s = z3.Solver()
                    s.add(*few, z3.Not(goal))
                    for k, v in {"smt.auto_config": False, "smt.mbqi": False, "smt.qi.eager_threshold": 2.0, "timeout": ms}.items():
                        s.set(k, v)
                    if s.check() == z3.unsat:
                        self.hit("few%d" % depth)
                        return "unsat", ""
        lazy = {"smt.auto_config": False, "smt.mbqi": False, "smt.qi.eager_threshold": 2.0}
        plain = [h for h in hyps if not self.rounding(h) and not self.opaque_def(h)]
        if len(plain) < len(hyps) and not self.rounding(goal):
            for cfg, ms in ((lazy, 500), ({}, 800)):
                s = z3.Solver()
                s.add(*plain, z3.Not(goal))
                for k, v in dict(cfg, timeout=ms).items():
                    s.set(k, v)
                if s.check() == z3.unsat:
                    self.hit("plain")
                    return "unsat", ""
        cfgs = [(0.02, lazy), (0.06, "cvc5"), (0.06, "cvc5 --no-e-matching"), (0.05, lazy), (0.06, {}), (0.1, dict(lazy, **{"smt.qi.eager_threshold": 3.5})),
                (0.1, "cvc5 --no-e-matching"), (0.22, "cvc5"), (0.12, {"smt.mbqi": False}), (0.17, {}), (0.14, {"smt.random_seed": 7, "smt.arith.solver": 2})]
        for share, cfg in cfgs if full else cfgs[:5]:
            ms = int(timeout * share)
            s = z3.Solver()
            s.add(*hyps, z3.Not(goal))
            if isinstance(cfg, str):
                if cvc5_unsat(s, ms, *cfg.split()[1:]):
                    self.backends.add("cvc5")
                    self.hit(cfg)
                    return "unsat", ""
                continue
            for k, v in dict(cfg, timeout=ms).items():
                s.set(k, v)
            r = s.check()
            if r == z3.unsat:
                self.hit(str(cfg))
                return "unsat", ""
            if r == z3.sat and "smt.mbqi" not in cfg:
                return "sat", "model: " + str(s.model())[:1500]
            reason = s.reason_unknown()
        return st, reason

    def check(self, f, name):
        if self.quiet or not self.fresh_path():
            self.define(f)
            return
        r = self.prove(f, True)
        self.obs.append(Ob(name, "unknown", 0, "still open"))
        self.obs[-1].kind = "solver"
        if r is not None:
            self.settle(self.obs[-1], *r)
        self.define(f)

    def settle(self, o, st, dt, reason):
        o.status = "discharged" if st == "unsat" else "refuted" if st == "sat" else "unknown"
        o.secs, o.reason = dt, reason

    def settle_calls(self):
        """Waits for the obligations other processes prove."""
        for (c, i), r in zip(self.calls, finish_calls([c for c, i in self.calls])):
            if r is None:
                self.obs[i].reason = "the verifier process died"
                continue
            self.settle(self.obs[i], *r[:3])
            self.solver_s += r[1]
            self.backends |= set(r[3])
        self.calls = []
        for r in finish_calls(self.subs):
            if r is None:
                self.obs.append(Ob("all paths are explored", "unknown", 0, "the verifier process died"))
                continue
            for n, st, secs, reason, kind in r["obs"]:
                self.obs.append(Ob(n, st, secs, reason))
                self.obs[-1].kind = kind
            self.solver_s += r["solver_s"]
            self.reached += r["reached"]
            for k in ("used", "inlined", "backends", "assumptions"):
                getattr(self, k).update(r[k])
        self.subs = []

    def use_norm(self):
        if not self.normed:
            self.normed = True
            t = z3.Const("t?norm", V)
            v = Val(ANY, t)
            self.axioms.append(z3.ForAll([t], NORM(t) == z3.If(self.isnum(v), V.r(self.num(v)), t), patterns=[NORM(t)]))

    # ------------------------------------------------------------ values
    def strlit(self, s):
        if s not in self.strs:
            self.strs[s] = z3.Const("str:" + s, Str)
        return self.strs[s]

    def lit(self, v):
        if isinstance(v, bool):
            return Val(BOOL, z3.BoolVal(v))
        if isinstance(v, int):
            return Val(INT, z3.IntVal(v))
        if isinstance(v, float):
            return Val(REAL, z3.RealVal(repr(v)))
        if isinstance(v, str):
            return Val(STR, self.strlit(v))
        if v is None:
            return Val(NONE, V.none)
        raise Unsupported("constant %r" % (v,))

    def cid(self, c):
        return self.lib.class_id(c)

    def tag(self, v):
        """Makes the class of a single-class reference known to the solver."""
        if v.ty.k == "ref" and len(v.ty.a) == 1:
            self.define(cls_of(v.t) == self.cid(v.ty.a[0]))

    def box(self, v):
        v = self.force(v)
        if isinstance(v, Val):
            k = v.ty.k
            if k in ("any", "none"):
                return v.t
            if k == "int":
                return V.i(v.t)
            if k == "real":
                return V.r(v.t)
            if k == "bool":
                return V.b(v.t)
            if k == "str":
                return V.s(v.t)
            if k == "ref":
                self.tag(v)
                return V.ref(v.t)
            return V.o(v.t)
        if isinstance(v, (Coll, Rec, Tup)):
            return V.o(self.intern(v))
        raise Unsupported("cannot box %s" % type(v).__name__)

    def num(self, v, want=None):
        """Numeric term of a value (obligation-free; caller has checked)."""
        k = v.ty.k
        if k == "int":
            return v.t if want != "real" else z3.ToReal(v.t)
        if k == "real":
            return v.t
        if k == "bool":
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0)) if want != "real" else z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
        if k == "any":
            t = v.t
            return z3.If(V.is_i(t), z3.ToReal(V.iv(t)), z3.If(V.is_r(t), V.rv(t),
                                                              z3.If(z3.And(V.is_b(t), V.bv(t)), z3.RealVal(1), z3.RealVal(0))))
        raise PyRaise("TypeError", "number expected")

    def isnum(self, v):
        k = v.ty.k if isinstance(v, Val) else ""
        if k in ("int", "real", "bool"):
            return TRUE
        if k == "any":
            return Or(V.is_i(v.t), V.is_r(v.t), V.is_b(v.t))
        return FALSE

    def tycheck(self, t, ty):
        """V-term t has type ty (shallow)."""
        k = ty.k
        if k == "any":
            return Or(*[self.tycheck(t, a) for a in ty.a]) if ty.a else TRUE
        if k == "int":
            return V.is_i(t)
        if k == "real":
            return Or(V.is_r(t), V.is_i(t))
        if k == "bool":
            return V.is_b(t)
        if k == "str":
            return V.is_s(t)
        if k == "none":
            return V.is_none(t)
        if k == "ref":
            return And(V.is_ref(t), Or(*[cls_of(V.refv(t)) == self.cid(c) for c in ty.a]))
        return V.is_o(t)

    def coerce(self, v, ty, what):
        """Value of type ty; an obligation when v's static type does not settle it."""
        v = self.force(v)
        if ty.k == "any":
            b = self.box(v)
            if ty.a and not (isinstance(v, Val) and v.ty == ty):
                c = simp(self.tycheck(b, ty))
                if not z3.is_true(c) and not self.spec:
                    self.check(c, "type: %s" % what)
            return Val(ty, b)
        if isinstance(v, Val):
            if v.ty.k == ty.k:
                if ty.k == "ref" and not set(v.ty.a) <= set(ty.a):
                    c = Or(*[cls_of(v.t) == self.cid(x) for x in ty.a])
                    if not self.spec:
                        self.check(c, "type: %s" % what)
                return Val(ty, v.t)
            if ty.k == "real" and v.ty.k in ("int", "bool"):
                return Val(ty, self.num(v, "real"))
            if v.ty.k == "any":
                if ty.k == "real":
                    c = self.isnum(v)
                elif ty.k == "int":
                    c = Or(V.is_i(v.t), V.is_b(v.t))
                else:
                    c = self.tycheck(v.t, ty)
                if not self.spec and not z3.is_true(simp(c)):
                    self.check(c, "type: %s" % what)
                return self.unbox(v, ty)
            if ty.k == "int" and v.ty.k == "bool":
                return Val(INT, self.num(v))
        if ty.k == "set":
            return self.as_set(v, ty)
        if ty.k in ("list", "rec", "tuple") and isinstance(v, (Coll, Rec, Tup)):
            if isinstance(v, Coll) and v.kind == "set":
                raise Unsupported("type: %s: %s expected" % (what, ty))
            return self.of_term(self.intern(v, ty), ty)
        if ty.k == "dict" and isinstance(v, DictV):
            return v
        if ty.k == "none" and isinstance(v, Val) and v.ty.k == "none":
            return v
        raise Unsupported("type: %s: expected %r, got %r" % (what, ty, getattr(v, "ty", type(v).__name__)))

    def unbox(self, v, ty):
        t = v.t
        k = ty.k
        if k == "real":
            return Val(REAL, self.num(v))
        if k == "int":
            return Val(INT, z3.If(V.is_b(t), z3.If(V.bv(t), z3.IntVal(1), z3.IntVal(0)), V.iv(t)))
        if k == "bool":
            return Val(BOOL, V.bv(t))
        if k == "str":
            return Val(STR, V.sv(t))
        if k == "ref":
            return Val(ty, V.refv(t))
        if k == "none":
            return Val(NONE, t)
        if k == "any":
            return Val(ty, t)
        return self.of_term(V.ov(t), ty)

    def of_term(self, t, ty):
        """Engine value of an SMT term of sort_of(ty)."""
        if ty.k == "set":
            x = self.bvar("x", sort_of(ty.a[0]))
            return Coll("set", [Part([x], z3.Select(t, x), Val(ty.a[0], x))], ty.a[0], arr=t)
        if ty.k == "list":
            i = self.bvar("i", z3.IntSort())
            f = at_fn(ty.a[0])
            return Coll("list", [Part([i], And(i >= 0, i < olen(t)), self.of_term(f(t, i), ty.a[0]))], ty.a[0],
                        order=(olen(t), lambda k, f=f, t=t, e=ty.a[0]: self.of_term(f(t, k), e)), obj=t)
        if ty.k == "dict":
            f, g = dict_fns(ty)
            d = DictV(ty.a[0], ty.a[1], lambda q: f(t, q), lambda q: self.of_term(g(t, q), ty.a[1]))
            d.obj = t
            return d
        if ty.k == "rec":
            if self.poison and not self.spec:
                self.exc_if(EMPTY(t), "KeyError")
            return Rec({n: self.of_term(fld_fn(n, e)(t), e) for n, e in ty.a})
        if ty.k == "tuple":
            return Tup([self.of_term(fld_fn("t%d" % n, e)(t), e) for n, e in enumerate(ty.a)])
        return Val(ty, t)

    def term(self, v, ty):
        """SMT term of sort_of(ty) for a value already of type ty."""
        v = self.force(v)
        if ty.k == "set":
            return self.as_set(v, ty).arr
        if ty.k in ("list", "rec", "tuple", "dict"):
            return self.intern(v, ty)
        if ty.k == "any":
            return self.box(v)
        if isinstance(v, Val):
            if v.ty.k != ty.k:
                v = self.coerce(v, ty, "value")
            return v.t
        raise Unsupported("term of %s as %r" % (type(v).__name__, ty))

    def elem_ty(self, v):
        v = self.force(v)
        if isinstance(v, Val):
            return v.ty
        if isinstance(v, Coll):
            return Ty("list" if v.kind != "set" else "set", (self.coll_ety(v),))
        if isinstance(v, Rec):
            return Ty("rec", tuple((n, self.elem_ty(x)) for n, x in v.f.items()))
        if isinstance(v, Tup):
            return Ty("tuple", tuple(self.elem_ty(x) for x in v.items))
        if isinstance(v, DictV) and v.obj is not None:
            return Ty("dict", (v.kty, v.vty))
        raise Unsupported("element type of %s" % type(v).__name__)

    def coll_ety(self, c):
        if c.ety is not None:
            return c.ety
        tys = [self.elem_ty(p.val) for p in c.parts]
        if not tys:
            return ANY
        t = tys[0]
        for u in tys[1:]:
            if u == t:
                continue
            if u.k == t.k == "ref":
                t = ref(*(set(u.a) | set(t.a)))
            elif {u.k, t.k} <= {"int", "real"}:
                t = REAL
            else:
                t = ANY
        return t

    def as_set(self, v, ty):
        """Coll with .arr, an SMT array."""
        v = self.force(v)
        if not isinstance(v, Coll):
            raise Unsupported("set expected")
        if v.kind == "set" and v.arr is not None:
            return v
        e = ty.a[0]
        a = self.const("set", sort_of(ty))
        y = self.bvar("y", sort_of(e))
        m = self.member(v, Val(e, y))
        if e.k == "any" and len(v.parts) == 1 and v.parts[0].vars and not self.bound:
            self.define(z3.ForAll([y], z3.Implies(z3.Select(a, y), m), patterns=[z3.Select(a, y)]))
            p = self.fresh_part(v.parts[0])
            t = self.under(p.vars, p.dom, lambda: self.term(self.coerce(p.val, e, "set element"), e))
            self.define(z3.ForAll(list(p.vars), z3.Implies(p.dom, z3.Select(a, t))))
            z = self.bvar("z", sort_of(e))
            self.define(z3.ForAll([y, z], z3.Implies(And(z3.Select(a, y), self.eq(Val(e, y), Val(e, z))), z3.Select(a, z)),
                                  patterns=[z3.MultiPattern(z3.Select(a, y), z3.Select(a, z))]))
        else:
            self.define(z3.ForAll([y], z3.Select(a, y) == m))
        return self.of_term(a, ty)

    def intern(self, v, ty=None):
        """Obj term of a structured value."""
        v = self.force(v)
        if isinstance(v, Coll) and v.obj is not None:
            return v.obj
        if isinstance(v, Val) and v.ty.k in ("list", "rec", "tuple"):
            return v.t
        if isinstance(v, Val) and v.ty.k == "any" and ty is not None:
            return V.ov(v.t)
        o = self.const("obj", sort_of(Ty("list", (INT,))))
        if isinstance(v, Rec):
            self.define(Not(EMPTY(o)))
            if ty is not None and ty.k == "any":
                ty = next((a for a in ty.a if a.k == "rec"), None)
            for n, x in v.f.items():
                e = dict(ty.a)[n] if ty is not None and ty.k == "rec" else self.elem_ty(x)
                self.define(fld_fn(n, e)(o) == self.term(x, e))
            return o
        if isinstance(v, DictV):
            if v.obj is not None:
                return v.obj
            if self.bound or ty is None or ty.k != "dict":
                raise Unsupported("dict stored as a value")
            f, g = dict_fns(ty)
            q = self.bvar("q", sort_of(ty.a[0]))
            self.define(z3.ForAll([q], f(o, q) == v.dom(q), patterns=[f(o, q)]))
            if v.kty is not None:
                self.bound.append(q)
                self.frames.append([v.dom(q)])
                try:
                    t = self.term(v.get(q), ty.a[1])
                finally:
                    self.frames.pop()
                    self.bound.pop()
                self.define(z3.ForAll([q], z3.Implies(v.dom(q), g(o, q) == t), patterns=[g(o, q)]))
            return o
        if isinstance(v, Tup):
            for n, x in enumerate(v.items):
                e = ty.a[n] if ty is not None and ty.k == "tuple" else self.elem_ty(x)
                self.define(fld_fn("t%d" % n, e)(o) == self.term(x, e))
            return o
        if not isinstance(v, Coll):
            raise Unsupported("intern %s" % type(v).__name__)
        e = ty.a[0] if ty is not None and ty.k == "list" else self.coll_ety(v)
        f = at_fn(e)
        ord_ = self.ordering(v)
        n, at = ord_
        self.define(olen(o) == n)
        i = self.bvar("i", z3.IntSort())
        if v.conc is not None:
            for k, x in enumerate(v.conc):
                self.define(f(o, z3.IntVal(k)) == self.term(x, e))
        else:
            self.bound.append(i)
            try:
                self.frames.append([And(i >= 0, i < n)])
                self.define(f(o, i) == self.term(at(i), e))
            finally:
                self.frames.pop()
                self.bound.pop()
        return o

    def ordering(self, c):
        """(length, index -> value) of a list."""
        if c.order is not None:
            return c.order
        if c.conc is not None:
            cc = c.conc

            def at(k, cc=cc):
                r = cc[-1] if cc else None
                if r is None:
                    raise Unsupported("index of empty list")
                for j in range(len(cc) - 2, -1, -1):
                    r = self.ite(k == j, cc[j], r)
                return r
            c.order = (z3.IntVal(len(cc)), at)
            return c.order
        # concatenation of ordered pieces
        if len(c.parts) > 1:
            ps = [self.ordering(Coll("list", [p], c.ety)) for p in c.parts]

            def at2(k, ps=ps):
                off = z3.IntVal(0)
                offs = []
                for n, f in ps:
                    offs.append(off)
                    off = off + n
                r = ps[-1][1](simp(k - offs[-1]))
                for j in range(len(ps) - 2, -1, -1):
                    r = self.ite(k < offs[j] + ps[j][0], ps[j][1](simp(k - offs[j])), r)
                return r
            tot = z3.IntVal(0)
            for n, f in ps:
                tot = tot + n
            c.order = (simp(tot), at2)
            return c.order
        p = c.parts[0]
        if not p.vars:
            n = z3.If(p.dom, z3.IntVal(1), z3.IntVal(0))
            c.order = (simp(n), lambda k: p.val)
            return c.order
        if len(p.vars) == 1 and p.vars[0].sort() == z3.IntSort():
            iv = p.vars[0]
            d = simp(p.dom)
            m = None
            if z3.is_and(d) and d.num_args() == 2:
                for x in d.children():
                    # i < n, printed by z3 as Not(n <= i)
                    if z3.is_not(x) and z3.is_le(x.arg(0)) and x.arg(0).arg(1).eq(iv):
                        m = x.arg(0).arg(0)
                lo = any(z3.is_ge(x) and x.arg(0).eq(iv) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() == 0
                         for x in d.children())
                if m is not None and lo:
                    c.order = (m, lambda k: self.subst(p.val, [(iv, k)]))
                    return c.order
        # enumeration of an unordered comprehension
        n = self.const("len", z3.IntSort())
        i = self.bvar("i", z3.IntSort())
        bs = list(self.bound)
        src = [z3.Function("src%d!%d" % (j, self._n("src")), *[b.sort() for b in bs], z3.IntSort(), v.sort())
               for j, v in enumerate(p.vars)]
        idx = z3.Function("idx!%d" % self._n("idx"), *[b.sort() for b in bs], *[v.sort() for v in p.vars], z3.IntSort())
        sv = [s(*bs, i) for s in src]
        sub = list(zip(p.vars, sv))
        self.define(n >= 0)
        self.define(z3.ForAll([i], z3.Implies(And(i >= 0, i < n),
                                              And(z3.substitute(p.dom, *sub), idx(*bs, *sv) == i)), patterns=[sv[0]]))
        self.define(z3.ForAll(list(p.vars), z3.Implies(
            p.dom, And(idx(*bs, *p.vars) >= 0, idx(*bs, *p.vars) < n,
                       *[s(*bs, idx(*bs, *p.vars)) == v for s, v in zip(src, p.vars)]))))
        c.order = (n, lambda k: self.subst(p.val, [(v, s(*bs, k)) for v, s in zip(p.vars, src)]))
        return c.order

    def _n(self, k):
        self.cnt[k] = self.cnt.get(k, 0) + 1
        return self.cnt[k]

    def subst(self, v, sub):
        """Substitutes terms in a value."""
        if not sub:
            return v
        if isinstance(v, Val):
            return Val(v.ty, z3.substitute(v.t, *sub))
        if isinstance(v, Tup):
            return Tup([self.subst(x, sub) for x in v.items])
        if isinstance(v, Rec):
            return Rec({n: self.subst(x, sub) for n, x in v.f.items()})
        if isinstance(v, Part):
            keep = [(a, b) for a, b in sub if not any(a.eq(x) for x in v.vars)]
            return Part(v.vars, z3.substitute(v.dom, *keep) if keep else v.dom, self.subst(v.val, keep))
        if isinstance(v, Coll):
            o = None
            if v.order is not None:
                n, at = v.order
                o = (z3.substitute(n, *sub), lambda k, at=at: self.subst(at(k), sub))
            return Coll(v.kind, [self.subst(p, sub) for p in v.parts], v.ety, o,
                        z3.substitute(v.obj, *sub) if v.obj is not None else None,
                        z3.substitute(v.arr, *sub) if v.arr is not None else None)
        if isinstance(v, FieldLoc):
            return self.subst(self.force(v), sub)
        if isinstance(v, (Cell, SubLoc)):
            return self.subst(self.force(v), sub)
        if isinstance(v, (ClsV, ModV, FnV, Builtin, Lam, Opaque)):
            return v
        raise Unsupported("substitution in %s" % type(v).__name__)

    def ite(self, c, a, b):
        a, b = self.force(a), self.force(b)
        c = simp(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, Val) and isinstance(b, Val):
            if a.ty.k == b.ty.k:
                ty = a.ty
                if ty.k == "ref":
                    if a.ty != b.ty:
                        self.tag(a)
                        self.tag(b)
                    ty = ref(*(set(a.ty.a) | set(b.ty.a)))
                if ty.k == "any" and a.ty != b.ty:
                    ty = ANY
                return Val(ty, z3.If(c, a.t, b.t))
            if {a.ty.k, b.ty.k} <= {"int", "real"}:
                return Val(REAL, z3.If(c, self.num(a, "real"), self.num(b, "real")))
            return Val(Ty("any", (a.ty, b.ty)) if a.ty.k != "any" and b.ty.k != "any" else ANY,
                       z3.If(c, self.box(a), self.box(b)))
        if isinstance(a, Coll) and isinstance(b, Coll) and a.kind == b.kind == "list" and a.obj is not None and b.obj is not None \
                and a.ety is not None and a.ety == b.ety:
            return self.of_term(z3.If(c, a.obj, b.obj), Ty("list", (a.ety,)))
        if isinstance(a, Coll) and isinstance(b, Coll) and a.kind == b.kind:
            ps = [Part(p.vars, And(c, p.dom), p.val) for p in a.parts] + [Part(p.vars, And(Not(c), p.dom), p.val)
                                                                         for p in b.parts]
            r = Coll(a.kind, ps, a.ety if a.ety == b.ety else None)
            if a.kind == "list":
                try:
                    (n1, f1), (n2, f2) = self.ordering(a), self.ordering(b)
                    r.order = (z3.If(c, n1, n2), lambda k: self.ite(c, f1(k), f2(k)))
                except Unsupported:
                    pass
            return r
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.ite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Rec) and isinstance(b, Rec) and set(a.f) == set(b.f):
            return Rec({n: self.ite(c, a.f[n], b.f[n]) for n in a.f})
        raise Unsupported("conditional value of %s and %s" % (type(a).__name__, type(b).__name__))

    # ------------------------------------------------------------ locations
    def force(self, v):
        """The current value behind a location."""
        while True:
            if isinstance(v, Cell):
                v = self.cells[v.id]
            elif isinstance(v, FieldLoc):
                return self.of_term(self.sel(v.key, v.ref), v.ty)
            elif isinstance(v, SubLoc):
                return self.force(self.getitem(self.force(v.parent), v.key))
            else:
                return v

    def cell(self, v):
        self.ncell += 1
        self.cells[self.ncell] = v
        return Cell(self.ncell)

    def store(self, loc, v):
        """Overwrites the container behind a location."""
        if isinstance(loc, Cell):
            cur = self.cells[loc.id]
            if isinstance(cur, (Cell, FieldLoc, SubLoc)):
                return self.store(cur, v)
            self.cells[loc.id] = v
        elif isinstance(loc, FieldLoc):
            t = self.term(self.coerce(v, loc.ty, "value stored in %s" % loc.key), loc.ty)
            self.write(loc.key, loc.ref, t)
        elif isinstance(loc, SubLoc):
            self.setitem(loc.parent, loc.key, v)
        else:
            raise Unsupported("mutation of a value without location")

    # the heap: per field, an SMT array plus a chain of (condition, value) updates
    def ha(self, key):
        if key not in self.heap:
            ty = self.lib.fields[key]
            a = z3.Const("h0:" + key, z3.ArraySort(Ref, sort_of(ty)))
            self.heap[key] = (a, ())
            if self.old_heap is not None and key not in self.old_heap:
                self.old_heap[key] = (a, ())
            self.field_axiom(key, ty, a)
            if self.allocated:
                self.old_axiom(key, ty, a)
        return self.heap[key]

    def sel(self, key, r):
        base, ws = self.ha(key)
        t = z3.Select(base, r)
        for c, v in ws:
            cr = simp(c(r))
            if z3.is_true(cr):
                t = v(r)
            elif not z3.is_false(cr):
                t = z3.If(cr, v(r), t)
        return t

    def write(self, key, r, t):
        """Single-location heap write."""
        self.update(key, lambda q, r=r: q == r, lambda q, t=t: t)

    def update(self, key, cond, val):
        """Functional update: every location r with cond(r) gets val(r)."""
        base, ws = self.ha(key)
        self.heap[key] = (base, ws + ((cond, val),))
        self.log.append((key, cond, val))

    def havoc(self, key, cond=None, name="hav"):
        """Arbitrary new values at the locations with cond(r)."""
        old = self.ha(key)
        ty = self.lib.fields[key]
        new = self.const(name + "_" + key, old[0].sort())
        self.field_axiom(key, ty, new, False)
        self.update(key, cond or (lambda r: TRUE), lambda r, new=new: z3.Select(new, r))

    def materialise(self, key):
        """Replaces the update chain of a field by an SMT array."""
        base, ws = self.ha(key)
        if ws:
            r = self.bvar("r", Ref)
            v = self.sel(key, r)
            new = self.const("m_" + key, base.sort())
            self.define(z3.ForAll([r], z3.Select(new, r) == v, patterns=[z3.Select(new, r)]))
            self.heap[key] = (new, ())
        return self.heap[key][0]

    def field_axiom(self, key, ty, a, closed=True):
        """Type invariant of a heap field (every write is checked against it)."""
        r = z3.Const("r?ty", Ref)
        sel = z3.Select(a, r)
        put = self.defs.append if closed else self.define
        fs = []
        if ty.k == "any" and ty.a:
            fs.append(self.tycheck(sel, ty))
        if ty.k == "ref":
            fs.append(Or(*[cls_of(sel) == self.cid(c) for c in ty.a]))
        if ty.k == "set" and ty.a[0].k == "ref":
            x = z3.Const("x?ty", Ref)
            put(z3.ForAll([r, x], z3.Implies(z3.Select(sel, x),
                                                         Or(*[cls_of(x) == self.cid(c) for c in ty.a[0].a])),
                                       patterns=[z3.Select(sel, x)]))
        if ty.k == "dict" and ty.a[1].k == "list" and ty.a[1].a[0].k == "ref":
            k, i = z3.Const("k?ty", sort_of(ty.a[0])), z3.Const("i?ty", z3.IntSort())
            x = at_fn(ty.a[1].a[0])(dict_fns(ty)[1](sel, k), i)
            put(z3.ForAll([r, k, i], Or(*[cls_of(x) == self.cid(c) for c in ty.a[1].a[0].a]), patterns=[x]))
        for f in fs:
            put(z3.ForAll([r], f, patterns=[sel]))

    # allocation
    def old_axiom(self, key, ty, a):
        """Fields of objects that existed at entry refer to such objects."""
        r, x = z3.Const("r?old", Ref), z3.Const("x?old", Ref)
        i, k = z3.Const("i?old", z3.IntSort()), z3.Const("k?old", z3.IntSort())
        sl = z3.Select(a, r)
        put = self.defs.append
        if ty.k == "ref":
            put(z3.ForAll([r], z3.Implies(OLD(r), OLD(sl)), patterns=[sl]))
        elif ty.k == "set" and ty.a[0].k == "ref":
            put(z3.ForAll([r, x], z3.Implies(z3.And(OLD(r), z3.Select(sl, x)), OLD(x)), patterns=[z3.Select(sl, x)]))

    def start_alloc(self):
        if not self.allocated:
            self.allocated = True
            for k, (a, ws) in list(self.heap.items()):
                self.old_axiom(k, self.lib.fields[k], z3.Const("h0:" + k, a.sort()))

    def allocate(self, cls):
        self.start_alloc()
        r = self.const("new_" + cls, Ref)
        prev = self.alloc
        self.define(z3.Not(prev(r)))
        self.define(cls_of(r) == self.cid(cls))
        self.news.append(r)
        self.alloc = lambda q: Or(prev(q), q == r)
        return Val(ref(cls), r)

    def grow_alloc(self):
        """An unknown number of objects is allocated."""
        self.start_alloc()
        prev = self.alloc
        A = z3.Function("alloc!%d" % self._n("alloc"), Ref, z3.BoolSort())
        r = self.bvar("r", Ref)
        self.define(z3.ForAll([r], z3.Implies(prev(r), A(r)), patterns=[A(r)]))
        self.alloc = A

    def closed(self, key):
        """Fields of allocated objects refer to allocated objects."""
        ty = self.lib.fields[key]
        r, x = self.bvar("r", Ref), self.bvar("x", Ref)
        if ty.k == "ref":
            self.define(z3.ForAll([r], z3.Implies(self.alloc(r), self.alloc(self.sel(key, r)))))
        elif ty.k == "set" and ty.a[0].k == "ref":
            m = z3.Select(self.sel(key, r), x)
            self.define(z3.ForAll([r, x], z3.Implies(And(self.alloc(r), m), self.alloc(x))))

    def fkey(self, cls, attr):
        for c in self.prog.mro(cls):
            if "%s.%s" % (c, attr) in self.lib.fields:
                return "%s.%s" % (c, attr)
        return None

    # ------------------------------------------------------------ attributes
    def narrow(self, v):
        """One concrete class for a reference (branches on its tag)."""
        cl = list(v.ty.a)
        while len(cl) > 1:
            c = cl.pop()
            if self.branch(cls_of(v.t) == self.cid(c)):
                return Val(ref(c), v.t)
        return Val(ref(*cl), v.t)

    def getattr(self, v, name):
        if isinstance(v, (Cell, FieldLoc, SubLoc)):
            f = self.force(v)
            if isinstance(f, (Coll, DictV, Rec, Graph)):
                return Meth(v, name)
            v = f
        if isinstance(v, ModV):
            return self.lib.mod_attr(v.name, name)
        if isinstance(v, ClsV):
            f = self.prog.find(v.name, name)
            if f is not None:
                return FnV(f) if f.kind != "classmethod" else FnV(f, v)
            raise Unsupported("class attribute %s.%s" % (v.name, name))
        if isinstance(v, (Coll, DictV, Rec, Graph)):
            return Meth(v, name)
        if isinstance(v, Val):
            k = v.ty.k
            if k == "any":
                if self.spec:
                    alts = [a for a in v.ty.a if a.k == "ref"]
                    return self.getattr(self.unbox(v, alts[0] if alts else ref(*self.lib.classes_with(name))), name)
                if self.branch(V.is_ref(v.t)):
                    alts = [a for a in v.ty.a if a.k == "ref"]
                    if not alts:
                        raise Unsupported("attribute of an untyped value")
                    return self.getattr(self.unbox(v, alts[0]), name)
                if name in ("split", "format", "ljust", "join", "append", "items", "keys", "values") :
                    return Meth(v, name)
                raise PyRaise("AttributeError", name)
            if k == "str":
                return Meth(v, name)
            if k == "ref":
                if len(v.ty.a) > 1:
                    keys = {self.fkey(c, name) for c in v.ty.a}
                    if len(keys) > 1 or None in keys:
                        v = self.narrow(v)
                c = v.ty.a[0]
                f = self.prog.find(c, name)
                if f is not None and f.kind == "getter":
                    return self.call_fn(f, [v], {})
                if f is not None:
                    return FnV(f, v)
                key = self.fkey(c, name)
                if key is None:
                    if self.spec and name == "__class__":
                        return ClsV(c)
                    raise PyRaise("AttributeError", "%s has no attribute %s" % (c, name))
                ty = self.lib.fields[key]
                if ty.k in ("set", "list", "dict"):
                    return FieldLoc(key, v.t, ty)
                if ty.k == "any" and any(a.k in ("list", "rec") for a in ty.a):
                    return FieldLoc(key, v.t, ty)
                return self.of_term(self.sel(key, v.t), ty)
            if k == "none":
                raise PyRaise("AttributeError", name)
            raise PyRaise("AttributeError", "%s.%s" % (k, name))
        if isinstance(v, Opaque):
            return Opaque(v.why)
        raise Unsupported("attribute %s of %s" % (name, type(v).__name__))

    def setattr(self, v, name, x):
        v = self.force(v)
        if isinstance(v, Val) and v.ty.k == "any" and not self.spec:
            if not self.branch(V.is_ref(v.t)):
                raise PyRaise("AttributeError", name)
            alts = [a for a in v.ty.a if a.k == "ref"]
            if not alts:
                raise Unsupported("assignment to attribute of an untyped value")
            v = self.unbox(v, alts[0])
        if not isinstance(v, Val) or v.ty.k != "ref":
            raise Unsupported("assignment to attribute of %s" % type(v).__name__)
        if len(v.ty.a) > 1:
            v = self.narrow(v)
        c = v.ty.a[0]
        f = self.prog.find(c, name + ".setter")
        if f is not None:
            self.call_fn(f, [v, x], {})
            return
        g = self.prog.find(c, name)
        if g is not None and g.kind == "getter":
            raise PyRaise("AttributeError", "can't set attribute " + name)
        key = self.fkey(c, name)
        if key is None:
            raise Unsupported("unknown field %s.%s" % (c, name))
        ty = self.lib.fields[key]
        val = self.force(x)
        if isinstance(val, DictV) and val.kty is None and ty.k == "any" and any(a.k == "rec" for a in ty.a) and not self.spec:
            self.write(key, v.t, self.empty_dict(key))
            return
        if self.deferred is not None and v.t.eq(self.self_ref) and isinstance(val, Val) and val.ty.k == "any" and ty.k in (
                "int", "real", "bool", "str"):
            # constructors store first and validate later
            c = {"real": self.isnum(val), "int": Or(V.is_i(val.t), V.is_b(val.t))}.get(ty.k)
            self.deferred.append((c if c is not None else self.tycheck(val.t, ty), key))
            val = self.unbox(val, ty)
        t = self.term(self.coerce(val, ty, "%s" % key), ty)
        self.write(key, v.t, t)
        if isinstance(x, Cell) and ty.k in ("set", "list", "any", "dict"):
            if x.id > self.cell_floor:
                self.cells[x.id] = FieldLoc(key, v.t, ty)

    def empty_dict(self, key):
        """{} stored where the schema wants a record: it must be gone again before anything relies on the schema
        (see unpoisoned)."""
        if self.bound:
            raise Unsupported("{} stored in %s" % key)
        o = self.const("emptydict", sort_of(Ty("list", (INT,))))
        self.define(EMPTY(o))
        if key not in self.poison:
            r = self.bvar("r", Ref)
            self.define(z3.ForAll([r], z3.Implies(V.is_o(self.sel(key, r)), Not(EMPTY(V.ov(self.sel(key, r)))))))
        self.poison.append(key)
        return V.o(o)

    def unpoisoned(self, why):
        for key in sorted(set(self.poison)):
            r = self.const("loc", Ref)
            t = self.sel(key, r)
            self.check(Not(And(V.is_o(t), EMPTY(V.ov(t)))), "%s holds no {} %s" % (key, why))

    # ------------------------------------------------------------ comparison
    def eq(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Val) and isinstance(b, Val):
            ka, kb = a.ty.k, b.ty.k
            if ka == kb:
                if ka == "any":
                    if a.t.eq(b.t):
                        return TRUE
                    self.use_norm()
                    return NORM(a.t) == NORM(b.t)
                if ka == "ref":
                    if set(a.ty.a).isdisjoint(b.ty.a):
                        return FALSE
                    if a.ty != b.ty:
                        self.tag(a)
                        self.tag(b)
                    self.assumptions.add("== between model objects (Node, Interface) is identity: distinct objects of a "
                                         "model have distinct keys")
                    return a.t == b.t
                if ka in ("list", "rec", "tuple"):
                    return a.t == b.t
                if ka == "str" and not a.t.eq(b.t) and all(any(x.eq(t) for t in self.strs.values()) for x in (a.t, b.t)):
                    return FALSE
                return TRUE if ka == "none" else a.t == b.t
            if ka in ("int", "real", "bool") and kb in ("int", "real", "bool"):
                return self.num(a, "real") == self.num(b, "real")
            if "any" in (ka, kb):
                o, n = (a, b) if ka == "any" else (b, a)
                if n.ty.k in ("int", "real", "bool"):
                    return And(self.isnum(o), self.num(o) == self.num(n, "real"))
                return o.t == self.box(n)
            return FALSE
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return And(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Rec) and isinstance(b, Rec):
            if set(a.f) != set(b.f):
                return FALSE
            return And(*[self.eq(a.f[k], b.f[k]) for k in sorted(a.f)])
        if isinstance(a, DictV) and isinstance(b, DictV):
            if a.kty is None or b.kty is None:
                d = b if a.kty is None else a
                if d.kty is None:
                    return TRUE
                q = self.bvar("q", sort_of(d.kty))
                return Not(Exists([q], d.dom(q)))
            if a.obj is not None and b.obj is not None and a.obj.eq(b.obj):
                return TRUE
            raise Unsupported("comparison of dicts")
        if isinstance(a, Coll) and isinstance(b, Coll):
            if (a.kind == "set") != (b.kind == "set"):
                return FALSE
            if b.conc == [] or a.conc == []:
                return Not(self.nonempty(a if b.conc == [] else b))
            if a.obj is not None and b.obj is not None:
                return a.obj == b.obj
            if a.kind == "set":
                e = self.coll_ety(a)
                x = self.bvar("x", sort_of(e))
                self.bound.append(x)
                try:
                    f = self.member(a, Val(e, x)) == self.member(b, Val(e, x))
                finally:
                    self.bound.pop()
                return z3.ForAll([x], f)
            # comprehensions over the same set, in the set's iteration order
            pa, pb = self.ident_part(a), self.ident_part(b)
            if pa is not None and pb is not None and a.src is not None and b.src is not None and a.src.eq(b.src):
                d = z3.substitute(pb.dom, (pb.vars[0], pa.vars[0]))
                self.assumptions.add("a set that is not modified is iterated in the same order every time")
                return z3.ForAll([pa.vars[0]], pa.dom == d)
            (n1, f1), (n2, f2) = self.ordering(a), self.ordering(b)
            i = self.bvar("i", z3.IntSort())
            self.bound.append(i)
            try:
                self.frames.append([And(i >= 0, i < n1)])
                f = self.eq(f1(i), f2(i))
            finally:
                self.frames.pop()
                self.bound.pop()
            return And(n1 == n2, z3.ForAll([i], z3.Implies(And(i >= 0, i < n1), f)))
        if isinstance(a, Val) and a.ty.k == "any" or isinstance(b, Val) and b.ty.k == "any":
            o, n = (a, b) if isinstance(a, Val) and a.ty.k == "any" else (b, a)
            if isinstance(n, Coll):
                alts = [t for t in o.ty.a if t.k in ("list", "set")]
                if len(alts) == 1:
                    return And(V.is_o(o.t), self.eq(self.unbox(o, alts[0]), n))
            if isinstance(n, (Rec, Tup)):
                raise Unsupported("comparison with a record")
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return z3.BoolVal(a.name == b.name)
        if type(a) is not type(b):
            return FALSE
        raise Unsupported("== of %s and %s" % (type(a).__name__, type(b).__name__))

    def ident_part(self, c):
        if len(c.parts) == 1 and len(c.parts[0].vars) == 1 and isinstance(c.parts[0].val, Val) \
                and c.parts[0].val.t.eq(c.parts[0].vars[0]):
            return c.parts[0]
        return None

    def keyed_part(self, c):
        """A set of pairs (k, f(k)): every k gives one element."""
        p = c.parts[0]
        return len(c.parts) == 1 and len(p.vars) == 1 and isinstance(p.val, Tup) and any(
            isinstance(x, Val) and x.t.eq(p.vars[0]) for x in p.val.items)

    def member(self, c, y):
        c = self.force(c)
        fs = []
        for p in c.parts:
            if len(p.vars) == 1 and isinstance(p.val, Val) and p.val.t.eq(p.vars[0]) and isinstance(y, Val) and \
                    y.ty.k == p.val.ty.k and not (y.ty.k == "any"):
                if y.ty.k == "ref" and set(y.ty.a).isdisjoint(p.val.ty.a):
                    continue
                if y.ty != p.val.ty:
                    self.tag(y)
                fs.append(z3.substitute(p.dom, (p.vars[0], y.t)))
            else:
                nb = len(self.bound)
                self.bound.extend(p.vars)
                self.frames.append([p.dom])
                try:
                    e = self.eq(p.val, y)
                finally:
                    self.frames.pop()
                    del self.bound[nb:]
                fs.append(Exists(p.vars, And(p.dom, e)))
        return Or(*fs)

    def nonempty(self, c):
        return Or(*[Exists(p.vars, p.dom) for p in c.parts])

    def truth(self, v):
        v = self.force(v)
        if isinstance(v, Val):
            k = v.ty.k
            if k == "bool":
                return v.t
            if k in ("int", "real"):
                return v.t != 0
            if k == "none":
                return FALSE
            if k == "str":
                return v.t != self.strlit("")
            if k == "ref":
                return TRUE
            if k == "any":
                t = v.t
                o = Or(And(V.is_b(t), V.bv(t)), And(V.is_i(t), V.iv(t) != 0), And(V.is_r(t), V.rv(t) != 0),
                       And(V.is_s(t), V.sv(t) != self.strlit("")), V.is_ref(t))
                alts = [a for a in v.ty.a if a.k in ("list", "rec", "tuple", "set")]
                if v.ty.a and not alts:
                    return o
                if alts and all(a.k == "rec" for a in alts):
                    return Or(o, V.is_o(t))
                if alts and all(a.k == "list" for a in alts):
                    return Or(o, And(V.is_o(t), olen(V.ov(t)) > 0))
                u = z3.Function("obj_truth", z3.DeclareSort("Obj"), z3.BoolSort())
                return Or(o, And(V.is_o(t), u(V.ov(t))))
        if isinstance(v, Coll):
            if v.kind == "gen":
                return TRUE
            return self.nonempty(v)
        if isinstance(v, DictV):
            if v.kty is None:
                return FALSE
            q = self.bvar("q", sort_of(v.kty))
            return Exists([q], v.dom(q))
        if isinstance(v, (Rec, Tup)):
            return z3.BoolVal(bool(v.f if isinstance(v, Rec) else v.items))
        if isinstance(v, (ClsV, FnV, Graph)):
            return TRUE
        if isinstance(v, DictV):
            if v.kty is None:
                return FALSE
            k = self.bvar("k", sort_of(v.kty))
            return z3.Exists([k], v.dom(k))
        raise Unsupported("truth of %s" % type(v).__name__)
