"""networkx graphs as values: trusted contracts of the graph methods pyNTM uses."""
import z3

from sym import FALSE, PyRaise, TRUE, Unsupported
from vals import (And, Coll, Exists, Graph, INT, NONE, Not, Or, Part, REAL, Rec, Ref, STR, Str, Tup, Ty, V, Val, at_fn, olen, sort_of)

NXNOTE = ("networkx: DiGraph/MultiDiGraph, add_edges_from, add_nodes_from, edges(data=True) and has_edge behave as documented; "
          "a DiGraph keeps one edge, with the last data added, per node pair")


class GraphOps:
    def frozen(self, c):
        """The collection with its membership and values named, so that later
        changes of the state they were computed from do not matter."""
        if self.bound:
            return c
        ps = []
        for p in c.parts:
            if not p.vars:
                ps.append(p)
                continue
            p = self.fresh_part(p)
            D = z3.Function("frz!%d" % self._n("frz"), *[v.sort() for v in p.vars], z3.BoolSort())
            d = D(*p.vars)
            self.define(z3.ForAll(list(p.vars), d == p.dom, patterns=[d]))
            for s in self.set_selects(p.dom, p.vars):
                self.define(z3.ForAll(list(p.vars), d == p.dom, patterns=[s]))
            q = Part(p.vars, d, self.frozen_val(p.val, p.vars))
            q.raw = (p, dict(self.heap))
            ps.append(q)
        return Coll(c.kind, ps, c.ety, c.order, c.obj, None, c.src)

    def set_selects(self, f, vs):
        """Select(array, v) atoms of a domain that mention all its variables."""
        out = []
        for x in self.conjuncts(f):
            if z3.is_select(x) and len(vs) == 1 and x.arg(1).eq(vs[0]):
                out.append(x)
        return out[:1]

    def frozen_val(self, v, vs):
        v = self.force(v)
        if isinstance(v, Tup):
            return Tup([self.frozen_val(x, vs) for x in v.items])
        if isinstance(v, Rec):
            return Rec({k: self.frozen_val(x, vs) for k, x in v.f.items()})
        if isinstance(v, Val):
            if any(v.t.eq(x) for x in vs) or not self.mentions_any(v.t, vs):
                return v
            f = z3.Function("frv!%d" % self._n("frv"), *[x.sort() for x in vs], v.t.sort())
            self.define(z3.ForAll(list(vs), f(*vs) == v.t, patterns=[f(*vs)]))
            return Val(v.ty, f(*vs))
        raise Unsupported("edge data")

    def mentions_any(self, t, vs):
        return self.mentions(t, {v.get_id() for v in vs})

    def new_graph(self, multi):
        self.assumptions.add(NXNOTE)
        return self.cell(Graph(Coll("list", []), Coll("list", []), multi))

    def graph_of(self, edges, nodes, multi):
        g = Graph(self.frozen(edges), self.frozen(nodes), multi)
        return g

    def graph_method(self, loc, g, name, args, kw):
        none = Val(NONE, V.none)
        if name == "add_edges_from":
            self.store(loc, Graph(Coll("list", g.edges.parts + self.frozen(self.iterable(args[0])).parts), g.nodes, g.multi))
            return none
        if name == "add_weighted_edges_from" and set(kw) == {"weight"}:
            w = self.force(kw["weight"])
            k = next((k for k in ("cost", "weight") if self.is_lit(w, k)), None)
            if k is None:
                raise Unsupported("weight of the edges")
            c = self.frozen(self.iterable(args[0]))
            es = []
            for p in c.parts:
                q = Part(p.vars, p.dom, Tup(list(p.val.items[:2]) + [Rec({k: p.val.items[2]})]))
                raw = getattr(p, "raw", None)
                if raw is not None:
                    r = raw[0]
                    q.raw = (Part(r.vars, r.dom, Tup(list(self.force(r.val).items[:2]) + [Rec({k: self.force(r.val).items[2]})])), raw[1])
                es.append(q)
            self.store(loc, Graph(Coll("list", g.edges.parts + es), g.nodes, g.multi))
            return none
        if name == "add_nodes_from":
            self.store(loc, Graph(g.edges, Coll("list", g.nodes.parts + self.frozen(self.iterable(args[0])).parts), g.multi))
            return none
        if name == "has_edge":
            u, v = self.force(args[0]), self.force(args[1])
            return self.boolv(self.has_edge(g, u, v))
        if name == "edges":
            if set(kw) - {"data"} or args:
                raise Unsupported("edges arguments")
            c = self.edge_list(g)
            if "data" in kw:
                return c
            return Coll("list", [Part(p.vars, p.dom, Tup(p.val.items[:2])) for p in c.parts])
        raise Unsupported("graph method " + name)

    # ------------------------------------------------------------ shortest paths
    def thawed(self, p):
        """The part as it was given, if nothing it was computed from has changed since."""
        raw = getattr(p, "raw", None)
        if raw is None:
            return p
        q, heap = raw
        ids = {b.get_id() for k, (b, ws) in heap.items() if self.heap.get(k) != (b, ws)}
        if not ids:
            return q
        for t in [q.dom] + [x.t for x in self.leaves(q.val)]:
            if self.mentions(t, ids):
                return p
        return q

    def leaves(self, v):
        v = self.force(v)
        if isinstance(v, Tup):
            return [y for x in v.items for y in self.leaves(x)]
        if isinstance(v, Rec):
            return [y for x in v.f.values() for y in self.leaves(x)]
        return [v] if isinstance(v, Val) else []

    def edge_terms(self, g, weight):
        """(D, U, W, C): the edges of a graph as functions of what they were made from (an interface)."""
        if len(g.edges.parts) != 1 or self.bound:
            raise Unsupported("shortest paths in a graph built in several steps")
        p0 = g.edges.parts[0]
        p = self.thawed(p0)
        if p.vars and not p0.vars[0].eq(p.vars[0]):
            p = Part(p0.vars, z3.substitute(p.dom, *zip(p.vars, p0.vars)), self.subst(p.val, list(zip(p.vars, p0.vars))))
        if len(p.vars) != 1 or p.vars[0].sort() != Ref:
            raise Unsupported("shortest paths in a graph with edges not made from one object each")
        x = p.vars[0]
        u, v = [self.force(y) for y in p.val.items[:2]]
        at = lambda t: lambda i: z3.substitute(t, (x, i))
        c = None
        if weight is not None:
            c = self.force(p.val.items[2]).f[weight]
            c = self.under([x], p.dom, lambda: self.numeric(c).t)
        return at(p0.dom), at(u.t), at(v.t), None if c is None else at(c)

    def chain(self, D, U, W, s, t, P, at):
        """P is a loop-free chain of edges from s to t"""
        j, k = z3.Int("cj"), z3.Int("ck")
        n = olen(P)
        return And(n >= 1, U(at(P, z3.IntVal(0))) == s, W(at(P, n - 1)) == t,
                   z3.ForAll([j], z3.Implies(And(j >= 0, j < n), D(at(P, j)))),
                   z3.ForAll([j], z3.Implies(And(j >= 0, j + 1 < n), W(at(P, j)) == U(at(P, j + 1)))),
                   z3.ForAll([j, k], z3.Implies(And(j >= 0, j <= k, k < n), U(at(P, j)) != W(at(P, k)))))

    def node_paths(self, D, U, W, s, t, tag):
        """A list of node paths: each starts at s, ends at t, repeats no node and follows edges; no two are alike."""
        ty = Ty("list", (Ty("list", (STR,)),))
        ps = self.const(tag, sort_of(ty))
        ato, ats = at_fn(ty.a[0]), at_fn(STR)
        k, l, a, b = z3.Int("pk"), z3.Int("pl"), z3.Int("pa"), z3.Int("pb")
        n, q = olen(ps), ato(ps, k)
        inr = And(k >= 0, k < n)
        self.define(n >= 0)
        self.define(z3.ForAll([k], z3.Implies(inr, And(olen(q) >= 1, ats(q, z3.IntVal(0)) == s, ats(q, olen(q) - 1) == t,
                                                       z3.Implies(s != t, olen(q) >= 2))), patterns=[q]))
        self.define(z3.ForAll([k, a, b], z3.Implies(And(inr, a >= 0, a < b, b < olen(q)), ats(q, a) != ats(q, b)),
                              patterns=[z3.MultiPattern(ats(q, a), ats(q, b))]))
        hop = z3.Function("hop!%d" % self._n("hop"), z3.IntSort(), z3.IntSort(), Ref)
        e = hop(k, a)
        self.define(z3.ForAll([k, a], z3.Implies(And(inr, a >= 0, a + 1 < olen(q)),
                                                 And(D(e), U(e) == ats(q, a), W(e) == ats(q, a + 1))), patterns=[ats(q, a)]))
        dif = z3.Function("dif!%d" % self._n("dif"), z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = ato(ps, l)
        d = dif(k, l)
        self.define(z3.ForAll([k, l], z3.Implies(And(inr, l >= 0, l < n, k != l),
                                                 Or(olen(q) != olen(r), And(d >= 0, d < olen(q), ats(q, d) != ats(r, d)))),
                              patterns=[z3.MultiPattern(q, r)]))
        return ty, ps, n, ato, ats

    def matches(self, U, P, q, at, ats):
        """the chain P passes the nodes of q"""
        j = z3.Int("mj")
        return And(olen(q) == olen(P) + 1, z3.ForAll([j], z3.Implies(And(j >= 0, j < olen(P)), U(at(P, j)) == ats(q, j))))

    def shortest(self, g, s, t):
        """Trusted contract of nx.all_shortest_paths(g, s, t, weight="cost"): (paths, their cost, no path, s is not a node)."""
        s, t = self.force(s).t, self.force(t).t
        for g0, s0, t0, r in self.sps:
            if g0 is g and s0.eq(s) and t0.eq(t):
                return r
        D, U, W, C = self.edge_terms(g, "cost")
        i, e = z3.Const("ei", Ref), z3.Const("ej", Ref)
        self.check(z3.ForAll([i], z3.Implies(D(i), C(i) > 0)), "the costs of the graph's edges are positive")
        par = z3.ForAll([i, e], z3.Implies(And(D(i), D(e), U(i) == U(e), W(i) == W(e)), i == e))
        if not g.multi:
            self.check(par, "the graph has no two edges between the same nodes")
        self.assumptions.add("networkx: all_shortest_paths lists every least-cost path of a graph with positive costs once, as node lists, and "
                             "raises NetworkXNoPath if there is none; shortest_path_length is their cost")
        ty, ps, n, ato, ats = self.node_paths(D, U, W, s, t, "shortest")
        at = at_fn(Ty("ref", ()))
        c = self.const("least", C(i).sort())
        nop = self.const("nopath", z3.BoolSort())
        P, j, k = z3.Const("cP", sort_of(ty)), z3.Int("cJ"), z3.Int("cK")
        self.bound.append(P)
        try:
            tot = self.total([j], z3.If(And(j >= 0, j < olen(P)), C(at(P, j)), z3.RealVal(0) if C(i).sort() == z3.RealSort() else z3.IntVal(0)), C(i).sort())
        finally:
            self.bound.pop()
        ch = self.chain(D, U, W, s, t, P, at)
        kk = z3.Function("path!%d" % self._n("path"), sort_of(ty), z3.IntSort())(P)
        least = TRUE
        if g.multi:
            # the hops of a least-cost path are least-cost edges
            least = z3.ForAll([j, i], z3.Implies(And(j >= 0, j < olen(P), D(i), U(i) == U(at(P, j)), W(i) == W(at(P, j))), C(at(P, j)) <= C(i)))
        self.define(z3.ForAll([P], z3.Implies(And(s != t, ch), And(Not(nop), tot >= c, z3.Implies(
            tot == c, And(kk >= 0, kk < n, self.matches(U, P, ato(ps, kk), at, ats), least)))), patterns=[olen(P)]))
        self.define(z3.ForAll([P, k], z3.Implies(And(s != t, k >= 0, k < n, ch, self.matches(U, P, ato(ps, k), at, ats), least), tot == c),
                              patterns=[z3.MultiPattern(olen(P), ato(ps, k))]))
        self.define(z3.Implies(Not(nop), And(n >= 1, c >= (0 if C(i).sort() == z3.IntSort() else z3.RealVal(0)))))
        self.define(z3.Implies(s == t, And(Not(nop), n == 1, c == 0)))
        isnode = self.is_node(g, D, U, W, s)
        r = (ty, ps, c, nop, isnode)
        self.sps.append((g, s, t, r))
        return r

    def simple_paths(self, g, s, t, cut):
        """Trusted contract of nx.all_simple_paths on a DiGraph with nodes s and t."""
        D, U, W, C = self.edge_terms(g, None)
        self.check(self.is_node(g, D, U, W, s), "the first node of the paths is in the graph")
        self.check(self.is_node(g, D, U, W, t), "the last node of the paths is in the graph")
        self.assumptions.add("networkx: all_simple_paths of a DiGraph lists, between two of its nodes, every path of at most cutoff hops that "
                             "repeats no node once, as node lists")
        ty, ps, n, ato, ats = self.node_paths(D, U, W, s, t, "simple")
        at = at_fn(Ty("ref", ()))
        k = z3.Int("pk")
        self.define(z3.Implies(s == t, n == 0))
        self.define(z3.ForAll([k], z3.Implies(And(k >= 0, k < n), olen(ato(ps, k)) <= cut + 1), patterns=[ato(ps, k)]))
        P = z3.Const("cP", sort_of(ty))
        kk = z3.Function("path!%d" % self._n("path"), sort_of(ty), z3.IntSort())(P)
        self.define(z3.ForAll([P], z3.Implies(And(s != t, olen(P) <= cut, self.chain(D, U, W, s, t, P, at)),
                                              And(kk >= 0, kk < n, self.matches(U, P, ato(ps, kk), at, ats))), patterns=[olen(P)]))
        v = self.of_term(ps, ty)
        return Coll("gen", v.parts, v.ety, v.order, v.obj)

    def is_node(self, g, D, U, W, s):
        i = z3.Const("ei", Ref)
        return Or(*[Exists(p.vars, And(p.dom, self.under(p.vars, p.dom, lambda: self.eq(p.val, Val(STR, s))))) for p in map(self.fresh_part, g.nodes.parts)],
                  z3.Exists([i], And(D(i), Or(U(i) == s, W(i) == s))))

    def nx_call(self, f, args, kw):
        kw = dict(kw)
        w = self.force(kw.pop("weight", Val(NONE, V.none)))
        g = self.force(args[0])
        if f == "all_shortest_paths" and isinstance(g, Graph) and not kw and len(args) == 3 and self.is_lit(w, "cost"):
            ty, ps, c, nop, isnode = self.shortest(g, args[1], args[2])
            v = self.of_term(ps, ty)
            r = Coll("gen", v.parts, v.ety, v.order, v.obj)
            r.lazy = [(Not(isnode), "NodeNotFound"), (nop, "NetworkXNoPath")]
            return r
        if f == "shortest_path_length" and isinstance(g, Graph) and not kw and len(args) == 3 and self.is_lit(w, "cost"):
            ty, ps, c, nop, isnode = self.shortest(g, args[1], args[2])
            self.exc_if(Not(isnode), "NodeNotFound")
            self.exc_if(nop, "NetworkXNoPath")
            return Val(INT if c.sort() == z3.IntSort() else REAL, c)
        if f == "all_simple_paths" and isinstance(g, Graph) and not g.multi and len(args) == 3 and set(kw) == {"cutoff"} and w.ty.k == "none":
            return self.simple_paths(g, self.force(args[1]).t, self.force(args[2]).t, self.num(kw["cutoff"], "int"))
        raise Unsupported("nx." + f)

    def is_lit(self, v, s):
        return isinstance(v, Val) and v.ty.k == "str" and v.t.eq(self.strlit(s))

    def has_edge(self, g, u, v):
        fs = []
        for p in g.edges.parts:
            p = self.fresh_part(p)
            e = self.under(p.vars, p.dom, lambda: And(self.eq(p.val.items[0], u), self.eq(p.val.items[1], v)))
            fs.append(Exists(p.vars, And(p.dom, e)))
        return Or(*fs)

    def edge_list(self, g):
        """Every edge once; a DiGraph keeps one per node pair."""
        if g.multi:
            return Coll("list", g.edges.parts)
        if g.rep is None:
            if len(g.edges.parts) != 1 or self.bound:
                raise Unsupported("edges of a DiGraph built in several steps")
            p = self.fresh_part(g.edges.parts[0])
            R = z3.Function("rep!%d" % self._n("rep"), *[v.sort() for v in p.vars], z3.BoolSort())
            q = self.fresh_part(p)
            same = lambda a, b: And(self.eq(a.val.items[0], b.val.items[0]), self.eq(a.val.items[1], b.val.items[1]))
            rp, rq = R(*p.vars), R(*q.vars)
            self.define(z3.ForAll(list(p.vars), z3.Implies(rp, p.dom), patterns=[rp]))
            self.define(z3.ForAll(list(p.vars), z3.Implies(p.dom, z3.Exists(list(q.vars), And(rq, same(p, q))))))
            self.define(z3.ForAll(list(p.vars) + list(q.vars), z3.Implies(And(rp, rq, same(p, q)), And(*[a == b for a, b in zip(p.vars, q.vars)])),
                                  patterns=[z3.MultiPattern(rp, rq)]))
            g.rep = Part(p.vars, rp, p.val)
        return Coll("list", [g.rep])

    def same_graph(self, a, b, name):
        self.check(z3.BoolVal(a.multi == b.multi), name + " (kind of graph)")
        self.check(self.set_eq(a.edges, b.edges), name + " (edges)")
        self.check(self.set_eq(a.nodes, b.nodes), name + " (nodes)")
        for g in (a,):
            if len(g.edges.parts) != 1:
                raise Unsupported("graph built in several steps")
