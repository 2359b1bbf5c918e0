"""Reference definitions used as oracles.  Nothing here calls the code under
test except to read plain attributes of its objects."""
import heapq

from build import is_flex

EPS = 1e-6


def up(i):
    return i._failed is False


def adj(ints):
    g = {}
    for i in ints:
        g.setdefault(i.node_object.name, []).append(i)
    return g


def dists_to(ints, dst):
    """Least cost from every node to dst."""
    rev = {}
    for i in ints:
        rev.setdefault(i.remote_node_object.name, []).append(i)
    d = {dst: 0}
    q = [(0, dst)]
    while q:
        c, x = heapq.heappop(q)
        if c > d[x]:
            continue
        for i in rev.get(x, ()):
            y = i.node_object.name
            if c + i.cost < d.get(y, float("inf")):
                d[y] = c + i.cost
                heapq.heappush(q, (d[y], y))
    return d


def min_paths(ints, src, dst):
    """All least-cost interface paths (costs are >= 1, so they are loop-free)."""
    ints = list(ints)
    d = dists_to(ints, dst)
    if src not in d or src == dst:
        return []
    g = adj(ints)
    out = []

    def go(x, p):
        if x == dst:
            out.append(tuple(p))
            return
        for i in g.get(x, ()):
            y = i.remote_node_object.name
            if y in d and i.cost + d[y] == d[x]:
                p.append(i)
                go(y, p)
                p.pop()
    go(src, [])
    return out


def min_cost(ints, src, dst):
    return dists_to(ints, dst).get(src)


def simple_paths(ints, src, dst, cutoff):
    g = adj(ints)
    out = []

    def go(x, seen, p):
        if x == dst:
            out.append(tuple(p))
            return
        if len(p) == cutoff:
            return
        for i in g.get(x, ()):
            y = i.remote_node_object.name
            if y not in seen:
                p.append(i)
                go(y, seen | {y}, p)
                p.pop()
    if src != dst:
        go(src, {src}, [])
    return out


def ids(paths):
    return sorted(tuple(id(x) for x in p) for p in paths)


def limit(i):
    return i.capacity * (i.percent_reservable_bandwidth / 100)


def reservable(i, ledger=None):
    """The documented reservable bandwidth, -1 when not rsvp-enabled."""
    if i.rsvp_enabled is not True:
        return -1.0
    r = i._reserved_bandwidth if ledger is None else ledger
    return round(limit(i) - round(r, 1), 1)


def routed(l):
    return isinstance(l.path, dict) and bool(l.path)


def src(x):
    return x.source_node_object.name


def dst(x):
    return x.dest_node_object.name


def manual(l):
    """Manual metric of an LSP (configured one if it was not read yet)."""
    if l.initial_manual_metric:
        return l.initial_manual_metric
    return None if l._manual_metric == "not set" else l._manual_metric


def metric(m, l):
    mm = manual(l)
    if mm is not None:
        return mm
    if not routed(l):
        return "Unrouted"
    return min_cost([i for i in m.interface_objects if up(i)], src(l), dst(l))


def group(m, s, d):
    return [l for l in m.rsvp_lsp_objects if src(l) == s and dst(l) == d]


def best_lsps(m, s, d):
    r = [l for l in group(m, s, d) if routed(l)]
    if not r:
        return []
    k = min(metric(m, l) for l in r)
    return [l for l in r if metric(m, l) == k]


def start(x):
    return x.source_node_object.name if hasattr(x, "source_node_object") else x.node_object.name


def end(x):
    return x.dest_node_object.name if hasattr(x, "dest_node_object") else x.remote_node_object.name


def is_lsp(x):
    return hasattr(x, "lsp_name")


def shares(paths):
    """Share of each path: 1 / product of the alternatives at each branch."""
    nxt = {}
    for p in paths:
        for k, x in enumerate(p):
            nxt.setdefault(tuple(id(y) for y in p[:k]), set()).add(id(x))
    out = []
    for p in paths:
        s = 1.0
        for k in range(len(p)):
            s /= len(nxt[tuple(id(y) for y in p[:k])])
        out.append(s)
    return out


def shortcut_paths(m, s, d):
    """The paths a FlexModel demand takes without an end-to-end LSP, with IGP
    shortcuts: each least-cost path, where the traffic at each
    shortcut-enabled node rides the best routed LSPs to the furthest node
    ahead; of the results, those of least total metric."""
    paths = min_paths([i for i in m.interface_objects if up(i)], s, d)
    sc = {n.name for n in m.node_objects if n._igp_shortcuts_enabled is True}
    out = {}
    used = False
    for p in paths:
        nodes = [i.node_object.name for i in p] + [d]
        acc = [()]
        k = 0
        while k < len(p):
            hop = None
            if nodes[k] in sc:
                for e in range(len(nodes) - 1, k, -1):
                    b = best_lsps(m, nodes[k], nodes[e])
                    if b:
                        hop = (b, e)
                        break
            if hop:
                used = True
                acc = [a + (l,) for a in acc for l in hop[0]]
                k = hop[1]
            else:
                acc = [a + (p[k],) for a in acc]
                k += 1
        for a in acc:
            out[tuple(id(x) for x in a)] = a
    if not used:
        return paths, False
    tot = {k: sum(metric(m, x) if is_lsp(x) else x.cost for x in a) for k, a in out.items()}
    lo = min(tot.values())
    return [a for k, a in out.items() if tot[k] == lo], True


def nm(x):
    if is_lsp(x):
        return "LSP %s>%s %s" % (src(x), dst(x), x.lsp_name)
    if hasattr(x, "circuit_id"):
        return "%s:%s" % (x.node_object.name, x.name)
    return repr(x)


def nms(paths):
    return sorted([nm(x) for x in p] for p in paths)


def snapshot_inputs(m):
    """Everything update_simulation must not change."""
    flex = is_flex(m)
    return {
        "nodes": {id(n): (n.name, n._failed, n._lat, n._lon, n._igp_shortcuts_enabled, frozenset(map(id, n._srlgs)))
                  for n in m.node_objects},
        "ints": {id(i): (i.name, i._cost, i._capacity, id(i.node_object), id(i.remote_node_object),
                         i.circuit_id if flex else None, i._failed, frozenset(map(id, i._srlgs)), i.rsvp_enabled,
                         i.percent_reservable_bandwidth) for i in m.interface_objects},
        "demands": {id(x): (id(x.source_node_object), id(x.dest_node_object), x.traffic, x.name)
                    for x in m.demand_objects},
        "lsps": {id(x): (id(x.source_node_object), id(x.dest_node_object), x.lsp_name, x.configured_setup_bandwidth,
                         manual(x)) for x in m.rsvp_lsp_objects},
        "srlgs": {id(x): (x.name, x._failed) for x in m.srlg_objects},
    }


def failures(m):
    return {"nodes": {n.name: n._failed for n in m.node_objects},
            "ints": {(i.node_object.name, i.name): i._failed for i in m.interface_objects},
            "srlgs": {s.name: s._failed for s in m.srlg_objects}}
