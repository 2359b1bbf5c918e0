"""State oracles: each takes a model on which update_simulation has just run
and returns a list of messages, empty when the property holds."""
import math

from build import ModelException, is_flex, quiet, remote  # noqa: F401
from ref import (EPS, best_lsps, dst, end, group, ids, is_lsp, limit, metric, min_cost, min_paths, nm, nms, reservable,
                 routed, shares, shortcut_paths, src, start, up)


def close(a, b, tol):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and math.isfinite(a) and abs(a - b) <= tol


def plist(p):
    return p if isinstance(p, list) and all(isinstance(x, list) for x in p) else None


def c01(m):
    bad = []
    ups = [i for i in m.interface_objects if up(i)]
    sc = {n.name for n in m.node_objects if n._igp_shortcuts_enabled is True} if is_flex(m) else set()
    for d in m.demand_objects:
        s, t = src(d), dst(d)
        if s == t or any(routed(l) for l in group(m, s, t)):
            continue
        exp = min_paths(ups, s, t)
        if any(i.node_object.name in sc for p in exp for i in p):
            continue
        if not exp:
            if d.path != "Unrouted":
                bad.append("%r has path %r but no path exists" % (d, d.path))
        elif plist(d.path) is None:
            bad.append("%r has path %r, expected %s" % (d, d.path, nms(exp)))
        elif ids(d.path) != ids(exp):
            bad.append("%r has paths %s, expected %s" % (d, nms(d.path), nms(exp)))
    return bad


def c02(m):
    bad = []
    for d in m.demand_objects:
        s, t = src(d), dst(d)
        if s == t:
            continue
        exp = best_lsps(m, s, t)
        if exp:
            if plist(d.path) is None or ids(d.path) != ids([(l,) for l in exp]):
                bad.append("%r has path %r, expected the LSPs %s" % (d, d.path, [nm(l) for l in exp]))
                continue
            pd = d.path_detail
            if not isinstance(pd, dict) or ids([v["items"] for v in pd.values()]) != ids([(l,) for l in exp]):
                bad.append("%r has path_detail %r, expected one entry per LSP %s" % (d, pd, [nm(l) for l in exp]))
            elif any(not close(v["path_traffic"], d.traffic / len(exp), 1e-3) for v in pd.values()):
                bad.append("%r splits %r over %d LSPs" % (d, [v["path_traffic"] for v in pd.values()], len(exp)))
        elif plist(d.path) is not None:
            for p in d.path:
                if len(p) == 1 and is_lsp(p[0]) and (src(p[0]), dst(p[0])) == (s, t):
                    bad.append("%r rides %s, which is not routed" % (d, nm(p[0])))
                if len(p) == 1 and is_lsp(p[0]) and (src(p[0]), dst(p[0])) != (s, t):
                    bad.append("%r rides %s end to end" % (d, nm(p[0])))
    # an LSP carries only the demands that ride it
    return bad


def item_ints(x):
    return list(x.path["interfaces"]) if is_lsp(x) else [x]


def items_of(v):
    return v["items"] if "items" in v else v["interfaces"]


def c03(m):
    bad = []
    load = {id(i): 0.0 for i in m.interface_objects}
    tol = {id(i): 0.01 for i in m.interface_objects}
    for d in m.demand_objects:
        if plist(d.path) is None:
            continue
        paths = d.path
        sh = shares(paths)
        if abs(sum(sh) - 1) > 1e-9:
            bad.append("%r: paths %s do not partition the demand" % (d, nms(paths)))
        pd = d.path_detail
        if not isinstance(pd, dict):
            bad.append("%r is routed but has path_detail %r" % (d, pd))
            continue
        if ids([items_of(v) for v in pd.values()]) != ids(paths):
            bad.append("%r: path_detail lists %s for paths %s" % (d, nms([items_of(v) for v in pd.values()]),
                                                                 nms(paths)))
            continue
        exp = {tuple(id(x) for x in p): s * d.traffic for p, s in zip(paths, sh)}
        for v in pd.values():
            e = exp[tuple(id(x) for x in items_of(v))]
            if not close(v["path_traffic"], e, 1e-3 + 1e-9 * e):
                bad.append("%r: path %s has path_traffic %r, expected %r" % (
                    d, [nm(x) for x in items_of(v)], v["path_traffic"], e))
            if "splits" in v:
                c = 1
                pre = {}
                for p in paths:
                    for k, x in enumerate(p):
                        pre.setdefault(tuple(id(y) for y in p[:k]), set()).add(id(x))
                for k, x in enumerate(items_of(v)):
                    c *= len(pre[tuple(id(y) for y in items_of(v)[:k])])
                    if v["splits"].get(x) != c:
                        bad.append("%r: %s has splits %r on path %s, expected %d" % (
                            d, nm(x), v["splits"].get(x), [nm(y) for y in items_of(v)], c))
        tot = sum(v["path_traffic"] for v in pd.values())
        if not close(tot, d.traffic, 1e-3 * len(pd) + 1e-9 * d.traffic):
            bad.append("%r: path_traffic values add up to %r" % (d, tot))
        touched = set()
        for p, s in zip(paths, sh):
            for x in p:
                for i in item_ints(x):
                    if id(i) in load:
                        load[id(i)] += s * d.traffic
                        touched.add(id(i))
        lsps = {id(x) for p in paths for x in p if is_lsp(x)}
        for k in touched:
            tol[k] += 0.051 + 0.051 * len(lsps) + 1e-4 * len(paths)
    for i in m.interface_objects:
        if up(i) and not close(i.traffic, load[id(i)], tol[id(i)] + 1e-9 * load[id(i)]):
            bad.append("%s has traffic %r, the demand shares crossing it add up to %r" % (nm(i), i.traffic, load[id(i)]))
    return bad


def c04(m):
    bad = []
    for d in m.demand_objects:
        if plist(d.path) is None:
            if d.path != "Unrouted":
                bad.append("%r has path %r" % (d, d.path))
            continue
        for p in d.path:
            for x in p:
                if not is_lsp(x) and not up(x):
                    bad.append("%r uses failed %s" % (d, nm(x)))
                elif is_lsp(x) and not routed(x):
                    bad.append("%r uses unrouted %s" % (d, nm(x)))
                elif is_lsp(x):
                    for i in x.path["interfaces"]:
                        if not up(i):
                            bad.append("%r uses failed %s inside %s" % (d, nm(i), nm(x)))
    for l in m.rsvp_lsp_objects:
        if routed(l):
            for i in l.path["interfaces"]:
                if not up(i):
                    bad.append("%s uses failed %s" % (nm(l), nm(i)))
        elif l.path != "Unrouted":
            bad.append("%s has path %r" % (nm(l), l.path))
    for i in m.interface_objects:
        if not up(i):
            if i.traffic != "Down" or i.utilization != "Int is down" or i.reserved_bandwidth != 0:
                bad.append("failed %s reports traffic %r, utilization %r, reserved bandwidth %r" % (
                    nm(i), i.traffic, i.utilization, i.reserved_bandwidth))
        elif not (isinstance(i.traffic, (int, float)) and i.traffic >= 0):
            bad.append("%s is up and has traffic %r" % (nm(i), i.traffic))
        elif not isinstance(i.utilization, (int, float)):
            bad.append("%s is up and has utilization %r" % (nm(i), i.utilization))
    return bad


def c05(m):
    bad = []
    tot = {id(i): 0.0 for i in m.interface_objects}
    for l in m.rsvp_lsp_objects:
        if routed(l):
            if not isinstance(l.reserved_bandwidth, (int, float)):
                bad.append("%s is routed and reserves %r" % (nm(l), l.reserved_bandwidth))
                continue
            for i in l.path["interfaces"]:
                if i.rsvp_enabled is not True:
                    bad.append("%s crosses %s, which is not rsvp-enabled" % (nm(l), nm(i)))
                if id(i) not in tot:
                    bad.append("%s crosses %s, which is not in the model" % (nm(l), nm(i)))
                    continue
                tot[id(i)] += l.reserved_bandwidth
    for i in m.interface_objects:
        r = i.reserved_bandwidth
        if not close(r, tot[id(i)], 0.0501):
            bad.append("%s reports reserved bandwidth %r, its LSPs reserve %r" % (nm(i), r, tot[id(i)]))
        if isinstance(r, (int, float)) and r > limit(i) + 0.1501:
            bad.append("%s has %r reserved, limit %r" % (nm(i), r, limit(i)))
        av = i.reservable_bandwidth
        exp = -1.0 if i.rsvp_enabled is not True else limit(i) - tot[id(i)]
        if not close(av, exp, 0.101):
            bad.append("%s reports reservable bandwidth %r, expected %r" % (nm(i), av, exp))
    return bad


def c07(m):
    bad = []
    for l in m.rsvp_lsp_objects:
        s, t = src(l), dst(l)
        if s == t:
            continue
        if not routed(l):
            if l.reserved_bandwidth != "Unrouted":
                bad.append("%s is unrouted and its reserved bandwidth reads %r" % (nm(l), l.reserved_bandwidth))
            continue
        c = l.configured_setup_bandwidth
        if c is not None:
            if l.reserved_bandwidth != c or l.setup_bandwidth != c:
                bad.append("%s is configured for %r but has setup %r, reserved %r" % (
                    nm(l), c, l.setup_bandwidth, l.reserved_bandwidth))
            continue
        g = group(m, s, t)
        r = [x for x in g if routed(x)]
        tr = sum(d.traffic for d in m.demand_objects if (src(d), dst(d)) == (s, t))
        ok = [tr / len(g)]
        if len(r) < len(g):
            ok.append(tr / len(r))
        if not any(close(l.reserved_bandwidth, x, 1e-6) for x in ok):
            bad.append("%s reserves %r, expected one of %r" % (nm(l), l.reserved_bandwidth, ok))
        elif not close(l.setup_bandwidth, l.reserved_bandwidth, 1e-6):
            bad.append("%s has setup bandwidth %r and reserves %r" % (nm(l), l.setup_bandwidth, l.reserved_bandwidth))
    return bad


def c06_state(m):
    """The part of C06 that the final state shows."""
    bad = []
    for l in m.rsvp_lsp_objects:
        if not routed(l):
            continue
        p = l.path["interfaces"]
        at = src(l)
        seen = [at]
        for i in p:
            if i.node_object.name != at:
                bad.append("%s: path %s is not connected" % (nm(l), [nm(x) for x in p]))
                break
            at = i.remote_node_object.name
            seen.append(at)
        if at != dst(l) or len(set(seen)) != len(seen):
            bad.append("%s: path %s does not lead loop-free to its destination" % (nm(l), [nm(x) for x in p]))
        if any(not up(i) or i.rsvp_enabled is not True for i in p):
            bad.append("%s: path %s uses a failed or non-rsvp interface" % (nm(l), [nm(x) for x in p]))
        if l.path["path_cost"] != sum(i.cost for i in p):
            bad.append("%s: path_cost %r, interface costs add up to %r" % (
                nm(l), l.path["path_cost"], sum(i.cost for i in p)))
    return bad


def c17(m):
    bad = []
    count = {id(i): 0 for i in m.interface_objects}
    cids = {}
    for i in m.interface_objects:
        cids.setdefault(i.circuit_id, []).append(i)
    for c in m.circuit_objects:
        a, b = c.interface_a, c.interface_b
        gi = c.get_circuit_interfaces(m)
        if set(map(id, gi)) != {id(a), id(b)} or len(gi) != 2:
            bad.append("circuit reports interfaces %r" % (gi,))
        for x in (a, b):
            if id(x) not in count:
                bad.append("circuit holds %s, which is not in the model" % nm(x))
            else:
                count[id(x)] += 1
        if not (a.node_object is b.remote_node_object and b.node_object is a.remote_node_object):
            bad.append("circuit joins %s and %s, which do not face each other" % (nm(a), nm(b)))
        if a.circuit_id != b.circuit_id or {id(x) for x in cids.get(a.circuit_id, ())} != {id(a), id(b)}:
            bad.append("circuit of %s and %s: circuit ids %r and %r, used by %s" % (
                nm(a), nm(b), a.circuit_id, b.circuit_id, [nm(x) for x in cids.get(a.circuit_id, ())]))
        if c.circuit_id() != a.circuit_id:
            bad.append("Circuit.circuit_id() is %r" % (c.circuit_id(),))
        if c.failed(m) != (a._failed or b._failed):
            bad.append("Circuit.failed() is %r" % (c.failed(m),))
    for i in m.interface_objects:
        if count[id(i)] != 1:
            bad.append("%s is in %d circuits" % (nm(i), count[id(i)]))
        r = i.get_remote_interface(m)
        e = [j for j in m.interface_objects
             if j.node_object is i.remote_node_object and j.remote_node_object is i.node_object
             and j.circuit_id == i.circuit_id]
        if len(e) != 1 or r is not e[0]:
            bad.append("the other end of %s is %s, expected %s" % (nm(i), nm(r), [nm(x) for x in e]))
        elif r.get_remote_interface(m) is not i:
            bad.append("the other end of the other end of %s is %s" % (nm(i), nm(r.get_remote_interface(m))))
        ck = i.get_circuit_object(m)
        if i is not ck.interface_a and i is not ck.interface_b:
            bad.append("get_circuit_object of %s returns another circuit" % nm(i))
        if ck is not m.get_circuit_object_from_interface(i.name, i.node_object.name):
            bad.append("get_circuit_object_from_interface of %s returns another circuit" % nm(i))
    return bad


def same(a, b):
    return sorted(map(id, a)) == sorted(map(id, b))


def c18(m):
    bad = []
    cross = {id(i): set() for i in m.interface_objects}
    lcross = {id(i): set() for i in m.interface_objects}
    on = {id(l): set() for l in m.rsvp_lsp_objects}
    riding = set()
    for d in m.demand_objects:
        if plist(d.path) is None:
            continue
        for p in d.path:
            for x in p:
                if is_lsp(x):
                    on.setdefault(id(x), set()).add(id(d))
                    riding.add(id(d))
                for i in item_ints(x):
                    cross.setdefault(id(i), set()).add(id(d))
    for l in m.rsvp_lsp_objects:
        if routed(l):
            for i in l.path["interfaces"]:
                lcross.setdefault(id(i), set()).add(id(l))
    before = full_state(m)
    for i in m.interface_objects:
        x = i.demands(m)
        if sorted(map(id, x)) != sorted(cross[id(i)]):
            bad.append("%s.demands() is %r" % (nm(i), x))
        x = i.lsps(m)
        if sorted(map(id, x)) != sorted(lcross[id(i)]):
            bad.append("%s.lsps() is %r" % (nm(i), x))
        u = i.utilization
        if i.traffic == "Down":
            if u != "Int is down":
                bad.append("%s.utilization is %r" % (nm(i), u))
        elif not close(u, i.traffic / i.capacity * 100, 0.00501):
            bad.append("%s.utilization is %r for traffic %r, capacity %r" % (nm(i), u, i.traffic, i.capacity))
    for l in m.rsvp_lsp_objects:
        x = l.demands_on_lsp(m)
        if sorted(map(id, x)) != sorted(on[id(l)]):
            bad.append("%s.demands_on_lsp() is %r" % (nm(l), x))
        if routed(l):
            exp = 0.0
            for d in m.demand_objects:
                if plist(d.path) is not None:
                    for p, s in zip(d.path, shares(d.path)):
                        if any(y is l for y in p):
                            exp += s * d.traffic
            x = l.traffic_on_lsp(m)
            if not close(x, exp, 1e-3 + 1e-9 * exp):
                bad.append("%s.traffic_on_lsp() is %r, expected %r" % (nm(l), x, exp))
    r = m.simulation_diagnostics()
    w = [l for l in m.rsvp_lsp_objects if routed(l) and on[id(l)]]
    wo = [l for l in m.rsvp_lsp_objects if routed(l) and not on[id(l)]]
    un = [l for l in m.rsvp_lsp_objects if not routed(l)]
    und = [d for d in m.demand_objects if plist(d.path) is None]
    exp = {"Number of routed LSPs carrying Demands": len(w), "Number of routed LSPs with no Demands": len(wo),
           "Number of Demands riding LSPs": len(riding),
           "Number of Demands not riding LSPs": len(m.demand_objects) - len(riding),
           "Number of unrouted LSPs": len(un), "Number of unrouted Demands": len(und)}
    for k, v in exp.items():
        if r.get(k) != v:
            bad.append("diagnostics: %s is %r, expected %d" % (k, r.get(k), v))
    for k, v in (("routed LSPs with no demands generator", wo), ("routed LSPs with demands generator", w)):
        if not same(list(r[k]), v):
            bad.append("diagnostics: wrong %s" % k)
    if sorted(map(id, r["demands riding LSPs generator"])) != sorted(riding):
        bad.append("diagnostics: wrong demands riding LSPs generator")
    if not same(m.get_unrouted_demand_objects(), und):
        bad.append("get_unrouted_demand_objects is %r" % m.get_unrouted_demand_objects())
    if not same(m.get_failed_interface_objects(), [i for i in m.interface_objects if i._failed]):
        bad.append("get_failed_interface_objects is wrong")
    if not same(m.get_unfailed_interface_objects(), [i for i in m.interface_objects if not i._failed]):
        bad.append("get_unfailed_interface_objects is wrong")
    if not same(m.get_failed_node_objects(), [i for i in m.node_objects if i._failed]):
        bad.append("get_failed_node_objects is wrong")
    if not same(m.get_non_failed_node_objects(), [i for i in m.node_objects if not i._failed]):
        bad.append("get_non_failed_node_objects is wrong")
    orph = [n for n in m.node_objects if not any(i.node_object.name == n.name for i in m.interface_objects)]
    if not same(m.get_orphan_node_objects(), orph):
        bad.append("get_orphan_node_objects is wrong")
    for n in m.node_objects:
        if not same(m.get_demand_objects_source_node(n.name), [d for d in m.demand_objects if src(d) == n.name]):
            bad.append("get_demand_objects_source_node(%r) is wrong" % n.name)
        if not same(m.get_demand_objects_dest_node(n.name), [d for d in m.demand_objects if dst(d) == n.name]):
            bad.append("get_demand_objects_dest_node(%r) is wrong" % n.name)
        if m.is_node_an_orphan(n) != any(n is o for o in orph):
            bad.append("is_node_an_orphan(%r) is wrong" % n.name)
        if not same(n.interfaces(m), [i for i in m.interface_objects if i.node_object is n]):
            bad.append("Node.interfaces of %r is wrong" % n.name)
        if not same(m.get_node_interfaces(n.name), [i for i in m.interface_objects if i.node_object is n]):
            bad.append("get_node_interfaces(%r) is wrong" % n.name)
        if not same(n.adjacent_nodes(m), {id(i.remote_node_object): i.remote_node_object
                                          for i in m.interface_objects if i.node_object is n}.values()):
            bad.append("Node.adjacent_nodes of %r is wrong" % n.name)
    if m.all_interface_circuit_ids != {i.circuit_id for i in m.interface_objects}:
        bad.append("all_interface_circuit_ids is wrong")
    if full_state(m) != before:
        bad.append("a report changed the model")
    return bad


def full_state(m):
    """All state a report must leave alone (the cache of LSP groups and the
    reading of a configured metric are not observable)."""
    from ref import manual, snapshot_inputs
    s = snapshot_inputs(m)
    s["res"] = {id(i): (i.traffic, i._reserved_bandwidth, i.circuit_id) for i in m.interface_objects}
    s["dp"] = {id(d): (repr(d.path), repr(d._path_detail)) for d in m.demand_objects}
    s["lp"] = {id(d): (repr(d.path), d.reserved_bandwidth, d._setup_bandwidth) for d in m.rsvp_lsp_objects}
    s["ck"] = sorted(map(id, m.circuit_objects))
    return s


def c19(m):
    bad = []
    if not is_flex(m):
        return bad
    sc = {n.name for n in m.node_objects if n._igp_shortcuts_enabled is True}
    for d in m.demand_objects:
        s, t = src(d), dst(d)
        if s == t:
            continue
        e2e = best_lsps(m, s, t)
        ps = plist(d.path)
        if ps is None:
            if e2e or min_cost([i for i in m.interface_objects if up(i)], s, t) is not None:
                bad.append("%r is %r although a path exists" % (d, d.path))
            continue
        for p in ps:
            at = s
            for x in p:
                if start(x) != at:
                    bad.append("%r: path %s is broken at %s" % (d, [nm(y) for y in p], nm(x)))
                    break
                at = end(x)
                if is_lsp(x) and (src(x), dst(x)) != (s, t):
                    if not routed(x):
                        bad.append("%r uses unrouted %s" % (d, nm(x)))
                    elif not any(x is y for y in best_lsps(m, src(x), dst(x))):
                        bad.append("%r uses %s, which is not a lowest-metric LSP" % (d, nm(x)))
                    if src(x) not in sc:
                        bad.append("%r uses %s, whose head end has no IGP shortcuts" % (d, nm(x)))
            else:
                if at != t:
                    bad.append("%r: path %s ends at %s" % (d, [nm(y) for y in p], at))
        if e2e:
            continue
        exp, used = shortcut_paths(m, s, t)
        if ids(ps) != ids(exp):
            bad.append("%r has paths %s, expected %s" % (d, nms(ps), nms(exp)))
    return bad


def c20(m):
    bad = []
    for l in m.rsvp_lsp_objects:
        if src(l) == dst(l):
            continue
        exp = metric(m, l)
        got = l.effective_metric(m)
        if got != exp or isinstance(got, str) != isinstance(exp, str):
            bad.append("%s: effective metric %r, expected %r" % (nm(l), got, exp))
        t = l.topology_metric(m)
        e = sum(i.cost for i in l.path["interfaces"]) if routed(l) else "Unrouted"
        if t != e:
            bad.append("%s: topology metric %r, expected %r" % (nm(l), t, e))
    return bad
