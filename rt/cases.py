"""Per-property case generators (gen_<id>) and runners (run_<id>): a case is a
JSON-able dict, a runner returns the list of violations it shows."""
import copy
import os
import random
import shutil
import tempfile

import build as B
import ref as R
import sim_oracles as S
from build import ModelException, apply_op, find_dmd, find_int, find_lsp, find_node, find_srlg, is_flex, quiet, remote
from gen import gen, gen_ops

SIM = {"C01": S.c01, "C02": S.c02, "C03": S.c03, "C04": S.c04, "C05": S.c05, "C07": S.c07, "C17": S.c17,
       "C18": S.c18, "C19": S.c19, "C20": S.c20}


# ---------------------------------------------------------------- histories
def applicable(m, op):
    """The preconditions of the operations (see DESIGN.md)."""
    k, a = op[0], op[1:]
    if k in ("fail_int", "unfail_int", "set_cost", "set_cap", "set_pct", "set_rsvp", "ifail", "iunfail"):
        i = find_int(m, a[0], a[1])
        if i is None:
            return False
        if k in ("unfail_int", "iunfail"):
            return bool(i._failed) or not m.rsvp_lsp_objects
        return True
    if k in ("fail_node", "unfail_node", "shortcut"):
        n = find_node(m, a[0])
        if n is None:
            return False
        if k == "unfail_node":
            return n._failed or not m.rsvp_lsp_objects
        return True
    if k in ("fail_srlg", "unfail_srlg"):
        s = find_srlg(m, a[0])
        return s is not None and (k == "fail_srlg" or s._failed or not m.rsvp_lsp_objects)
    if k in ("srlg_add_node", "srlg_add_int"):
        s = find_srlg(m, a[0])
        x = find_node(m, a[1]) if k == "srlg_add_node" else find_int(m, a[1], a[2])
        return x is not None and (s is None or not s._failed)
    if k in ("srlg_rm_node", "srlg_rm_int"):
        s = find_srlg(m, a[0])
        x = find_node(m, a[1]) if k == "srlg_rm_node" else find_int(m, a[1], a[2])
        return s is not None and x is not None and s in x._srlgs
    if k == "add_demand":
        return find_dmd(m, a[0], a[1], a[3]) is None
    if k in ("rm_demand", "set_traffic"):
        return find_dmd(m, *a[:3]) is not None
    if k == "add_lsp":
        return find_lsp(m, *a[:3]) is None
    if k in ("rm_lsp", "lsp_metric", "lsp_cfg"):
        return find_lsp(m, *a[:3]) is not None
    if k == "add_circuit":
        x, y = find_node(m, a[0]), find_node(m, a[1])
        return (x is not None and y is not None and not x._failed and not y._failed
                and find_int(m, a[0], a[2]) is None and find_int(m, a[1], a[3]) is None)
    if k == "rename_int":
        return find_int(m, a[0], a[1]) is not None and find_int(m, a[0], a[2]) is None
    return True


def history(case, check, each_op=None):
    """Builds the model, updates it, applies the history with updates in
    between, and runs check(m) after every update."""
    m = B.build(case)
    random.seed(case.get("seed", 0))
    exc, _ = apply_op(m, ["update"])
    if exc is not None:
        return ["update_simulation of a valid model raises %s: %s" % (type(exc).__name__, str(exc)[:300])]
    bad = ["initially: " + x for x in check(m)]
    for n, op in enumerate(case.get("ops", ())):
        if bad:
            break
        if not applicable(m, op):
            continue
        if each_op:
            bad = each_op(m, op)
            if bad:
                return ["op %d %r: %s" % (n, op, x) for x in bad]
        else:
            apply_op(m, op)
            if n in case.get("batch", ()):
                continue
        exc, _ = apply_op(m, ["update"])
        if exc is not None:
            return ["update_simulation after op %d %r raises %s: %s" % (n, op, type(exc).__name__, str(exc)[:300])]
        bad = ["after op %d %r: %s" % (n, op, x) for x in check(m)]
    return bad


def batch(rng, c):
    """Ops after which the next op follows without an update between."""
    if len(c["ops"]) > 1 and rng.random() < 0.4:
        c["batch"] = [n for n in range(len(c["ops"]) - 1) if rng.random() < 0.6]
    return c


def gen_chain(rng):
    """A chain with side branches on which several LSPs can serve as IGP
    shortcuts one after the other."""
    n = rng.randint(4, 7)
    names = rng.choice([list("ABCDEFGH"), list("HGFEDCBA"), ["n%d" % x for x in range(8)]])[:n]
    c = {"cls": "F", "links": [], "demands": [], "lsps": [], "nodes": [
        {"name": x, "lat": 0, "lon": 0, "sc": rng.random() < rng.choice([0.5, 0.9, 1])} for x in names]}

    def add(a, b, cost):
        k = len(c["links"])
        c["links"].append({"a": a, "b": b, "na": "%s%s_%d" % (a, b, k), "nb": "%s%s_%d" % (b, a, k), "ca": cost,
                           "cb": cost, "cap": 1000, "cid": k})
    for a, b in zip(names, names[1:]):
        add(a, b, rng.choice([1, 1, 2]))
        if rng.random() < 0.15:
            add(a, b, c["links"][-1]["ca"])
    for _ in range(rng.choice([0, 0, 1, 2])):
        a, b = rng.sample(range(n), 2)
        add(names[a], names[b], abs(a - b) + rng.choice([0, 0, 1]))
    for x in range(rng.randint(2, 7)):
        a, b = sorted(rng.sample(range(n), 2))
        c["lsps"].append([names[a], names[b], "s%d" % x, rng.choice([None, 1]),
                          rng.choice([None, None, None, b - a, 1, 3, 40])])
    for x in range(rng.randint(1, 2)):
        a, b = (0, n - 1) if rng.random() < 0.6 else sorted(rng.sample(range(n), 2))
        c["demands"].append([names[a], names[b], rng.choice([1, 10, 33.3]), "d%d" % x])
    return c


def sim_gen(pid):
    def g(rng, k):
        kw = {}
        if pid == "C19" and rng.random() < 0.4:
            c = gen_chain(rng)
            c["seed"] = rng.randint(0, 10 ** 6)
            c["ops"] = gen_ops(rng, c, rng.choice([0, 0, 0, 1]), srlg=False)
            return c
        if pid in ("C01", "C03") and rng.random() < 0.6:
            kw = dict(tie=True, dense=rng.choice([0.4, 0.6, 0.9]))
        if pid == "C01":
            kw["lsps"] = rng.random() < 0.4
        if pid == "C19":
            kw.update(cls="F", shortcuts=rng.choice([0.3, 0.5, 0.8, 1]), minn=3)
            if rng.random() < 0.6:
                kw["tie"] = True
        if pid in ("C02", "C05", "C07", "C20"):
            kw["maxn"] = rng.choice([3, 4, 6])
        c = gen(rng, **kw)
        if pid == "C19":
            names = [n["name"] for n in c["nodes"]]
            for x in range(rng.randint(1, 5)):
                a, b = rng.sample(names, 2)
                c["lsps"].append([a, b, "s%d" % x, rng.choice([None, 1]), rng.choice([None, None, 10, 3, 40])])
        c["seed"] = rng.randint(0, 10 ** 6)
        fail = pid not in ("C07",) or rng.random() < 0.3
        c["ops"] = gen_ops(rng, c, rng.choice([0, 0, 1, 2, 4]), failures=fail, srlg=rng.random() < 0.3)
        return batch(rng, c)
    return g


def sim_run(pid):
    def r(case):
        def check(m):
            with quiet():
                return SIM[pid](m)
        return history(case, check)
    return r


# ---------------------------------------------------------------- C06
class Watch:
    """Records the ledger and LSP state changes of an update."""

    def __init__(self, m):
        self.m = m
        self.ev = []

    def __enter__(self):
        ev = self.ev

        def mk(cls, attrs):
            def sa(obj, name, value):
                object.__setattr__(obj, name, value)
                if name in attrs:
                    ev.append((obj, name, value))
            return sa
        B.Interface.__setattr__ = mk(B.Interface, ("_reserved_bandwidth",))
        B.RSVP_LSP.__setattr__ = mk(B.RSVP_LSP, ("path", "_setup_bandwidth", "reserved_bandwidth"))
        return self

    def __exit__(self, *a):
        del B.Interface.__setattr__
        del B.RSVP_LSP.__setattr__


def c06_update(m):
    """Runs update_simulation and decides C06 from what it recorded."""
    led0 = {id(i): i._reserved_bandwidth for i in m.interface_objects}
    with Watch(m) as w:
        exc, _ = apply_op(m, ["update"])
    if exc is not None:
        return ["update_simulation raises %s: %s" % (type(exc).__name__, str(exc)[:300])]
    bad = S.c06_state(m)
    if bad:
        return bad
    # ledger snapshots, from the last moment all reservations were cleared
    led = dict(led0)
    snaps = []
    res = {}
    for obj, name, val in w.ev:
        if name == "_reserved_bandwidth":
            if id(obj) in led:
                led[id(obj)] = val
                snaps.append((dict(led), None, None, None))
        elif name == "path":
            snaps.append((dict(led), obj, val, dict(res)))
        elif name == "reserved_bandwidth":
            res[id(obj)] = val
    uniq = []
    seen = set()
    clear = {k: 0 for k in led0}
    for lg in [clear] + [s[0] for s in snaps]:
        t = tuple(sorted(lg.items()))
        if t not in seen:
            seen.add(t)
            uniq.append(lg)
    # snapshots that belong to an earlier update must not count
    if any(v != 0 for v in led0.values()):
        reset = next((k for k, s in enumerate(snaps) if all(v == 0 for v in s[0].values())), None)
        if reset is not None:
            seen, uniq = set(), []
            for s in snaps[reset:]:
                t = tuple(sorted(s[0].items()))
                if t not in seen:
                    seen.add(t)
                    uniq.append(s[0])
    ints = [i for i in m.interface_objects if R.up(i) and i.rsvp_enabled is True]
    byid = {id(i): i for i in m.interface_objects}

    def avail(i, lg, own=()):
        r = R.limit(i) - round(lg[id(i)], 1)
        return round(r, 1) + (own[1] if own and id(i) in own[0] else 0)

    for l in m.rsvp_lsp_objects:
        s, t = R.src(l), R.dst(l)
        if s == t:
            continue
        bw = l.setup_bandwidth
        if not isinstance(bw, (int, float)):
            bad.append("%s has setup bandwidth %r" % (R.nm(l), bw))
            continue
        if not R.routed(l):
            ok = False
            for lg in reversed(uniq):
                if any(avail(i, lg) < 0 for i in ints) and bw == 0:
                    ok = True
                    break
                if R.min_cost([i for i in ints if avail(i, lg) >= bw - 1e-9], s, t) is None or \
                        R.min_cost([i for i in ints if avail(i, lg) >= bw + 1e-9], s, t) is None:
                    ok = True
                    break
            if not ok:
                bad.append("%s (setup bandwidth %r) is unrouted although a path with enough reservable bandwidth "
                           "existed throughout" % (R.nm(l), bw))
            continue
        p = l.path["interfaces"]
        cost = sum(i.cost for i in p)
        resig = l.configured_setup_bandwidth is None and any(
            not R.routed(x) for x in R.group(m, s, t))
        owns = [()]
        if resig:
            n = len(R.group(m, s, t))
            tr = sum(d.traffic for d in m.demand_objects if (R.src(d), R.dst(d)) == (s, t))
            for _, obj, val, rs in snaps:
                if obj is l and isinstance(val, dict) and val.get("interfaces"):
                    owns.append(({id(i) for i in val["interfaces"]}, tr / n))
        ok = False
        why = ""
        for lg in uniq:
            for own in owns:
                good = [i for i in ints if avail(i, lg, own) >= bw - 1e-9]
                if any(avail(i, lg, own) < bw - 1e-9 for i in p):
                    continue
                if bw == 0 and any(avail(i, lg, own) < 0 for i in ints):
                    ok = True
                    break
                c = R.min_cost(good, s, t)
                if c != cost:
                    why = "cost %r, best %r" % (cost, c)
                    continue
                if not own and len(p) != min(len(q) for q in R.min_paths(good, s, t)):
                    why = "has %d hops, fewest of that cost %d" % (
                        len(p), min(len(q) for q in R.min_paths(good, s, t)))
                    continue
                base = l.path["baseline_path_reservable_bw"]
                if abs(base - min(avail(i, lg, own) for i in p)) > 1e-6:
                    why = "baseline %r, smallest reservable bandwidth %r" % (
                        base, min(avail(i, lg, own) for i in p))
                    continue
                ok = True
                break
            if ok:
                break
        if not ok:
            bad.append("%s (setup bandwidth %r) takes %s: at no moment of the update a best path (%s)" % (
                R.nm(l), bw, [R.nm(i) for i in p], why or "not enough reservable bandwidth"))
    return bad


def gen_C06(rng, k):
    c = gen(rng, tie=rng.random() < 0.5, maxn=rng.choice([3, 4, 5, 6]), minn=3, dense=rng.choice([None, 0.5, 0.9]))
    names = [n["name"] for n in c["nodes"]]
    for x in range(rng.randint(0, 3)):
        a, b = rng.sample(names, 2)
        c["lsps"].append([a, b, "s%d" % x, rng.choice([None, 10, 60, 100]), None])
    c["seed"] = rng.randint(0, 10 ** 6)
    c["ops"] = gen_ops(rng, c, rng.choice([0, 0, 1, 2]), srlg=False)
    return c


def run_C06(case):
    m = B.build(case)
    random.seed(case.get("seed", 0))
    bad = c06_update(m)
    for n, op in enumerate(case.get("ops", ())):
        if bad:
            return bad
        if not applicable(m, op):
            continue
        apply_op(m, op)
        bad = ["after op %d %r: %s" % (n, op, x) for x in c06_update(m)]
    return bad


# ---------------------------------------------------------------- C08
def rebuild(m, cls):
    """A fresh model with the content of m, made from its attributes only."""
    nodes = {}
    for n in m.node_objects:
        x = B.Node(n.name, n._lat, n._lon)
        x._igp_shortcuts_enabled = n._igp_shortcuts_enabled
        x._failed = n._failed
        nodes[n.name] = x
    ints = set()
    for i in m.interface_objects:
        x = B.Interface(i.name, i._cost, i._capacity, nodes[i.node_object.name], nodes[i.remote_node_object.name],
                        i.circuit_id, i.rsvp_enabled, i.percent_reservable_bandwidth)
        x._failed = i._failed
        ints.add(x)
    dm = {B.Demand(nodes[R.src(d)], nodes[R.dst(d)], d.traffic, d.name) for d in m.demand_objects}
    ls = {B.RSVP_LSP(nodes[R.src(d)], nodes[R.dst(d)], d.lsp_name, d.configured_setup_bandwidth, R.manual(d))
          for d in m.rsvp_lsp_objects}
    return B.CLASSES[cls](ints, set(nodes.values()), dm, ls)


def results(m):
    k = lambda x: R.nm(x)  # noqa
    out = {}
    for i in m.interface_objects:
        out["int", k(i)] = (i.traffic, i.reserved_bandwidth)
    for d in m.demand_objects:
        p = S.plist(d.path)
        out["dmd", R.src(d), R.dst(d), d.name] = R.nms(p) if p is not None else d.path
        pd = d.path_detail
        out["pd", R.src(d), R.dst(d), d.name] = sorted(
            ([k(x) for x in S.items_of(v)], round(v["path_traffic"], 6)) for v in pd.values()) \
            if isinstance(pd, dict) else pd
    for l in m.rsvp_lsp_objects:
        out["lsp", k(l)] = ([k(x) for x in l.path["interfaces"]] if R.routed(l) else l.path, l.reserved_bandwidth)
    return out


def unique_lsp_outcome(m):
    """No LSP had a choice between equally good paths or competed for
    bandwidth: the LSP results are determined by the content of the model."""
    ints = [i for i in m.interface_objects if R.up(i) and i.rsvp_enabled is True]
    for l in m.rsvp_lsp_objects:
        if R.src(l) == R.dst(l):
            return False
        ps = R.min_paths(ints, R.src(l), R.dst(l))
        h = min((len(p) for p in ps), default=0)
        if len([p for p in ps if len(p) == h]) > 1:
            return False
    need = {}
    for l in m.rsvp_lsp_objects:
        g = R.group(m, R.src(l), R.dst(l))
        tr = sum(d.traffic for d in m.demand_objects if (R.src(d), R.dst(d)) == (R.src(l), R.dst(l)))
        bw = l.configured_setup_bandwidth if l.configured_setup_bandwidth is not None else tr / len(g)
        for i in ints:
            need[id(i)] = need.get(id(i), 0) + bw
    return all(need.get(id(i), 0) <= R.limit(i) - 0.5 for i in ints)


def close_results(a, b):
    def eq(x, y):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return abs(x - y) <= 0.11 + 1e-9 * abs(x)
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            return len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        return x == y
    return [k for k in sorted(set(a) | set(b), key=repr) if not eq(a.get(k), b.get(k))]


def gen_C08(rng, k):
    c = gen(rng, maxn=5)
    if rng.random() < 0.4:
        for l in c["links"]:
            l["cap"], l["pct"], l["rsvp"] = 100000, 100, True
    if rng.random() < 0.4:
        c["lsps"] = []
    c["seed"] = rng.randint(0, 10 ** 6)
    c["ops"] = gen_ops(rng, c, rng.choice([1, 2, 4, 6]), srlg=rng.random() < 0.3)
    if c["lsps"] and rng.random() < 0.3:
        # replace an LSP by another one
        x = rng.choice(c["lsps"])
        y = rng.choice(c["lsps"])[:2] if rng.random() < 0.3 else rng.sample([n["name"] for n in c["nodes"]], 2)
        c["ops"] = [["rm_lsp", *x[:3]], ["add_lsp", *y, "new"]] + c["ops"][:2]
        c["batch"] = [0]
        return c
    return batch(rng, c)


def run_C08(case):
    def check(m):
        bad = []
        with quiet():
            for p in ("C01", "C02", "C03", "C04", "C05", "C07", "C19", "C20"):
                bad += SIM[p](m)
            bad += S.c06_state(m)
        if bad:
            return bad
        # a second update changes no input ...
        a = R.snapshot_inputs(m)
        exc, _ = apply_op(m, ["update"])
        if exc is not None:
            return ["a second update_simulation raises %s: %s" % (type(exc).__name__, str(exc)[:200])]
        b = R.snapshot_inputs(m)
        for k in a:
            if a[k] != b[k]:
                bad.append("update_simulation changed the model's %s: %r -> %r" % (
                    k, [v for x, v in a[k].items() if b[k].get(x) != v],
                    [v for x, v in b[k].items() if a[k].get(x) != v]))
        if bad:
            return bad
        # ... and gives the results of a fresh model with the same content
        if unique_lsp_outcome(m):
            f = rebuild(m, case["cls"])
            exc, _ = apply_op(f, ["update"])
            if exc is not None:
                return ["update_simulation of a fresh equal model raises %s: %s" % (
                    type(exc).__name__, str(exc)[:200])]
            x, y = results(m), results(f)
            for k in close_results(x, y):
                bad.append("%r is %r, in a fresh equal model %r" % (k, x.get(k), y.get(k)))
        return bad
    return history(case, check)


# ---------------------------------------------------------------- C09 C10 C11
class Fail:
    """Reference failure semantics."""

    def __init__(self, m):
        self.nodes = {n.name: n._failed for n in m.node_objects}
        self.ints = {(i.node_object.name, i.name): i._failed for i in m.interface_objects}
        self.other = {}
        self.ends = {}
        for i in m.interface_objects:
            r = remote(m, i)
            self.other[i.node_object.name, i.name] = (r.node_object.name, r.name)
            self.ends[i.node_object.name, i.name] = (i.node_object.name, i.remote_node_object.name)
        self.srlgs = {s.name: s._failed for s in m.srlg_objects}
        self.nmem = {s.name: {n.name for n in m.node_objects if s in n._srlgs} for s in m.srlg_objects}
        self.imem = {s.name: {(i.node_object.name, i.name) for i in m.interface_objects if s in i._srlgs}
                     for s in m.srlg_objects}

    def state(self):
        return {"nodes": dict(self.nodes), "ints": dict(self.ints), "srlgs": dict(self.srlgs)}

    def blocked_i(self, i):
        return any(self.srlgs[s] and (i in mm or self.other[i] in mm) for s, mm in self.imem.items())

    def blocked_n(self, n):
        return any(self.srlgs[s] and n in mm for s, mm in self.nmem.items())

    def can_up(self, i):
        return not any(self.nodes[x] for x in self.ends[i]) and not self.blocked_i(i)

    def circ_up(self, i):
        self.ints[i] = self.ints[self.other[i]] = False

    def do(self, op):
        """Expected exception: True (must raise), False (must not), None."""
        k, a = op[0], op[1:]
        if k in ("fail_int", "ifail"):
            i = (a[0], a[1])
            self.ints[i] = self.ints[self.other[i]] = True
            return False
        if k in ("unfail_int", "iunfail"):
            i = (a[0], a[1])
            if self.can_up(i):
                self.circ_up(i)
                return False
            if (len(a) > 2 and a[2]) or k == "iunfail":
                return True
            return None if self.blocked_i(i) else False
        if k == "fail_node":
            self._fail_node(a[0])
            return False
        if k == "unfail_node":
            if self.blocked_n(a[0]):
                return True
            self._unfail_node(a[0])
            return False
        if k == "fail_srlg":
            for n in self.nmem[a[0]]:
                self._fail_node(n)
            for i in self.imem[a[0]]:
                self.ints[i] = self.ints[self.other[i]] = True
            self.srlgs[a[0]] = True
            return False
        if k == "unfail_srlg":
            self.srlgs[a[0]] = False
            ok = [n for n in self.nmem[a[0]] if not self.blocked_n(n)]
            for n in ok:
                self.nodes[n] = False
            for n in ok:
                self._unfail_node(n)
            for i in self.imem[a[0]]:
                if self.can_up(i):
                    self.circ_up(i)
            return False
        if k == "srlg_add_node":
            self.srlgs.setdefault(a[0], False)
            self.nmem.setdefault(a[0], set()).add(a[1])
            self.imem.setdefault(a[0], set())
            return False
        if k == "srlg_add_int":
            self.srlgs.setdefault(a[0], False)
            self.nmem.setdefault(a[0], set())
            self.imem.setdefault(a[0], set()).update([(a[1], a[2]), self.other[a[1], a[2]]])
            return False
        if k == "srlg_rm_node":
            self.nmem[a[0]].discard(a[1])
            return None
        if k == "srlg_rm_int":
            self.imem[a[0]] -= {(a[1], a[2]), self.other[a[1], a[2]]}
            return None

    def _fail_node(self, n):
        self.nodes[n] = True
        for i, e in self.ends.items():
            if n in e:
                self.ints[i] = True

    def _unfail_node(self, n):
        self.nodes[n] = False
        for i, e in self.ends.items():
            if n in e and self.can_up(i):
                self.circ_up(i)


def fail_op(m, op):
    f = Fail(m)
    want = f.do(op)
    exc, _ = apply_op(m, op)
    bad = []
    if want is True and exc is None:
        bad.append("no error is reported")
    if want is False and exc is not None:
        bad.append("raises %s: %s" % (type(exc).__name__, str(exc)[:200]))
    if exc is not None and want is not False and not isinstance(exc, ModelException):
        bad.append("raises %s: %s" % (type(exc).__name__, str(exc)[:200]))
    got, exp = R.failures(m), f.state()
    if op[0] not in ("srlg_rm_node", "srlg_rm_int"):
        for k in exp:
            for x in sorted(set(exp[k]) | set(got[k]), key=repr):
                if exp[k].get(x) != got[k].get(x):
                    bad.append("%s %r: failed is %r, expected %r" % (k[:-1], x, got[k].get(x), exp[k].get(x)))
    for s in m.srlg_objects:
        nm = {n.name for n in s.node_objects}
        im = {(i.node_object.name, i.name) for i in s.interface_objects}
        if nm != f.nmem.get(s.name, set()) or im != f.imem.get(s.name, set()):
            bad.append("SRLG %r has members %r %r, expected %r %r" % (s.name, nm, im, f.nmem.get(s.name),
                                                                     f.imem.get(s.name)))
        if any((s in n.srlgs) != (n.name in nm) for n in m.node_objects) or any(
                (s in i.srlgs) != ((i.node_object.name, i.name) in im) for i in m.interface_objects):
            bad.append("membership of SRLG %r differs between the SRLG and its members" % s.name)
    for i in m.interface_objects:
        r = remote(m, i)
        if op[0] not in ("srlg_rm_int",) and r is not None and i._failed != r._failed:
            bad.append("%s is failed=%r and its other end failed=%r" % (R.nm(i), i._failed, r._failed))
        if i._failed and i._reserved_bandwidth != 0 and op[0] != "update":
            bad.append("%s is failed and reserves %r" % (R.nm(i), i._reserved_bandwidth))
    return bad


def failures_gen(pid):
    def g(rng, k):
        c = gen(rng, maxn=rng.choice([3, 4, 5, 6]), lsps=rng.random() < 0.4)
        c["seed"] = rng.randint(0, 10 ** 6)
        names = [x["name"] for x in c["nodes"]]
        ints = [(l["a"], l["na"]) for l in c["links"]] + [(l["b"], l["nb"]) for l in c["links"]]
        ops = []
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if pid == "C11" and r < 0.55 or r < 0.25:
                o = rng.choice(["srlg_add_node", "srlg_add_int", "srlg_add_int", "fail_srlg", "fail_srlg",
                                "unfail_srlg", "unfail_srlg", "srlg_rm_node", "srlg_rm_int"])
                s = rng.choice(["s1", "s2", "s3"])
                if o in ("fail_srlg", "unfail_srlg"):
                    ops.append([o, s])
                elif o.endswith("node"):
                    ops.append([o, s, rng.choice(names)])
                elif ints:
                    ops.append([o, s, *rng.choice(ints)])
            elif pid == "C10" and r < 0.75 or r < 0.45:
                ops.append([rng.choice(["fail_node", "unfail_node"]), rng.choice(names)])
            elif ints:
                o = rng.choice(["fail_int", "unfail_int", "unfail_int", "ifail"])
                x = rng.choice(ints)
                ops.append([o, *x] + ([rng.choice([True, False])] if o == "unfail_int" and rng.random() < 0.7 else []))
        if ints and rng.random() < {"C11": 0.5, "C10": 0.2}.get(pid, 0.1):
            # overlapping SRLGs with several members each, failed and restored
            ops = []
            for _ in range(rng.randint(2, 7)):
                s = rng.choice(["s1", "s1", "s2"])
                ops.append(["srlg_add_node", s, rng.choice(names)] if rng.random() < 0.3 else
                           ["srlg_add_int", s, *rng.choice(ints)])
            down = [["fail_srlg", "s1"]] + rng.sample([["fail_srlg", "s2"], ["fail_node", rng.choice(names)],
                                                       ["fail_int", *rng.choice(ints)]], rng.randint(1, 3))
            rng.shuffle(down)
            up = [["unfail_srlg", "s1"], ["unfail_srlg", "s2"], ["unfail_node", rng.choice(names)],
                  ["unfail_int", *rng.choice(ints)]]
            rng.shuffle(up)
            ops += down + up
        c["ops"] = ops
        c["upd"] = [rng.random() < 0.5 for _ in ops]
        return c
    return g


def run_failures(case):
    m = B.build(case)
    random.seed(case.get("seed", 0))
    exc, _ = apply_op(m, ["update"])
    if exc is not None:
        return ["update_simulation of a valid model raises %s: %s" % (type(exc).__name__, str(exc)[:300])]
    for n, (op, u) in enumerate(zip(case["ops"], case["upd"])):
        if not applicable(m, op):
            continue
        with quiet():
            bad = fail_op(m, op)
        if bad:
            return ["op %d %r: %s" % (n, op, x) for x in bad]
        if u or m.rsvp_lsp_objects:
            before = R.failures(m)
            exc, _ = apply_op(m, ["update"])
            if exc is not None:
                return ["update_simulation after op %d %r raises %s: %s" % (n, op, type(exc).__name__, str(exc)[:300])]
            if R.failures(m) != before:
                return ["update_simulation after op %d %r changed failure states" % (n, op)]
    return []
