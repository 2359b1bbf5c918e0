"""Cases and runners of C12 - C16."""
import copy
import os
import random
import shutil
import tempfile

import build as B
import ref as R
from build import ModelException, apply_op, find_dmd, find_int, find_lsp, find_node, find_srlg, is_flex, quiet, remote
from cases import applicable
from gen import gen, gen_ops


def exc_name(e):
    return "%s: %s" % (type(e).__name__, str(e)[:160]) if e is not None else "no error"


# ---------------------------------------------------------------- C12
def objs(m):
    """The model's objects and what identifies them."""
    return {"nodes": {id(n): n.name for n in m.node_objects},
            "ints": {id(i): (i.node_object.name, i.name, i.remote_node_object.name, i._cost, i._capacity)
                     for i in m.interface_objects},
            "dmds": {id(d): (R.src(d), R.dst(d), d.name, d.traffic) for d in m.demand_objects},
            "lsps": {id(d): (R.src(d), R.dst(d), d.lsp_name) for d in m.rsvp_lsp_objects},
            "srlgs": {id(s): s.name for s in m.srlg_objects}}


def lookups(m, rng):
    """Every key of the model and near misses of each."""
    bad = []
    nn = [n.name for n in m.node_objects] + ["nope", "A", "B", ""]
    inn = list({i.name for i in m.interface_objects}) + ["nope"]

    def one(what, f, exp, err=(ModelException,)):
        try:
            with quiet():
                v = f()
            e = None
        except Exception as x:
            v, e = None, x
        if exp is None:
            if not (isinstance(e, err)):
                bad.append("%s: expected an error, got %s" % (what, exc_name(e) if e else repr(v)))
        elif e is not None:
            bad.append("%s raises %s" % (what, exc_name(e)))
        elif v is not exp:
            bad.append("%s is %r, expected %r" % (what, v, exp))
    for a in nn:
        one("get_node_object(%r)" % a, lambda: m.get_node_object(a), find_node(m, a))
        for i in inn:
            one("get_interface_object(%r, %r)" % (i, a), lambda: m.get_interface_object(i, a), find_int(m, a, i))
            ck = None
            x = find_int(m, a, i)
            for c in m.circuit_objects:
                if x is not None and (c.interface_a is x or c.interface_b is x):
                    ck = c
            one("get_circuit_object_from_interface(%r, %r)" % (i, a),
                lambda: m.get_circuit_object_from_interface(i, a), ck)
        for b in nn:
            ex = [i for i in m.interface_objects if i.node_object.name == a and i.remote_node_object.name == b]
            with quiet():
                v = m.get_interface_object_from_nodes(a, b)
            if is_flex(m):
                if sorted(map(id, v)) != sorted(map(id, ex)):
                    bad.append("get_interface_object_from_nodes(%r, %r) is %r" % (a, b, v))
                for c in {i.circuit_id for i in ex} | {"nope"}:
                    v = m.get_interface_object_from_nodes(a, b, c)
                    if sorted(map(id, v)) != sorted(id(i) for i in ex if i.circuit_id == c):
                        bad.append("get_interface_object_from_nodes(%r, %r, %r) is %r" % (a, b, c, v))
            elif v is not (ex[0] if ex else None):
                bad.append("get_interface_object_from_nodes(%r, %r) is %r" % (a, b, v))
            for d in {x.name for x in m.demand_objects} | {"none"}:
                one("get_demand_object(%r, %r, %r)" % (a, b, d), lambda: m.get_demand_object(a, b, d),
                    find_dmd(m, a, b, d))
            for d in {x.lsp_name for x in m.rsvp_lsp_objects} | {"none"}:
                one("get_rsvp_lsp(%r, %r, %r)" % (a, b, d), lambda: m.get_rsvp_lsp(a, b, d), find_lsp(m, a, b, d))
    for s in {x.name for x in m.srlg_objects} | {"nope"}:
        one("get_srlg_object(%r)" % s, lambda: m.get_srlg_object(s), find_srlg(m, s))
        with quiet():
            if m.get_srlg_object(s, raise_exception=False) is not find_srlg(m, s):
                bad.append("get_srlg_object(%r, raise_exception=False)" % s)
    return bad


def c12_step(m, op):
    """One adder, against what it has to do."""
    k, a = op[0], op[1:]
    before = objs(m)
    full = R.snapshot_inputs(m)
    try:
        with quiet():
            if k == "srlg":
                dup = find_srlg(m, a[0]) is not None
                m.add_srlg(a[0])
            elif k == "SRLG":
                dup = find_srlg(m, a[0]) is not None
                B.SRLG(a[0], m)
            elif k == "node":
                dup = find_node(m, a[0]) is not None
                m.add_node(B.Node(a[0], 3, 4))
            elif k == "demand":
                dup = find_dmd(m, a[0], a[1], a[3]) is not None
                dup = dup or find_node(m, a[0]) is None or find_node(m, a[1]) is None
                m.add_demand(*a)
            elif k == "demand0":
                dup = find_dmd(m, a[0], a[1], "none") is not None
                m.add_demand(a[0], a[1])
            elif k == "lsp":
                dup = find_lsp(m, *a) is not None
                dup = dup or find_node(m, a[0]) is None or find_node(m, a[1]) is None
                m.add_rsvp_lsp(*a)
            elif k == "circuit":
                na, nb, ia, ib, ca, cb, cap, cid, down = a
                dup = find_int(m, na, ia) is not None or find_int(m, nb, ib) is not None
                if is_flex(m):
                    dup = dup or cid is None or cid in {i.circuit_id for i in m.interface_objects}
                else:
                    if any(i.node_object.name == na and i.remote_node_object.name == nb
                           for i in m.interface_objects):
                        return []
                m.add_circuit(find_node(m, na), find_node(m, nb), ia, ib, ca, cb, cap, circuit_id=cid, **({"failed": True} if down else {}))
            elif k == "list":
                dup = False
                m.add_network_interfaces_from_list(a[0])
            elif k == "rename":
                x = find_int(m, a[0], a[1])
                dup = x is None
                m.change_interface_name(*a)
            else:
                return []
        e = None
    except Exception as x:
        e = x
    after = objs(m)
    bad = []
    if dup:
        if not isinstance(e, ModelException):
            bad.append("a duplicate or unknown key is not rejected (%s)" % exc_name(e))
        if after != before or R.snapshot_inputs(m) != full:
            bad.append("rejected, but the model changed")
        return bad
    if e is not None:
        return ["raises %s" % exc_name(e)]
    new = {k2: [v for x, v in after[k2].items() if x not in before[k2]] for k2 in after}
    gone = {k2: [v for x, v in before[k2].items() if x not in after[k2]] for k2 in after}
    exp = {x: [] for x in after}
    if k in ("srlg", "SRLG"):
        exp["srlgs"] = [a[0]]
    elif k == "node":
        exp["nodes"] = [a[0]]
    elif k == "demand":
        exp["dmds"] = [(a[0], a[1], a[3], a[2])]
    elif k == "demand0":
        exp["dmds"] = [(a[0], a[1], "none", 0)]
    elif k == "lsp":
        exp["lsps"] = [tuple(a)]
    elif k == "circuit":
        exp["ints"] = [(na, ia, nb, ca, cap), (nb, ib, na, cb, cap)]
    elif k == "list":
        exp["ints"] = [(d["node"], d["name"], d["remote_node"], d["cost"], d["capacity"]) for d in a[0]]
        have = set(before["nodes"].values())
        exp["nodes"] = sorted({x for d in a[0] for x in (d["node"], d["remote_node"])} - have)
    if k == "rename":
        if find_int(m, a[0], a[2]) is not x or find_int(m, a[0], a[1]) is not None:
            bad.append("the renamed interface is not found by its new name")
        if x not in m.interface_objects:
            bad.append("the renamed interface is not in interface_objects")
    for t in exp:
        if sorted(exp[t], key=repr) != sorted(new[t], key=repr) or gone[t]:
            bad.append("added %s %r and removed %r, expected to add %r" % (t, new[t], gone[t], exp[t]))
    kept = R.snapshot_inputs(m)
    for t in full:
        for x, v in full[t].items():
            if kept[t].get(x) != v and not (k == "rename" and t == "ints" and v[0] == a[1]) and \
                    not (t == "ints" and not is_flex(m)):
                bad.append("changed the existing %s %r to %r" % (t, v, kept[t].get(x)))
    for i in m.interface_objects:
        for n in (i.node_object, i.remote_node_object):
            if find_node(m, n.name) is not n:
                bad.append("%s uses a node object that is not the model's" % R.nm(i))
    if k == "circuit":
        up = not (down or find_node(m, na).failed or find_node(m, nb).failed)
        if [find_int(m, na, ia).failed, find_int(m, nb, ib).failed] != [not up, not up] and \
                not (find_node(m, na).failed or find_node(m, nb).failed):
            bad.append("the new circuit's failure state is not the one given")
    if k == "circuit" and is_flex(m):
        if find_int(m, na, ia).circuit_id != cid or find_int(m, nb, ib).circuit_id != cid:
            bad.append("circuit id")
    return bad


def gen_C12(rng, k):
    c = gen(rng, maxn=5)
    names = [x["name"] for x in c["nodes"]]
    ints = [(l["a"], l["na"]) for l in c["links"]] + [(l["b"], l["nb"]) for l in c["links"]]
    ops = []
    nn = names + ["zz", "nope"]
    for t in range(rng.randint(1, 6)):
        o = rng.choice(["srlg", "SRLG", "node", "demand", "demand0", "lsp", "circuit", "list", "rename"])
        if o in ("srlg", "SRLG"):
            ops.append([o, rng.choice(["s1", "s2", names[0]])])
        elif o == "node":
            ops.append([o, rng.choice(nn + ["new%d" % t])])
        elif o == "demand" and len(names) > 1:
            s, d = rng.sample(nn, 2)
            e = rng.choice(c["demands"]) if c["demands"] and rng.random() < 0.4 else [s, d, 5, "q%d" % (t % 2)]
            ops.append([o, e[0], e[1], rng.choice([0, 5, 2.5]), e[3]])
        elif o == "demand0" and len(names) > 1:
            ops.append([o, *rng.sample(names, 2)])
        elif o == "lsp" and len(names) > 1:
            s, d = rng.sample(nn, 2)
            e = rng.choice(c["lsps"]) if c["lsps"] and rng.random() < 0.4 else [s, d, "q%d" % (t % 2)]
            ops.append([o, *e[:3]])
        elif o == "circuit" and len(names) > 1:
            s, d = rng.sample(names, 2)
            ia, ib = "zz%d" % t, "zy%d" % t
            if ints and rng.random() < 0.4:
                x = rng.choice(ints)
                if rng.random() < 0.5:
                    s, ia = x
                    d = rng.choice([q for q in names if q != s])
                else:
                    d, ib = x
                    s = rng.choice([q for q in names if q != d])
            cids = [l["cid"] for l in c["links"] if l["cid"]] or [1]
            cid = "zc%d" % t if rng.random() < 0.6 else rng.choice(cids + [None])
            if c["cls"] in "PM":
                cid = None if rng.random() < 0.5 else 1000 + t
            ops.append([o, s, d, ia, ib, rng.choice([1, 7]), rng.choice([1, 9]), rng.choice([10, 33.5]), cid, rng.random() < 0.25])
        elif o == "list":
            out = []
            for q in range(rng.randint(1, 2)):
                a = rng.choice(names + ["N%d" % t])
                b = "M%d%d" % (t, q)
                if rng.random() < 0.3:
                    a, b = b, a
                out += [{"name": "%s>%s" % (a, b), "cost": 3, "capacity": 50, "node": a, "remote_node": b,
                         "circuit_id": 9000 + 10 * t + q},
                        {"name": "%s>%s" % (b, a), "cost": 4, "capacity": 50, "node": b, "remote_node": a,
                         "circuit_id": 9000 + 10 * t + q}]
            ops.append([o, out])
        elif o == "rename" and ints:
            x = rng.choice(ints)
            ops.append([o, *x, "rn%d" % t])
    c["ops"] = ops
    return c


def run_C12(case):
    m = B.build(case)
    rng = random.Random(1)
    random.seed(0)
    e, _ = apply_op(m, ["update"])
    if e is not None:
        return ["update_simulation of a valid model raises %s" % exc_name(e)]
    bad = ["initially: " + x for x in lookups(m, rng)]
    for n, op in enumerate(case["ops"]):
        if bad:
            break
        bad = ["op %d %r: %s" % (n, op, x) for x in c12_step(m, op)]
        if bad:
            break
        e, _ = apply_op(m, ["update"])
        if e is not None:
            return ["update_simulation after op %d %r raises %s" % (n, op, exc_name(e))]
        bad = ["after op %d %r: %s" % (n, op, x) for x in lookups(m, rng)]
    # models share nothing
    a, b = B.CLASSES[case["cls"]](), B.CLASSES[case["cls"]]()
    with quiet():
        try:
            a.add_node(B.Node("only-a"))
            a.add_srlg("only-a")
        except Exception as e:
            bad.append("adding to an empty model raises %s" % exc_name(e))
    for s in ("node_objects", "interface_objects", "demand_objects", "rsvp_lsp_objects", "srlg_objects"):
        if len(getattr(b, s)):
            bad.append("adding to one empty model shows in another: %s" % s)
    return bad


# ---------------------------------------------------------------- C13
def mutate(m, kind, x):
    """Makes the updated model invalid in one way; returns False when the
    model has no place for it."""
    r = random.Random(x)
    ints = sorted(m.interface_objects, key=lambda i: (i.node_object.name, i.name))
    nodes = sorted(m.node_objects, key=lambda n: n.name)
    if kind == "none":
        return True
    if kind == "orphan_int":
        if not ints:
            return False
        i = r.choice(ints)
        m.interface_objects.remove(i)
        return True
    if kind == "capacity":
        if not ints:
            return False
        i = r.choice(ints)
        m.interface_objects.remove(i)
        i.capacity = i.capacity + r.choice([1, 0.5, 1000])
        m.interface_objects.add(i)
        return True
    if kind == "int_name":
        c = [(i, j) for i in ints for j in ints if i is not j and i.node_object is j.node_object]
        if not c:
            return False
        i, j = r.choice(c)
        m.interface_objects.remove(i)
        i.name = j.name
        m.interface_objects.add(i)
        return True
    if kind == "node_name":
        n = r.choice(nodes)
        # another object with the same name (and other attributes, so that they differ)
        m.node_objects.add(B.Node(n.name, 77, 78))
        return len([y for y in m.node_objects if y.name == n.name]) == 2
    if kind == "res_sum":
        c = [i for i in ints if not i._failed]
        if not c:
            return False
        i = r.choice(c)
        d = r.choice([0.5, 3, -2.5, 40])
        if i._reserved_bandwidth + d > i.capacity:
            d = -abs(d)
        i._reserved_bandwidth += d
        return True
    if kind == "res_cap":
        c = [l for l in m.rsvp_lsp_objects if R.routed(l)]
        if not c:
            return False
        l = r.choice(sorted(c, key=R.nm))
        add = max(i.capacity for i in l.path["interfaces"]) + r.choice([1, 50])
        l.reserved_bandwidth += add
        for i in l.path["interfaces"]:
            i._reserved_bandwidth += add
        return True
    if kind == "lsp_res":
        c = [l for l in m.rsvp_lsp_objects if R.routed(l)]
        if not c:
            return False
        l = r.choice(sorted(c, key=R.nm))
        l.reserved_bandwidth += r.choice([0.5, 2, 10])
        return True
    if kind == "parallel":
        if is_flex(m) or not ints:
            return False
        i = r.choice(ints)
        a = B.Interface("par-a", 3, 10, i.node_object, i.remote_node_object, "par")
        b = B.Interface("par-b", 3, 10, i.remote_node_object, i.node_object, "par")
        m.interface_objects.update([a, b])
        return True
    if kind == "shortcut":
        if is_flex(m):
            return False
        r.choice(nodes).igp_shortcuts_enabled = True
        return True
    if kind == "dup_cid":
        return False
    raise RuntimeError(kind)


KINDS = ["none", "none", "orphan_int", "capacity", "int_name", "node_name", "res_sum", "res_cap", "lsp_res",
         "parallel", "shortcut"]


def gen_C13(rng, k):
    c = gen(rng, maxn=rng.choice([2, 4, 6]))
    c["ops"] = gen_ops(rng, c, rng.choice([0, 0, 1, 3]), srlg=rng.random() < 0.3)
    c["kind"] = rng.choice(KINDS)
    c["pick"] = rng.randint(0, 10 ** 6)
    c["seed"] = rng.randint(0, 10 ** 6)
    return c


def run_C13(case):
    m = B.build(case)
    random.seed(case["seed"])

    def val():
        try:
            with quiet():
                return None, m.validate_model()
        except Exception as e:
            return e, None
    e, v = val()
    if e is not None:
        return ["validate_model of a valid model raises %s" % exc_name(e)]
    if v is not m:
        return ["validate_model returns %r, not the model" % (v,)]
    for op in [["update"]] + case["ops"]:
        if op[0] != "update" and not applicable(m, op):
            continue
        apply_op(m, op)
        e, _ = apply_op(m, ["update"])
        if e is not None:
            return ["update_simulation after %r raises %s" % (op, exc_name(e))]
    if not mutate(m, case["kind"], case["pick"]):
        return []
    before = (R.snapshot_inputs(m), objs(m))
    e, v = val()
    if case["kind"] == "none":
        if e is not None:
            return ["validate_model of a valid model raises %s" % exc_name(e)]
        if v is not m:
            return ["validate_model returns %r, not the model" % (v,)]
    elif e is None:
        return ["validate_model accepts a model with a %s problem" % case["kind"]]
    elif not isinstance(e, ModelException):
        return ["validate_model raises %s" % exc_name(e)]
    after = (R.snapshot_inputs(m), objs(m))
    if case["kind"] == "parallel":  # which ends belong together is not defined then
        for x in (before, after):
            x[0]["ints"] = {k: v[:6] + v[7:] for k, v in x[0]["ints"].items()}
    if after != before:
        return ["validate_model changed the model"]
    return []


# ---------------------------------------------------------------- C14
def gen_C14(rng, k):
    c = gen(rng, cls=rng.choice("PFML"), maxn=5)
    flex = c["cls"] in "FL"
    rows = []
    for l in c["links"]:
        cap = max(1, int(l["cap"]))
        opt = []
        style = rng.randint(0, 3)
        pct = rng.choice([100, 50, 80.5, 0, 33])
        rs = rng.choice(["True", "T", "true", "False", "F", "false", "no", "True"])
        if style >= 1:
            opt = [rs]
        if style >= 2:
            opt = [rs, str(pct)]
        for a, b, n, co in ((l["a"], l["b"], l["na"], l["ca"]), (l["b"], l["a"], l["nb"], l["cb"])):
            rows.append([a, b, n, str(co), str(cap)] + ([str(l["cid"])] if flex else []) + opt)
    rng.shuffle(rows)
    bad = None
    r = rng.random()
    if rows and r < 0.15:
        x = list(rng.choice(rows))
        if not flex:
            x[3] = "9"
            rows.append(x)
    elif flex and rows and r < 0.25:
        x = rng.choice(rows)
        x[5] = rng.choice(rows)[5] + "x"
        bad = "cid"
    elif flex and len(rows) >= 4 and r < 0.35:
        cids = sorted({x[5] for x in rows})
        if len(cids) >= 2:
            a, b = rng.sample(cids, 2)
            for x in rows:
                if x[5] == a:
                    x[5] = b
            bad = "cid"
    nodes = []
    for n in c["nodes"]:
        if rng.random() < 0.7:
            row = [n["name"]]
            z = rng.randint(0, 3)
            if z >= 1:
                row.append(rng.choice(["5", "-7", "0", ""]))
            if z >= 2:
                row.append(rng.choice(["15", "-3", "0", ""]))
            if z >= 3:
                row.append(rng.choice(["True", "False"]) if flex else "False")
            nodes.append(row)
    if rng.random() < 0.3:
        nodes.append(["orphan", "1", "2"])
    if nodes and rng.random() < 0.1:
        nodes.append([nodes[0][0], "9", "8"])
    known = sorted({x[0] for x in rows} | {x[1] for x in rows} | {x[0] for x in nodes})
    dm = [[s, d, str(int(t)), nm if rng.random() < 0.9 else ""] for s, d, t, nm in c["demands"]
          if s in known and d in known]
    if dm and rng.random() < 0.3:
        x = list(rng.choice(dm))
        x[2] = "77"
        dm.append(x)
    ls = []
    for s, d, nm, cfg, met in c["lsps"]:
        if s in known and d in known:
            row = [s, d, nm]
            z = rng.randint(0, 2)
            if z >= 1:
                row.append(rng.choice(["10", "2.5", ""]))
            if z >= 2:
                row.append(rng.choice(["7", "", "x"]))
            ls.append(row)
    if ls and rng.random() < 0.3:
        ls.append(list(rng.choice(ls)[:3]) + ["44", "4"])
    if bad is None and rng.random() < 0.12 and len(known) > 0:
        if rng.random() < 0.5:
            dm.insert(rng.randint(0, len(dm)), rng.choice([["ghost", known[0], "3", "g"], [known[0], "ghost", "3", "g"]]))
        else:
            ls.insert(rng.randint(0, len(ls)), rng.choice([["ghost", known[0], "g"], [known[0], "ghost", "g"]]))
        bad = "node"
    return {"cls": c["cls"], "rows": rows, "nodes": nodes, "demands": dm, "lsps": ls, "bad": bad,
            "lsptable": bool(ls) or rng.random() < 0.5, "bom": rng.random() < 0.2,
            "blank_end": rng.random() < 0.5, "crlf": rng.random() < 0.15}


def text_C14(c):
    t = "\t".join
    flex = c["cls"] in "FL"
    out = ["INTERFACES_TABLE", t(["node_object_name", "remote_node_object_name", "name", "cost", "capacity"]
                                 + (["circuit_id"] if flex else []))]
    out += [t(r) for r in c["rows"]] + ["", "NODES_TABLE", t(["name", "lon", "lat"])]
    out += [t(r) for r in c["nodes"]] + ["", "DEMANDS_TABLE", t(["source", "dest", "traffic", "name"])]
    out += [t(r) for r in c["demands"]]
    if c["lsptable"]:
        out += ["", "RSVP_LSP_TABLE", t(["source", "dest", "name", "configured_setup_bw", "manual_metric"])]
        out += [t(r) for r in c["lsps"]]
    elif c["blank_end"]:
        out += [""]
    s = ("\r\n" if c["crlf"] else "\n").join(out)
    return s


def run_C14(c):
    d = tempfile.mkdtemp(prefix="c14")
    try:
        p = os.path.join(d, "model.csv")
        with open(p, "w", encoding="utf-8-sig" if c["bom"] else "utf-8", newline="") as f:
            f.write(text_C14(c))
        try:
            with quiet():
                m = B.CLASSES[c["cls"]].load_model_file(p)
            e = None
        except Exception as x:
            e = x
    finally:
        shutil.rmtree(d)
    flex = c["cls"] in "FL"
    if c["bad"]:
        return [] if isinstance(e, ModelException) else [
            "a file with a bad %s is loaded (%s)" % ("circuit id" if c["bad"] == "cid" else "node name", exc_name(e))]
    if e is not None:
        return ["loading a correct file raises %s" % exc_name(e)]
    bad = []
    if type(m) is not B.CLASSES[c["cls"]]:
        bad.append("the model is a %s" % type(m).__name__)

    def yes(s):
        return s in ("True", "T", "true")

    def cmp(what, got, exp):
        if len(got) != len(exp) or dict(got) != exp:
            bad.append("%s: got %r, expected %r" % (what, sorted(got, key=repr), exp))
    exp = {}
    k = 6 if flex else 5
    for r in c["rows"]:
        exp.setdefault((r[0], r[2]), (r[1], int(r[3]), int(r[4]), r[5] if flex else None,
                                      yes(r[k]) if len(r) > k else True,
                                      float(r[k + 1]) if len(r) > k + 1 else 100.0))
    cmp("interfaces", [((i.node_object.name, i.name), (i.remote_node_object.name, i.cost, i.capacity, i.circuit_id,
                                                       i.rsvp_enabled, i.percent_reservable_bandwidth))
                       for i in m.interface_objects], exp)
    nn = {}
    for r in c["rows"]:
        nn[r[0]] = nn[r[1]] = (0, 0, False)

    def num(r, k):
        try:
            return int(r[k])
        except (IndexError, ValueError):
            return 0
    for r in c["nodes"]:
        nn[r[0]] = (num(r, 1), num(r, 2), len(r) > 3 and r[3] == "True")
    cmp("nodes", [(n.name, (n.lon, n.lat, n.igp_shortcuts_enabled)) for n in m.node_objects], nn)
    exp = {}
    for r in c["demands"]:
        exp.setdefault((r[0], r[1], r[3] or "none"), int(r[2]))
    cmp("demands", [((R.src(x), R.dst(x), x.name), x.traffic) for x in m.demand_objects], exp)
    exp = {}
    for r in c["lsps"]:
        try:
            bw = float(r[3])
        except (IndexError, ValueError):
            bw = None
        try:
            me = int(r[4])
        except (IndexError, ValueError):
            me = None
        exp.setdefault(tuple(r[:3]), (bw, me))
    cmp("LSPs", [((R.src(x), R.dst(x), x.lsp_name), (x.configured_setup_bandwidth, R.manual(x)))
                 for x in m.rsvp_lsp_objects], exp)
    byname = {n.name: n for n in m.node_objects}
    for i in m.interface_objects:
        if byname.get(i.node_object.name) is not i.node_object or \
                byname.get(i.remote_node_object.name) is not i.remote_node_object:
            bad.append("%s uses a node object that is not the model's" % R.nm(i))
    for x in list(m.demand_objects) + list(m.rsvp_lsp_objects):
        if byname.get(R.src(x)) is not x.source_node_object or byname.get(R.dst(x)) is not x.dest_node_object:
            bad.append("%r uses a node object that is not the model's" % x)
    return bad


# ---------------------------------------------------------------- C15
def gen_C15(rng, k):
    c = gen(rng, maxn=rng.choice([3, 4, 5, 6]), dense=rng.choice([None, 0.5, 0.8]), tie=rng.random() < 0.6)
    c["seed"] = rng.randint(0, 10 ** 6)
    c["ops"] = gen_ops(rng, c, rng.choice([0, 0, 1, 2]), config=False, srlg=False)
    names = [n["name"] for n in c["nodes"]]
    caps = sorted({l["cap"] for l in c["links"]} | {0})
    c["q"] = []
    if len(names) > 1:
        for _ in range(6):
            s, d = rng.sample(names, 2)
            c["q"].append([s, d, rng.choice([0, 0, 0, 1, 10, rng.choice(caps), rng.choice(caps) / 2 + 5]),
                           rng.choice([True, False]), rng.choice([1, 2, 3, 4, 10])])
    return c


def run_C15(case):
    m = B.build(case)
    random.seed(case["seed"])
    for op in [["update"]] + case["ops"]:
        if op[0] != "update" and not applicable(m, op):
            continue
        apply_op(m, op)
        e, _ = apply_op(m, ["update"])
        if e is not None:
            return ["update_simulation after %r raises %s" % (op, exc_name(e))]
    import sim_oracles as S
    bad = []
    for s, t, bw, inc, cut in case["q"]:
        before = S.full_state(m)
        # needed_bw is a condition only when it is asked for
        ok = [i for i in m.interface_objects if i.rsvp_enabled is True and R.reservable(i) >= bw] if bw else \
            list(m.interface_objects)
        neg = bw == 0 and any(R.reservable(i) < 0 and i.rsvp_enabled is True for i in m.interface_objects)
        up = [i for i in ok if R.up(i)]
        exp = R.min_paths(up, s, t)
        with quiet():
            try:
                g = m.get_shortest_path(s, t, bw)
            except Exception as e:
                bad.append("get_shortest_path(%r, %r, %r) raises %s" % (s, t, bw, exc_name(e)))
                break
        if not neg:
            if R.ids(g["path"]) != R.ids(exp):
                bad.append("get_shortest_path(%r, %r, %r) has paths %s, expected %s" % (
                    s, t, bw, R.nms(g["path"]), R.nms(exp)))
            c = R.min_cost(up, s, t)
            if g["cost"] != c:
                bad.append("get_shortest_path(%r, %r, %r) has cost %r, expected %r" % (s, t, bw, g["cost"], c))
        exp = R.simple_paths(ok if inc else up, s, t, cut)
        with quiet():
            try:
                g = m.get_all_paths_reservable_bw(s, t, inc, cut, bw)
            except Exception as e:
                bad.append("get_all_paths_reservable_bw(%r, %r, %r, %r, %r) raises %s" % (
                    s, t, inc, cut, bw, exc_name(e)))
                break
        if not neg and R.ids(g["path"]) != R.ids(exp):
            bad.append("get_all_paths_reservable_bw(%r, %r, %r, %r, %r) has paths %s, expected %s" % (
                s, t, inc, cut, bw, R.nms(g["path"]), R.nms(exp)))
        if S.full_state(m) != before:
            bad.append("a path query changed the model")
        if bad:
            break
    return bad


# ---------------------------------------------------------------- C16
NUM = [0, 1, 2, 5, 100, 0.1, 0.5, 0.05, 2.5, 33.3, 99.96, 1e9, -1, -2, -0.5, -0.0, -1e-9, 1e-9, 10 ** 12]
ODD = ["5", "", "True", "False", "abc", None, [], [1], {}, (1,)]
BOOLS = [True, False]


def c16_table():
    """(attribute, value) -> every combination the setters distinguish."""
    out = []
    for a in ("cost", "capacity"):
        out += [["int", a, v] for v in NUM]
    out += [["int", "cost", v] for v in ("5", None, 1.0, 1.5)]
    for v in NUM + ODD:
        out.append(["int", "reserved_bandwidth", v])
        out.append(["node", "lat", v])
        out.append(["node", "lon", v])
        out.append(["lsp", "manual_metric", v])
        out.append(["newnode", "lat", v])
        out.append(["newnode", "lon", v])
        out.append(["demand", "traffic", v])
    for v in NUM + ["5", None]:
        out.append(["lsp", "setup_bandwidth", v])
        out.append(["newint", "cost", v])
    for v in NUM:
        out.append(["newint", "capacity", v])
    for v in BOOLS + NUM[:4] + ODD:
        for o in ("int", "node", "srlg"):
            out.append([o, "failed", v])
        out.append(["node", "igp_shortcuts_enabled", v])
    return out


def c16_expect(o, a, v):
    """(valid, stored value)"""
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    if a == "cost":
        return (isinstance(v, int) and v >= 1, v)
    if a == "capacity":
        return (num and v > 0, v)
    if a == "reserved_bandwidth":
        return (num, v)
    if a in ("lat", "lon"):
        return (num, v)
    if a == "failed":
        return (isinstance(v, bool), v)
    if a == "igp_shortcuts_enabled":
        return (isinstance(v, bool) or v in ("True", "False"), True if v in (True, "True") else False)
    if a == "manual_metric":
        if num and v == -1:
            return (True, "not set")
        return (num and isinstance(v, int) and v > 0, v)
    if a == "setup_bandwidth":
        return (num and v >= 0, float(v) if num else None)
    if a == "traffic":
        return (num and v >= 0, v)
    raise RuntimeError(a)


def gen_C16(rng, k):
    t = c16_table()
    rnd = [rng.choice([rng.uniform(-5, 500), rng.randint(-5, 500), round(rng.uniform(0, 50), 2)]) for _ in range(30)]
    keys = [("int", "cost"), ("int", "capacity"), ("int", "reserved_bandwidth"), ("node", "lat"), ("node", "lon"),
            ("lsp", "manual_metric"), ("lsp", "setup_bandwidth"), ("demand", "traffic"), ("newint", "cost"),
            ("newint", "capacity"), ("newnode", "lat"), ("newnode", "lon")]
    vals = t if k == 0 else [[*rng.choice(keys), v] for v in rnd] + rng.sample(t, 30)
    rng.shuffle(vals)
    return {"vals": vals}


def run_C16(case):
    bad = []
    a, b = B.Node("A"), B.Node("B")
    m = B.FlexModel()
    i = B.Interface("i", 3, 50, a, b, 1)
    l = B.RSVP_LSP(a, b, "l")
    l.setup_bandwidth = 4
    s = B.SRLG("s", m)
    obj = {"int": i, "node": a, "lsp": l, "srlg": s}
    for o, at, v in case["vals"]:
        if isinstance(v, list):
            v = list(v)
        ok, st = c16_expect(o, at, v)
        try:
            if o == "newint":
                kw = {"cost": 2, "capacity": 9}
                kw[at] = v
                x = B.Interface("n", kw["cost"], kw["capacity"], a, b)
                got = getattr(x, at)
                others = (x.name, x.node_object, x.remote_node_object, x.circuit_id, x.failed, x.rsvp_enabled,
                          x.percent_reservable_bandwidth) == ("n", a, b, None, False, True, 100)
                if not others:
                    bad.append("a new interface does not have the given values")
            elif o == "newnode":
                x = B.Node("n", **{at: v})
                got = getattr(x, at)
            elif o == "demand":
                x = B.Demand(a, b, v, "d")
                got = x.traffic
            else:
                x = obj[o]
                before = dict(x.__dict__)
                setattr(x, at, v)
                got = getattr(x, at)
            e = None
        except Exception as y:
            e = y
        if not ok:
            if e is None:
                bad.append("%s.%s = %r is accepted" % (o, at, v))
            if e is not None and o in obj and x.__dict__ != before:
                bad.append("%s.%s = %r is rejected but changes the object" % (o, at, v))
            if e is None and o in obj:
                x.__dict__.clear()
                x.__dict__.update(before)
            continue
        if e is not None:
            bad.append("%s.%s = %r raises %s" % (o, at, v, exc_name(e)))
            continue
        tol = 0.0501 if at == "reserved_bandwidth" else 0
        if not (got == st and type(got) is type(st)) and not (
                tol and isinstance(got, (int, float)) and abs(got - st) <= tol * max(1, abs(st) * 1e-9)):
            bad.append("%s.%s = %r reads back as %r" % (o, at, v, got))
        if o in obj:
            allowed = {"cost": ["_cost"], "capacity": ["_capacity"], "reserved_bandwidth": ["_reserved_bandwidth"],
                       "lat": ["_lat"], "lon": ["_lon"], "failed": ["_failed", "_reserved_bandwidth"],
                       "igp_shortcuts_enabled": ["_igp_shortcuts_enabled"],
                       "manual_metric": ["_manual_metric", "initial_manual_metric"],
                       "setup_bandwidth": ["_setup_bandwidth"]}[at]
            for q, w in before.items():
                if q not in allowed and x.__dict__.get(q, None) is not w:
                    bad.append("%s.%s = %r also changes %s" % (o, at, v, q))
            if at in ("failed",):
                x.failed = False
    return bad
