"""Seeded generator of model descriptions and operation histories."""
import random

NAMES = [list("ABCDEFGH"), ["n1", "n2", "n10", "n11", "n20", "n21", "n3", "n4"],
         ["sea-1", "sea", "sfo", "sfo-2", "lax", "lax 1", "ny", "ny.x"],
         ["Unrouted", "A", "AA", "AAA", "B", "BB", "none", "C"],
         ["a", "b", "ab", "ba", "aa", "bb", "aab", "abb"]]


def unambiguous(names):
    seen = {}
    for a in names:
        for b in names:
            k = a + "-" + b
            if k in seen:
                return False
            seen[k] = 1
    return True


def gen(rng, cls=None, maxn=6, lsps=True, shortcuts=None, dense=None, tie=None, minn=2):
    """One random valid model."""
    cls = cls or rng.choice("PF")
    flex = cls in "FL"
    pool = rng.choice(NAMES)
    n = rng.randint(minn, maxn)
    names = rng.sample(pool, n)
    if not unambiguous(names):
        names = NAMES[0][:n]
    sc_p = (rng.choice([0, 0, 0.3, 0.7]) if shortcuts is None else shortcuts) if flex else 0
    nodes = [{"name": x, "lat": rng.choice([0, 1, -50.5]), "lon": rng.choice([0, 7, 0.25]),
              "sc": rng.random() < sc_p} for x in names]
    costs = rng.choice([[1], [1, 2], [1, 2, 3], [10, 20, 30], [5, 10, 15, 20], [1, 2, 3, 7, 1000]])
    if tie:
        costs = [10, 20]
    caps = rng.choice([[100], [10, 100], [50, 100, 150.5], [1000], [20, 33.3, 47]])
    style = rng.choice(["sym", "asym"])
    links = []
    used = {}
    cid_style = rng.choice(["int", "str", "mix"])

    def add(a, b):
        k = len(links)
        ca = rng.choice(costs)
        cb = ca if style == "sym" else rng.choice(costs)
        par = used.setdefault(frozenset((a, b)), 0)
        used[frozenset((a, b))] = par + 1
        nm = rng.choice(["%s-to-%s_%d", "%s%s_%d"])
        ll = {"a": a, "b": b, "na": nm % (a, b, k), "nb": nm % (b, a, k), "ca": ca, "cb": cb,
              "cap": rng.choice(caps),
              "cid": {"int": k + 1, "str": "c%d" % k, "mix": (k + 1 if k % 2 else "c%d" % k)}[cid_style]}
        if not flex:
            ll["cid"] = rng.choice([None, None, k + 1])
        if rng.random() < rng.choice([0, 0, 0.3]):
            ll["rsvp"] = False
        if rng.random() < rng.choice([0, 0.5]):
            ll["pct"] = rng.choice([0, 30, 50, 50.5, 80, 100, 100.0])
        if "n10" in names and rng.random() < 0.3:
            ll["na"] = ll["nb"] = "eth%d" % k
        links.append(ll)

    order = names[:]
    rng.shuffle(order)
    conn = rng.random()
    for i in range(1, n):
        if conn > 0.15 or rng.random() < 0.7:
            add(order[i], rng.choice(order[:i]))
    p = dense if dense is not None else rng.choice([0.1, 0.3, 0.5, 0.8])
    for i in range(n):
        for j in range(i):
            a, b = names[i], names[j]
            if frozenset((a, b)) not in used and rng.random() < p:
                add(a, b)
            if flex and frozenset((a, b)) in used and rng.random() < 0.25:
                for _ in range(rng.choice([1, 1, 2])):
                    add(a, b)
                    if rng.random() < 0.5:
                        links[-1]["ca"], links[-1]["cb"] = next(
                            (x["ca"], x["cb"]) if (x["a"], x["b"]) == (a, b) else (x["cb"], x["ca"])
                            for x in links if {x["a"], x["b"]} == {a, b})
    if flex and len(links) > 12:
        links = links[:12]
    demands = []
    traff = rng.choice([[0, 1, 10], [10, 20, 30, 40], [7, 12.5, 33.3, 0.1], [100, 150, 80], [1, 2, 3], [1000]])
    if n > 1:
        for k in range(rng.randint(0, 5)):
            s, d = rng.sample(names, 2)
            if demands and rng.random() < 0.35:
                s, d = demands[-1][:2]
            demands.append([s, d, rng.choice(traff), rng.choice(["d%d" % k, "none" if k == 0 else "d%d" % k])])
    ls = []
    if lsps and n > 1:
        bws = rng.choice([[None], [None, None, 5], [None, 10, 40, 60.5], [None, 0, 100]])
        mets = rng.choice([[None], [None], [None, 1, 5, 25], [None, 10, 20]])
        for k in range(rng.randint(0, 6)):
            r = rng.random()
            if ls and r < 0.45:
                s, d = ls[-1][:2]
            elif demands and r < 0.8:
                s, d = rng.choice(demands)[:2]
            else:
                s, d = rng.sample(names, 2)
            ls.append([s, d, "l%d" % k, rng.choice(bws), rng.choice(mets)])
    # names need to be unique per source and destination only
    for rows, pre in ((demands, "d"), (ls, "l")):
        if rng.random() < 0.3:
            count = {}
            for r in rows:
                count[r[0], r[1]] = count.get((r[0], r[1]), 0) + 1
                r[3 if rows is demands else 2] = "%s%d" % (pre, count[r[0], r[1]])
    return {"cls": cls, "nodes": nodes, "links": links, "demands": demands, "lsps": ls}


def gen_ops(rng, case, k, failures=True, config=True, srlg=True):
    """A random history of k changes, valid for the case."""
    names = [x["name"] for x in case["nodes"]]
    ints = [(l["a"], l["na"]) for l in case["links"]] + [(l["b"], l["nb"]) for l in case["links"]]
    dm = [tuple(d[:2]) + (d[3],) for d in case["demands"]]
    ls = [tuple(x[:3]) for x in case["lsps"]]
    flex = case["cls"] in "FL"
    ops = []
    srl = []
    for c in range(k):
        kinds = []
        if failures:
            kinds += ["fail_int", "unfail_int", "fail_node", "unfail_node"] * 2
        if srlg:
            kinds += ["srlg_add_node", "srlg_add_int"] + (["fail_srlg", "unfail_srlg", "srlg_rm_node", "srlg_rm_int"]
                                                         if srl else [])
        if config:
            kinds += ["add_demand", "rm_demand", "set_traffic", "add_lsp", "rm_lsp", "set_cost", "set_cap", "set_pct",
                      "lsp_metric", "add_circuit", "rename_int", "set_rsvp", "lsp_cfg"]
            if flex:
                kinds.append("shortcut")
        o = rng.choice(kinds)
        if o in ("fail_int", "unfail_int") and ints:
            ops.append([o, *rng.choice(ints)])
        elif o in ("fail_node", "unfail_node"):
            ops.append([o, rng.choice(names)])
        elif o in ("fail_srlg", "unfail_srlg"):
            ops.append([o, rng.choice(srl)])
        elif o in ("srlg_add_node", "srlg_rm_node"):
            s = rng.choice(["s1", "s2"])
            srl.append(s)
            ops.append([o, s, rng.choice(names)])
        elif o in ("srlg_add_int", "srlg_rm_int") and ints:
            s = rng.choice(["s1", "s2"])
            srl.append(s)
            ops.append([o, s, *rng.choice(ints)])
        elif o == "add_demand" and len(names) > 1:
            s, d = rng.sample(names, 2)
            if dm and rng.random() < 0.4:
                s, d = rng.choice(dm)[:2]
            dm.append((s, d, "x%d" % c))
            ops.append([o, s, d, rng.choice([1, 10, 55.5, 100]), "x%d" % c])
        elif o == "rm_demand" and dm:
            x = rng.choice(dm)
            dm.remove(x)
            ops.append([o, *x])
        elif o == "set_traffic" and dm:
            ops.append([o, *rng.choice(dm), rng.choice([0, 5, 20, 90, 12.25])])
        elif o == "add_lsp" and len(names) > 1:
            s, d = rng.sample(names, 2)
            if dm and rng.random() < 0.6:
                s, d = rng.choice(dm)[:2]
            ls.append((s, d, "y%d" % c))
            ops.append([o, s, d, "y%d" % c])
        elif o == "rm_lsp" and ls:
            x = rng.choice(ls)
            ls.remove(x)
            ops.append([o, *x])
        elif o == "lsp_metric" and ls:
            ops.append([o, *rng.choice(ls), rng.choice([1, 5, 30, -1])])
        elif o == "lsp_cfg" and ls:
            ops.append([o, *rng.choice(ls), rng.choice([None, 5, 40])])
        elif o == "set_cost" and ints:
            ops.append([o, *rng.choice(ints), rng.choice([1, 2, 10, 30])])
        elif o == "set_pct" and ints:
            ops.append([o, *rng.choice(ints), rng.choice([0, 20, 50, 100])])
        elif o == "set_rsvp" and ints:
            ops.append([o, *rng.choice(ints), rng.choice([True, False])])
        elif o == "set_cap" and ints:
            ops.append([o, *rng.choice(ints), rng.choice([5, 50, 500])])
        elif o == "shortcut":
            ops.append([o, rng.choice(names), rng.choice([True, False])])
        elif o == "add_circuit" and len(names) > 1 and flex:
            s, d = rng.sample(names, 2)
            ops.append([o, s, d, "zz%d" % c, "zy%d" % c, rng.choice([1, 10]), rng.choice([1, 10]), 100, "zc%d" % c])
            ints += [(s, "zz%d" % c), (d, "zy%d" % c)]
        elif o == "rename_int" and ints:
            x = rng.choice(ints)
            ints.remove(x)
            ints.append((x[0], "rn%d" % c))
            ops.append([o, x[0], x[1], "rn%d" % c])
    return ops
