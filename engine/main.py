#!/usr/bin/env python3
"""engine/main.py --property P --tier T --out F: verifies the contracts the
property rests on (and the contracts those use) against the current source."""
import argparse
import ast
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def digest(prog, quals):
    """Digest of the source of some functions (comments and layout aside)."""
    h = hashlib.sha256()
    for q in sorted(quals):
        fn = prog.function(q)
        if fn is not None:
            n = ast.parse(ast.unparse(fn.node)).body[0]
            if ast.get_docstring(n) is not None:
                n.body = n.body[1:] or [ast.Pass()]
            h.update(("%s\n%s\n" % (q, ast.dump(n))).encode())
    return h.hexdigest()[:20]


def work(a):
    qual, tmo = a
    import z3
    from lib import Lib
    from prog import Program
    from verify import Verifier
    prog = Program()
    lib = Lib(prog)
    c = lib.contracts[qual]
    t = time.time()
    v = Verifier(prog, lib, timeout=tmo)
    v.verify(c)
    return {"qual": qual, "mode": "proof", "obligations": [
        {"name": o.name, "status": o.status, "reason": o.reason, "s": round(o.secs, 3), "kind": o.kind} for o in v.obs],
        "solver_s": round(v.solver_s, 2), "wall_s": round(time.time() - t, 2), "used": sorted(v.used),
        "inlined": sorted(v.inlined - {qual}), "backends": sorted(v.backends),
        "digest": digest(prog, {qual} | v.inlined), "assumptions": sorted(v.assumptions), "note": c.note}


def retry(done, tier):
    """The few solver questions that ran out of time, once more in another order: the engine's formulas are the same up to
    the order Python iterates over sets."""
    slow = [q for q, d in done.items() if {o["status"] for o in d["obligations"]} == {"discharged", "unknown"}
            and 0 < sum(o["status"] == "unknown" and o.get("kind") == "solver" for o in d["obligations"]) <= 3][:6]
    level = int(os.environ.get("VERIF_RETRY", "0"))
    if slow and level < 2:
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, "o.json")
            subprocess.run([sys.executable, os.path.abspath(__file__), "--functions", *slow, "--tier", tier, "--out", f],
                           env=dict(os.environ, VERIF_RETRY=str(level + 1), PYTHONHASHSEED=str(11 * level + 7)))
            if os.path.exists(f):
                with open(f) as h:
                    for d in json.load(h)["functions"]:
                        if all(o["status"] == "discharged" for o in d["obligations"]):
                            done[d["qual"]] = d
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--functions", nargs="*")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import z3
    from lib import Lib
    from par import Par
    from prog import Program
    prog = Program()
    lib = Lib(prog)
    quals = a.functions or [q for q, c in lib.contracts.items() if a.property in c.props or a.property == "all"]
    tmo = 10000 if a.tier == "quick" else 60000
    done, assumed, todo = {}, {}, list(quals)
    t0 = time.time()
    par, seen = Par(), set()
    try:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "costs.json")) as f:
            costs = json.load(f)
    except (OSError, ValueError):
        costs = {}
    again = False
    while todo or par.busy():
        for q in todo:
            if q in seen:
                continue
            seen.add(q)
            if lib.contracts[q].assumed:
                assumed[q] = lib.contracts[q].note
            else:
                par.submit(q, work, (q, tmo), lib.contracts[q].wall or (240 if a.tier == "quick" else 1500), costs.get(q, 0))
        todo = []
        for q, ok, r in par.collect():
            done[q] = r if ok else {"qual": q, "mode": "proof", "obligations": [
                {"name": "verification finishes", "status": "unknown", "reason": r, "s": 0}], "solver_s": 0, "wall_s": 0,
                "used": [], "inlined": [], "assumptions": [], "note": lib.contracts[q].note}
            if a.property:
                todo += [u for u in done[q]["used"] if u not in seen]
        if not todo and not par.busy() and not again:
            again = retry(done, a.tier)
    out = {"functions": [done[q] for q in sorted(done)], "z3": z3.get_version_string(),
           "solver_s": round(sum(d["solver_s"] for d in done.values()), 2), "wall_s": round(time.time() - t0, 2),
           "assumptions": sorted({x for d in done.values() for x in d["assumptions"]} |
                                 {"assumed contract of %s: %s" % (q, n) for q, n in assumed.items()}),
           "trusted": ["engine/ (verification-condition generator)", "z3", "CPython's own semantics of the covered subset"]}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, indent=1)
    if a.v or not a.out:
        for d in out["functions"]:
            n = len(d["obligations"])
            k = sum(o["status"] == "discharged" for o in d["obligations"])
            print("%-60s %d/%d  solver %.1fs wall %.1fs%s" % (d["qual"], k, n, d["solver_s"], d["wall_s"],
                                                             "  inlined " + ",".join(d["inlined"]) if d["inlined"] else ""))
            for o in d["obligations"]:
                if o["status"] != "discharged":
                    print("     %s: %s  [%s]" % (o["status"], o["name"], o["reason"][:300]))
        print("total %.1fs; assumed: %s" % (out["wall_s"], ", ".join(sorted(assumed))))


if __name__ == "__main__":
    main()
