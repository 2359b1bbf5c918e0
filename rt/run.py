"""Run-time side of the checks: runs generated cases of one property against
the real code (under /opt/venv/bin/python), in parallel, within a time budget.
  run.py PROPERTY --seconds S --seed N --out FILE
  run.py PROPERTY --replay FILE
Writes {"evaluations":..,"distinct":..,"samples":[..],"failures":[{case,messages}],"errors":[..]}."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def run_one(pid, case):
    """(violations, harness error or None)"""
    import registry as G
    try:
        return G.RUN[pid](case), None
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        txt = "%s: %s" % (type(e).__name__, str(e)[:200])
        where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name)
        if any(f.filename.startswith(REPO) for f in tb):
            f = [f for f in tb if f.filename.startswith(REPO)][-1]
            return ["%s:%s raises %s" % (os.path.basename(f.filename), f.name, txt)], None
        if isinstance(e, AttributeError) and "attribute '_" in str(e) or isinstance(e, (MemoryError, OSError)):
            return [], "%s (%s)" % (txt, where)
        return ["results are malformed: %s (%s)" % (txt, where)], None


def shrink(pid, case, secs=10):
    """Greedy reduction of a failing case."""
    end = time.time() + secs

    def fails(c):
        for _ in range(2):
            b, e = run_one(pid, c)
            if b:
                return b
        return None
    best, msg = case, None
    changed = True
    while changed and time.time() < end:
        changed = False
        for key in ("ops", "q", "vals", "demands", "lsps", "links", "nodes", "rows"):
            v = best.get(key)
            if not isinstance(v, list):
                continue
            for k in range(len(v) - 1, -1, -1):
                if time.time() > end:
                    break
                c = json.loads(json.dumps(best))
                del c[key][k]
                if key == "ops" and "upd" in c:
                    del c["upd"][k]
                if key == "nodes" and c.get("links") is not None:
                    nm = v[k]["name"] if isinstance(v[k], dict) else v[k][0]
                    if nm in json.dumps([c.get("links"), c.get("demands"), c.get("lsps"), c.get("ops"), c.get("q")]):
                        continue
                if key in ("links", "rows", "demands", "lsps") and c.get("bad"):
                    continue
                b = fails(c)
                if b:
                    best, msg, changed = c, b, True
    return best, msg


def worker(a):
    pid, seed, w, nw, deadline, maxcases = a
    import registry as G
    ev, seen, fails, errs, samples = 0, set(), [], [], []
    k = w
    while time.time() < deadline and k < maxcases:
        rng = random.Random("%s/%s/%d" % (pid, seed, k))
        case = json.loads(json.dumps(G.GEN[pid](rng, k)))
        bad, err = run_one(pid, case)
        ev += 1
        if err:
            errs.append(err)
            if len(errs) > 50:
                break
        if G.nontrivial(case):
            seen.add(hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16])
        if not samples and G.nontrivial(case):
            samples.append(case)
        if bad:
            fails.append({"case": case, "messages": bad[:5], "index": k})
            known = G.is_known(pid, case, bad)
            if not known:
                break
            fails[-1]["known"] = known
            if len(fails) > 20:
                fails = fails[-20:]
        k += nw
    return ev, seen, fails, errs, samples


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--jobs", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    o = ap.parse_args()
    if o.replay:
        d = json.load(open(o.replay))
        for t in range(30):
            bad, err = run_one(o.pid, d["case"])
            if bad:
                break
        for b in bad:
            print(b)
        print("error: %s" % err if err else "violated" if bad else "held (30 runs)")
        sys.exit(1 if bad else 0)
    t0 = time.time()
    deadline = t0 + o.seconds
    with mp.Pool(o.jobs) as p:
        rs = p.map(worker, [(o.pid, o.seed, w, o.jobs, deadline, o.max) for w in range(o.jobs)], chunksize=1)
    import registry as G
    seen = set().union(*[r[1] for r in rs])
    fails = [f for r in rs for f in r[2]]
    fails.sort(key=lambda f: (bool(f.get("known")), len(json.dumps(f["case"]))))
    if fails and not fails[0].get("known"):
        c, m = shrink(o.pid, fails[0]["case"])
        if m and not G.is_known(o.pid, c, m):
            fails[0]["case"], fails[0]["messages"] = c, m[:5]
    res = {"property": o.pid, "evaluations": sum(r[0] for r in rs), "distinct_nontrivial": len(seen),
           "rule": G.RULE, "samples": [s for r in rs for s in r[4]][:2], "failures": fails[:20],
           "errors": sorted(set(e for r in rs for e in r[3]))[:10], "n_errors": sum(len(r[3]) for r in rs),
           "wall_s": round(time.time() - t0, 2)}
    with open(o.out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
