"""Creates and validates a planted bug: plant.py SPEC.py  (a file that defines
BUGS = {id: dict(prop, file, edits=[(old, new)], needs, breaks, demo)}).
Everything runs in a scratch copy of /repo under /tmp."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = "import contextlib, io, os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n"


def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for bid, b in ns["BUGS"].items():
        if only and bid not in only:
            continue
        d = tempfile.mkdtemp(prefix="plant")
        r = d + "/repo"
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", r])
            f = r + "/pyNTM/" + b["file"]
            s = open(f).read()
            for old, new in b["edits"]:
                if s.count(old) != 1:
                    print(bid, "edit does not match once:", s.count(old), old[:60])
                    raise SystemExit
                s = s.replace(old, new)
            out = V + "/seeded/" + bid
            os.makedirs(out, exist_ok=True)
            open(out + "/demo.sh", "w").write(DEMO)
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo.py", "w").write(HEAD + b["demo"])
            a = sh("sh %s/demo.sh" % out, r)
            open(f, "w").write(s)
            open(out + "/patch.diff", "w").write(sh("git diff", r).stdout)
            c = sh("sh %s/demo.sh" % out, r)
            t = sh("PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest --no-cov -q -x -o cache_dir=%s/cache 2>&1 | tail -4" % d, r)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            ok = a.returncode == 0 and c.returncode != 0 and "311 passed" in t.stdout and " failed" not in t.stdout
            print(bid, "OK" if ok else "REJECTED", "clean demo", a.returncode, "patched demo", c.returncode,
                  "tests", t.stdout.strip().splitlines()[-1:], flush=True)
            if not ok:
                print(a.stdout[-800:] if a.returncode else "", c.stdout[-300:] if not c.returncode else "", t.stdout[-500:])
            else:
                e = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1")
                k = sh("bin/check " + b["prop"], V, env=e)
                print("   check:", k.returncode, "CAUGHT" if k.returncode == 1 else "MISSED", k.stdout.strip()[-400:])
        finally:
            shutil.rmtree(d)


main()
