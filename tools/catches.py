"""Runs each planted bug's check (or all checks with --all) against a scratch
copy of /repo with the bug applied: catches.py [ids]."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    for b in ids:
        d = tempfile.mkdtemp(prefix="catch")
        try:
            r = d + "/repo"
            subprocess.check_call(["git", "clone", "-q", "/repo", r])
            subprocess.check_call(["git", "-C", r, "apply", "%s/seeded/%s/patch.diff" % (V, b)])
            pid = json.load(open("%s/seeded/%s/meta.json" % (V, b)))["property"]
            k = subprocess.run([V + "/bin/check", pid], env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1"), text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(b, pid, "CAUGHT" if k.returncode == 1 else "MISSED", k.stdout.strip().replace("\n", " | ")[-300:],
                  flush=True)
        finally:
            shutil.rmtree(d)


main()
