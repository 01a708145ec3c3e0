#!/usr/bin/env python3
"""Try a planted bug on a scratch copy: tools/seed.py ID [--tests] [--check]

seeded/ID holds patch.diff, demo.sh and meta.json. Without --notest the
repository's tests run (one process per file) and are compared with the
baseline; the demonstration is run on the clean and the changed copy; the
property's check is run against the changed copy (PYVC_REPO)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def copy(d):
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)


def main():
    sid = sys.argv[1]
    src = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(src, "meta.json")))
    top = tempfile.mkdtemp(prefix="seed_")
    ok = True
    try:
        clean, bad = os.path.join(top, "clean"), os.path.join(top, "bad")
        copy(clean)
        copy(bad)
        subprocess.run(["git", "apply", os.path.join(src, "patch.diff")],
                       cwd=bad, check=True)
        demo = os.path.join(top, "demo")
        shutil.copytree(src, demo)
        for f in os.listdir(demo):
            if f.endswith((".diff", "meta.json")):
                os.unlink(os.path.join(demo, f))
        for d, want in ((clean, 0), (bad, 1)):
            r = subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=d,
                               capture_output=True, text=True, timeout=300)
            good = (r.returncode != 0) == bool(want)
            ok = ok and good
            print(sid, "demo", os.path.basename(d), r.returncode,
                  "ok" if good else "WRONG\n" + r.stdout[-800:] +
                  r.stderr[-1500:])
        if "--nocheck" not in sys.argv:
            env = dict(os.environ, PYVC_REPO=bad, PYVC_EVIDENCE=top + "/ev")
            r = subprocess.run([PY, "-m", "pyvc.run", meta["property"]],
                               cwd=V, env=env, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines()
                 if x.startswith(("VIOL", "violated", "inputs"))]
            print(sid, "check rc", r.returncode,
                  "CAUGHT" if r.returncode == 1 and v else "MISSED",
                  "\n   ".join([""] + v))
            if r.returncode not in (0, 1):
                print(r.stdout[-2000:], r.stderr[-2000:])
        if "--notest" not in sys.argv:
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base if isinstance(base, list) else base.get(
                "passed") or base.get("stable") or base.get("tests")
            sh = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + bad)
            sh = sh.replace("export HOME", "export PYTHONPATH=%s HOME" % bad, 1)
            p = os.path.join(top, "test.sh")
            open(p, "w").write(sh)
            subprocess.run(["bash", p, top + "/out.json"], capture_output=True)
            got = set(json.load(open(top + "/out.json"))["passed"])
            miss = sorted(set(names) - got)
            ok = ok and not miss
            print(sid, "tests", "pass" if not miss else "FAIL %s" % miss[:8])
    finally:
        shutil.rmtree(top)
    print(sid, "KEEP" if ok else "REJECT")


main()
