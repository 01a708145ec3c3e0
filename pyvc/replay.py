"""python -m pyvc.replay <replay file>: run the recorded failing inputs of a
violation against the unmodified code."""
import json
import os
import sys


def main():
    d = json.load(open(sys.argv[1]))
    from pyvc import worker
    worker.setup(False)
    from pyvc.api import run_concrete
    import random
    rc = 0
    for v in d["violations"]:
        print("property %s, harness %s: %s" % (
            d["property"], v["harness"], v["obligation"]))
        if v["inputs"] is None:
            print("  no failing input found;", json.dumps(
                v["detail"], default=str)[:2000])
            continue
        h = worker.load(d["property"])[v["harness"]]
        st, fails, vc = run_concrete(h, v["inputs"], random.Random(1))
        print("  inputs:", json.dumps(v["inputs"])[:1000])
        print("  ->", st, fails)
        for n in vc.notes:
            print("   ", n)
        rc = rc or (1 if fails else 0)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
