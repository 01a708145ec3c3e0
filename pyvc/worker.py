"""Worker processes: symbolic verification and concrete execution."""
import importlib
import json
import logging
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup(symbolic):
    sys.path.insert(0, HERE)
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    # PYVC_REPO: only for trying planted bugs on a copy
    repo = os.environ.get("PYVC_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(1, repo)
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    if symbolic:
        from pyvc import loader
        loader.install()


def load(prop):
    mod = importlib.import_module("checks." + prop)
    from pyvc.api import HARNESSES
    return HARNESSES.get(prop, {})


def sym_one(prop, hname, tier):
    from pyvc import rt, seqs
    from pyvc.api import SymVC
    from pyvc.api import harness_fault
    from pyvc.engine import BindError, Engine
    from pyvc.engine import Unsupported as BindError2
    h = load(prop)[hname]
    t0 = time.time()
    budget = h.budget if tier == "quick" else max(h.budget * 4, 600)

    def attempt(use_loops):
        eng = Engine(timeout_ms=h.timeout_ms, max_paths=h.max_paths,
                     deadline=time.time() + budget)
        eng.use_loop_contracts = use_loops
        rt.LOOPS.clear()
        if use_loops:
            rt.LOOPS.update(h.loops)
        seqs.UNROLL = h.unroll if tier == "quick" else h.unroll + 2
        exc = []

        def run():
            vc = SymVC(eng)
            try:
                h.fn(vc)
            except Exception as e:
                vc.guard_exc(e)
                if harness_fault(e):
                    raise BindError2("%s: %s" % (type(e).__name__, e))
                m = None
                if eng._check() .r == 1:
                    m = eng.model_inputs(eng.solver.model())
                tb = traceback.format_exc()
                eng.results.append({
                    "name": "no unexpected exception (%s: %s)" % (
                        type(e).__name__, str(e)[:120]),
                    "kind": "exception", "status": "refuted", "model": m,
                    "path": eng.paths, "s": 0.0, "backend": "z3",
                    "cut": eng.path_cut, "notes": [tb[-1200:]]})
            finally:
                vc.cleanup()
        eng.explore(run)
        return eng

    out = {"harness": hname, "functions": h.functions, "note": h.note,
           "bounded": h.bounded}
    bind = None
    try:
        eng = attempt(True)
    except BindError as e:
        bind = str(e)
        eng = None
    # auxiliary invariants that no longer fit: fall back to unrolling
    if eng is not None and h.loops and any(
            r["kind"] == "invariant" and r["status"] == "refuted"
            for r in eng.results):
        bind = "loop invariant not inductive on the current text: " + "; ".join(
            sorted({r["name"] for r in eng.results
                    if r["kind"] == "invariant" and r["status"] == "refuted"}))
    if eng is not None and h.loops and eng.cut_loops != set(h.loops):
        missing = set(h.loops) - eng.cut_loops
        if missing and not bind:
            bind = "loop under contract not reached: %s" % sorted(missing)
    if bind:
        eng2 = attempt(False)
        out["bind_failure"] = bind
        eng = eng2
    canary = Engine(timeout_ms=5000)
    Engine.cur = canary
    canary._reset_path()
    import z3
    x = z3.Int("canary")
    canary.add(x >= 0)
    canary.check("canary", x >= 1)
    out["canary_ok"] = canary.results[0]["status"] == "refuted"
    Engine.cur = None
    from pyvc import loader
    out.update(
        results=eng.results, paths=eng.paths, truncated=eng.truncated,
        unsupported=eng.unsupported, incomplete=eng.incomplete,
        solver_s=round(eng.solver_s, 3), queries=eng.queries,
        covers={c: bool(eng.covers.get(c)) for c in h.covers},
        cut_loops=[list(k) for k in sorted(eng.cut_loops)],
        normal_paths=eng.path_kinds["normal"],
        cvc5=eng.cvc5_discharged, wall=round(time.time() - t0, 2),
        loaded=len(loader.LOADED))
    return out


def conc_random(prop, hname, seed, tier, limit_s):
    from pyvc.api import run_concrete
    h = load(prop)[hname]
    rng = random.Random("%s/%s/%d" % (prop, hname, seed))
    n = h.rand if tier == "quick" else h.rand * 20
    t0 = time.time()
    stats = {"harness": hname, "runs": 0, "discarded": 0, "checks": 0,
             "failures": [], "samples": [], "slowest_s": 0}
    distinct = set()
    for i in range(n):
        if time.time() - t0 > limit_s:
            break
        t1 = time.time()
        st, fails, vc = run_concrete(h, None, rng)
        stats["slowest_s"] = max(stats["slowest_s"],
                                 round(time.time() - t1, 2))
        stats["runs"] += 1
        if st == "discard":
            stats["discarded"] += 1
            continue
        if st == "bind":
            stats["bind"] = vc.bind
            stats["discarded"] += 1
            continue
        stats["checks"] += vc.checks
        if vc.checks:
            distinct.add(repr(sorted(vc.used.items(), key=lambda x: x[0])))
        if len(stats["samples"]) < 2 and vc.checks:
            stats["samples"].append(
                {"inputs": json.loads(json.dumps(vc.used, default=str))})
        if fails:
            stats["failures"].append(
                {"obligations": fails[:5],
                 "inputs": json.loads(json.dumps(vc.used, default=str)),
                 "notes": vc.notes[-6:]})
            if len(stats["failures"]) >= 5 or vc.hung:
                break
    stats["distinct"] = len(distinct)
    return stats


def replay(prop, hname, inputs_list, seed):
    from pyvc.api import run_concrete
    h = load(prop)[hname]
    for inp in inputs_list:
        for k in range(3):
            rng = random.Random(seed + k)
            st, fails, vc = run_concrete(h, inp, rng)
            if fails:
                return {"inputs": json.loads(json.dumps(vc.used, default=str)),
                        "obligations": fails[:5], "notes": vc.notes[-6:]}
    return None


def main():
    mode = sys.argv[1]
    args = json.loads(sys.argv[2])
    setup(mode == "sym")
    out = sys.argv[3]
    try:
        if mode == "sym":
            r = sym_one(args["prop"], args["h"], args["tier"])
        elif mode == "conc":
            r = conc_random(args["prop"], args["h"], args["seed"],
                            args["tier"], args["limit"])
        else:
            r = replay(args["prop"], args["h"], args["inputs"], args["seed"])
        r = {"ok": True, "r": r}
    except BaseException as e:
        r = {"ok": False, "error": "%s: %s" % (type(e).__name__, e),
             "tb": traceback.format_exc()[-3000:]}
    with open(out, "w") as f:
        json.dump(r, f, default=str)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
