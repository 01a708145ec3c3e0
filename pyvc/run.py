"""python -m pyvc.run <PROPERTY>   (VERIF_SEED, VERIF_TIER from environment)

Exit 0: every obligation discharged (or, where the verifier could not decide,
the labelled bounded stand-in found nothing).  Exit 1 with a VIOLATION line:
an obligation generated from /repo's current source is refuted."""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile
import atexit
import shutil
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE_TRUST = [
    "pyvc (this framework): the proxy semantics of Python ints/bools/lists in "
    "/verif/pyvc and the mechanical source rewriting of pyvc/loader.py",
    "z3 5.3.2 and, for queries z3 leaves unknown, cvc5",
    "CPython 3.12 executes the function bodies",
]


def spawn(mode, args, timeout, env):
    fd, out = tempfile.mkstemp(prefix="pyvc_", suffix=".json")
    os.close(fd)
    try:
        p = subprocess.run(
            [PY, os.path.join(HERE, "pyvc", "worker.py"), mode,
             json.dumps(args), out],
            env=env, cwd=HERE, stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        with open(out) as f:
            txt = f.read()
        if not txt:
            return {"ok": False, "error": "worker died rc=%s: %s" % (
                p.returncode, p.stderr.decode(errors="replace")[-500:])}
        return json.loads(txt)
    except subprocess.TimeoutExpired:
        return {"ok": False, "error": "worker timed out after %ss" % timeout}
    finally:
        if os.path.exists(out):
            os.unlink(out)


def load_known(prop):
    path = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    only = os.environ.get("PYVC_ONLY")
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               EPICS_CA_ADDR_LIST="127.0.0.1", EPICS_CA_AUTO_ADDR_LIST="NO",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    scratch = tempfile.mkdtemp(prefix="pyvc_scratch_")
    atexit.register(shutil.rmtree, scratch, ignore_errors=True)
    env["TMPDIR"] = scratch
    # list harnesses (concrete worker can tell us)
    names = subprocess.run(
        [PY, "-c", "import sys; sys.path.insert(0, %r)\n"
         "from pyvc import worker; worker.setup(False)\n"
         "hs = worker.load(%r)\n"
         "import json\n"
         "m = sys.modules['checks.' + %r]\n"
         "print('@@' + json.dumps([[k, h.concrete_only, h.budget, h.functions,"
         " h.bounded, h.note] for k, h in hs.items()]))\n"
         "print('@A' + json.dumps(getattr(m, 'ASSUMPTIONS', [])))\n"
         "print('@T' + json.dumps(getattr(m, 'TRUSTED', [])))\n"
         "print('@L' + json.dumps(getattr(m, 'LEVEL', 'proof')))\n"
         "sys.stdout.flush()\n"
         "import os; os._exit(0)" % (HERE, prop, prop)],
        env=env, cwd=HERE, capture_output=True, text=True, timeout=300)
    hs, assumptions, trusted, level = [], [], [], "proof"
    for line in names.stdout.splitlines():
        if line.startswith("@@"):
            hs = json.loads(line[2:])
        if line.startswith("@A"):
            assumptions = json.loads(line[2:])
        if line.startswith("@T"):
            trusted = json.loads(line[2:])
        if line.startswith("@L"):
            level = json.loads(line[2:])
    load_error = None
    if not hs:
        load_error = names.stderr[-1500:]
    if only:
        hs = [h for h in hs if h[0] in only.split(",")]
    total = 780 if tier == "quick" else 3600
    jobs = {}
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for name, conc_only, budget, fns, bounded, note in hs:
            lim = min(total - 60, (budget if tier == "quick" else max(
                budget * 4, 600)) * 2 + 60)
            if not conc_only:
                jobs[("sym", name)] = ex.submit(
                    spawn, "sym", {"prop": prop, "h": name, "tier": tier},
                    lim, env)
            climit = 40 if tier == "quick" else 300
            jobs[("conc", name)] = ex.submit(
                spawn, "conc", {"prop": prop, "h": name, "seed": seed,
                                "tier": tier, "limit": climit},
                climit + 150, env)
        res = {k: f.result() for k, f in jobs.items()}

    known = load_known(prop)
    violations, undecided, known_hits = [], [], {}
    ob_total = ob_dis = inv_total = 0
    solver_s = 0.0
    fns_contract, bounded_list, backends = [], [], {}
    paths = 0
    samples, evals, distinct = [], 0, 0
    hinfo = []

    def is_known(hname, obligation, inputs):
        for k in known:
            if k.get("harness") == hname and all(
                    o == k.get("obligation") for o in obligation.split("; ")):
                return k
        return None

    def add_violation(hname, obligation, inputs, how, extra):
        k = is_known(hname, obligation, inputs)
        if k:
            known_hits[k["id"]] = k
            return
        violations.append({"harness": hname, "obligation": obligation,
                           "inputs": inputs, "how": how, "detail": extra})

    for name, conc_only, budget, fns, bounded, note in hs:
        info = {"harness": name, "functions": fns, "bounded": bounded,
                "note": note}
        c = res.get(("conc", name))
        conc_fail = False
        if c and c["ok"]:
            r = c["r"]
            evals += r["runs"] - r["discarded"]
            distinct += r["distinct"]
            info["concrete"] = {k: r[k] for k in
                                ("runs", "discarded", "checks", "distinct",
                                 "slowest_s")}
            if r.get("bind"):
                undecided.append("%s: concrete contract no longer binds: %s" % (
                    name, r["bind"]))
            if r["samples"] and len(samples) < 4:
                samples.append({"harness": name, **r["samples"][0]})
            for f in r["failures"]:
                conc_fail = True
                add_violation(name, "; ".join(f["obligations"]), f["inputs"],
                              "executable contract on the unmodified code",
                              f["notes"])
        elif c:
            undecided.append("%s: concrete: %s" % (name, c["error"]))
        if conc_only:
            info["status"] = "bounded (concrete only)"
            bounded_list.append("%s: %s" % (name, bounded or "concrete only"))
            hinfo.append(info)
            continue
        s = res.get(("sym", name))
        if not s["ok"]:
            undecided.append("%s: %s" % (name, s["error"]))
            info["status"] = "undecided: " + s["error"]
            bounded_list.append("%s: verifier could not run (%s); executable "
                                "contract only" % (name, s["error"]))
            hinfo.append(info)
            continue
        r = s["r"]
        solver_s += r["solver_s"]
        paths += r["paths"]
        ref = [o for o in r["results"] if o["status"] == "refuted"]
        unk = [o for o in r["results"] if o["status"] == "unknown"]
        complete = not (r["truncated"] or r["unsupported"] or r["incomplete"]
                        or unk)
        n_here = sum(1 for o in r["results"] if o["kind"] != "exception")
        d_here = sum(1 for o in r["results"] if o["status"] == "discharged")
        info.update(obligations=n_here, discharged=d_here, paths=r["paths"],
                    solver_s=r["solver_s"], truncated=r["truncated"],
                    unsupported=r["unsupported"][:3],
                    incomplete=r["incomplete"], unknown=len(unk),
                    bind_failure=r.get("bind_failure"),
                    cut_loops=r["cut_loops"], covers=r["covers"],
                    wall=r["wall"])
        if not r["canary_ok"]:
            undecided.append("%s: canary obligation was not refuted" % name)
        if n_here == 0 and not ref:
            undecided.append("%s: zero obligations" % name)
        for cname, ok in r["covers"].items():
            if not ok:
                undecided.append("%s: cover %s not reached" % (name, cname))
        if complete and not bounded:
            ob_total += n_here
            ob_dis += d_here
            fns_contract += fns
            info["status"] = "proved" if not ref else "refuted"
        else:
            why = bounded or r.get("bind_failure") or r["incomplete"] or (
                r["unsupported"] and "unsupported: " + r["unsupported"][0]) or (
                r["truncated"] and "loops unrolled to a bound") or (
                "solver unknown on %d obligations" % len(unk))
            info["status"] = "bounded"
            bounded_list.append("%s: %s (%d obligations discharged within the "
                                "bound)" % (name, why, d_here))
            if not bounded:
                undecided.append("%s: %s" % (name, why))
        for o in r["results"]:
            if o["status"] == "discharged":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        if r.get("bind_failure") and complete is False:
            pass
        # replay refuted obligations on the unmodified code
        if ref:
            models = [o["model"] for o in ref if o.get("model")][:8]
            rep = spawn("replay", {"prop": prop, "h": name, "inputs": models,
                                   "seed": seed}, 200, env)
            hit = rep.get("r") if rep.get("ok") else None
            if hit:
                add_violation(name, "; ".join(hit["obligations"]),
                              hit["inputs"],
                              "solver counter-model replayed on the "
                              "unmodified code", hit["notes"])
            elif not conc_fail:
                seen = set()
                for o in ref:
                    if o["kind"] == "exception":
                        undecided.append(
                            "%s: %s on a symbolic path, not reproduced" % (
                                name, o["name"]))
                        continue
                    if o["name"] in seen:
                        continue
                    seen.add(o["name"])
                    add_violation(name, o["name"], None,
                                  "obligation refuted by the solver; model "
                                  "did not replay",
                                  {"model": o.get("model"),
                                   "notes": o.get("notes"),
                                   "replay": rep if not rep.get("ok") else None})
        hinfo.append(info)

    # ---- report ----
    edir = os.environ.get("PYVC_EVIDENCE", os.path.join(HERE, "evidence"))
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, "%s.json" % prop)
    if os.path.exists(rpath):
        os.unlink(rpath)
    with_input = [v for v in violations if v["inputs"] is not None]
    if violations:
        with open(rpath, "w") as f:
            json.dump({"property": prop, "violations": violations,
                       "how_to_replay": "python -m pyvc.replay " + rpath},
                      f, indent=1, default=str)
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": level,
        "coverage": {
            "obligations": ob_total, "discharged": ob_dis,
            "checker_cmd": "%s -m pyvc.run %s" % (PY, prop),
            "trusted_base": BASE_TRUST + trusted,
            "functions_under_contract": sorted(set(fns_contract)),
            "bounded_standins": bounded_list,
            "undecided": undecided,
            "backends": backends, "solver_s": round(solver_s, 2),
            "paths": paths,
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "executable contract run on the unmodified modules with "
                    "seeded boundary/random inputs; non-trivial = at least "
                    "one contract clause evaluated, distinct by input values",
            "samples": samples, "harnesses": hinfo,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if load_error:
        ev["coverage"]["load_error"] = load_error
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d/%d obligations discharged, %d bounded stand-ins, %d concrete "
          "evaluations, solver %.1fs, wall %.1fs" % (
              prop, ob_dis, ob_total, len(bounded_list), evals, solver_s,
              time.time() - t0))
    if "-v" in sys.argv:
        for i in hinfo:
            print("  ", json.dumps({k: v for k, v in i.items() if v}))
    for b in bounded_list:
        print("  bounded:", b)
    for u in undecided:
        print("  undecided:", u)
    for k in known_hits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        v = (with_input or violations)[0]
        print("violated obligation [%s]: %s" % (v["harness"], v["obligation"]))
        print("inputs:", json.dumps(v["inputs"], default=str)[:600])
        print("VIOLATION property=%s replay=%s%s" % (
            prop, rpath, "" if with_input else " no-failing-input-found"))
        sys.exit(1)
    if load_error:
        print("check could not load:", load_error)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
