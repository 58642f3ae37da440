#!/usr/bin/env python
"""check.py <property> [quick|thorough]   decide one property on /repo's current tree
check.py --replay <file>               replay one counterexample on the unmodified code
check.py --one <property> <harness> [tier]   one harness in this process (development)"""

import importlib
import json
import os
import pickle
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = "/repo/src"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"


def setup_path():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    if REPO_SRC not in sys.path:
        sys.path.insert(1, REPO_SRC)
    if VT not in sys.path:
        sys.path.append(VT)
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)


def load(prop, symbolic):
    setup_path()
    if symbolic:
        from sx import instrument
        mod = "props." + prop.lower()
        extra = set()
        # a property module may name further modules to instrument
        import re
        src = open(os.path.join(HERE, "props", prop.lower() + ".py")).read()
        m = re.search(r"^INSTRUMENT\s*=\s*(\(.*?\))", src, re.M | re.S)
        if m:
            import ast
            extra = set(ast.literal_eval(m.group(1)))

        def want(name):
            if name in extra:
                return True
            if name.startswith("props.") or name == "schema_salad.utils":
                return True
            if name.startswith("cwl_utils"):
                if ".tests" in name:
                    return False
                last = name.rsplit(".", 1)[-1]
                if last in ("cwl_v1_0", "cwl_v1_1", "cwl_v1_2") and ".parser." in name:
                    return False
                return True
            return False

        instrument.install(want, plain=("schema_salad",))
    return importlib.import_module("props." + prop.lower())


# ---------------------------------------------------------------- replay
def replay(path, quiet=False):
    """Exit status 1 when the counterexample fails on the unmodified code."""
    with open(path) as fh:
        data = json.load(fh)
    m = load(data["property"], symbolic=False)
    from sx.ctx import ConcCtx, Skip, Violation
    h = {x["name"]: x for x in m.HARNESSES}[data["harness"]]
    ctx = ConcCtx(data["values"], data.get("config"))
    try:
        h["fn"](ctx)
    except Violation as v:
        print(f"REPRODUCED {v.label}: {v.info if v.info is not None else ''}")
        return 1
    except Skip:
        print("NOT-REPRODUCED (input outside the assumed space)")
        return 0
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        print(f"REPRODUCED unexpected {type(e).__name__}: {e}")
        return 1
    print("NOT-REPRODUCED")
    return 0


# ---------------------------------------------------------------- one job
def run_job(prop, hname, config, budget, prefix=(), donate=None, wanted=None):
    from sx import engine
    from sx.ctx import SymCtx
    m = sys.modules["props." + prop.lower()]
    h = {x["name"]: x for x in m.HARNESSES}[hname]
    import z3
    z3.set_param("smt.random_seed", 0)
    t0 = time.monotonic()
    g = engine.Engine(deadline=t0 + budget, max_ticks=h.get("max_ticks", 400000),
                      realise_cap=h.get("realise_cap", 64))
    g.prefix = tuple(prefix)
    g.donate, g.wanted = donate, wanted
    engine.set_engine(g)
    errs = []

    def run():
        ctx = SymCtx(g, config)
        try:
            h["fn"](ctx)
        except Exception as e:  # noqa: BLE001
            # An exception that escaped the harness: a counterexample candidate,
            # believed only if it also escapes on the unmodified code.
            if len(errs) < 3:
                errs.append(traceback.format_exc(limit=-8))
            g.violation(f"escaped {type(e).__name__}", g._ensure_model())

    try:
        g.explore(run)
    except engine.Nondeterminism as e:
        g.errors.append("nondeterminism: %s" % e)
        errs.append(traceback.format_exc(limit=-12))
    engine.set_engine(None)
    return dict(
        harness=hname, config=config, stats=g.stats, incomplete=g.incomplete_reasons,
        violations=g.violations, labels=g.viol_labels, reached=g.reached,
        funcs=sorted(g.funcs), truncated=g.truncated, errors=g.errors, tracebacks=errs,
        probes=g.probes, samples=g.samples[:1], wall=time.monotonic() - t0,
    )


def run_all(prop, jobs, workers, end):
    """Run the jobs in forked processes, a fresh fork per job.  A running job
    hands parts of its search to processes that would otherwise be idle."""
    import multiprocessing as mp
    import multiprocessing.connection as mpc
    ctx = mp.get_context("fork")
    pending = [dict(j) for j in jobs]
    running = {}
    results = []
    idle = ctx.Value("i", 0, lock=False)

    def failed(job, why, tb=()):
        return dict(harness=job["harness"], config=job["config"], stats={}, incomplete={},
                    violations=[], labels={}, reached={}, funcs=[], truncated=True,
                    errors=[why], tracebacks=list(tb), probes=[], samples=[], wall=0.0)

    def child(conn, job, budget):
        def donate(prefix):
            conn.send_bytes(pickle.dumps(("split", prefix)))

        try:
            r = run_job(prop, job["harness"], job["config"], budget, job.get("prefix", ()),
                        donate, lambda: idle.value > 0)
        except BaseException as e:  # noqa: BLE001
            r = failed(job, f"{type(e).__name__}: {e}", [traceback.format_exc()])
        conn.send_bytes(pickle.dumps(("done", json.dumps(r, default=str))))
        conn.close()
        os._exit(0)

    while pending or running:
        while pending and len(running) < workers:
            job = pending.pop(0)
            budget = max(1.0, end - time.monotonic())
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, job, budget))
            p.start()
            b.close()
            running[a] = (job, p, time.monotonic() + budget + 30)
        idle.value = max(0, workers - len(running) - len(pending))
        ready = mpc.wait(list(running), timeout=1.0)
        now = time.monotonic()
        for a in list(running):
            job, p, hard = running[a]
            if a in ready:
                try:
                    what, data = pickle.loads(a.recv_bytes())
                except EOFError:
                    what, data = "done", json.dumps(failed(job, "worker ended without a result"))
                if what == "split":
                    pending.append(dict(job, prefix=data))
                    idle.value = max(0, idle.value - 1)
                    continue
                results.append(json.loads(data))
                a.close()
                p.join()
                del running[a]
            elif now > hard:
                p.kill()
                p.join()
                a.close()
                results.append(failed(job, "worker did not stop in time"))
                del running[a]
    results.sort(key=lambda r: (r["harness"], str(r["config"])))
    return results


def jobs_of(m, tier, only=None):
    jobs = []
    for h in m.HARNESSES:
        if only and h["name"] != only:
            continue
        cfgs = h.get("configs", {})
        if callable(cfgs):
            cfgs = cfgs(tier)
        elif isinstance(cfgs, dict):
            cfgs = cfgs.get(tier, cfgs.get("quick", [None]))
        for c in ([None] if cfgs is None else cfgs):
            jobs.append({"harness": h["name"], "config": c, "weight": h.get("weight", 1)})
    return jobs


def confirm(path):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run([PY, os.path.join(HERE, "check.py"), "--replay", path],
                           capture_output=True, text=True, timeout=60, env=env, cwd=HERE)
    except subprocess.TimeoutExpired:
        return True, "does not terminate within 60 s"
    lines = r.stdout.strip().splitlines() or [""]
    out = ([x for x in lines if x.startswith("REPRODUCED")] or lines)[-1]
    if r.returncode == 1 and out.startswith("REPRODUCED"):
        return True, out
    if r.returncode == 0:
        return False, out
    return None, (out + " " + r.stderr[-2000:]).strip()


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [f for f in json.load(fh)["findings"] if f["property"] == prop]


def main_check(prop, tier):
    t0 = time.monotonic()
    limit = {"quick": 600, "thorough": 840}[tier]
    m = load(prop, symbolic=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = jobs_of(m, tier)
    end = t0 + limit - 90
    results = run_all(prop, jobs, int(os.environ.get("VERIF_WORKERS", "8")), end)

    tot = {}
    inc, reached, funcs, errors = {}, {}, set(), []
    per = {}
    cands = []
    truncated = 0
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r["incomplete"].items():
            inc[k] = inc.get(k, 0) + v
        for k, v in r["reached"].items():
            reached[r["harness"] + "/" + k] = reached.get(r["harness"] + "/" + k, 0) + v
        funcs.update(r["funcs"])
        errors += [f'{r["harness"]}{r["config"]}: {e}' for e in r["errors"]]
        truncated += bool(r["truncated"])
        p = per.setdefault(r["harness"], dict(jobs=0, paths=0, queries=0, asserts=0, asserts_symbolic=0, cpu_s=0.0))
        p["jobs"] += 1
        for k in ("paths", "queries", "asserts", "asserts_symbolic"):
            p[k] += r["stats"].get(k, 0)
        p["cpu_s"] = round(p["cpu_s"] + r["wall"], 2)
        for v in r["violations"]:
            cands.append((r, v))

    # replay candidates on the unmodified code, a few per (harness, label)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    confirmed, spurious = [], []
    tried = {}
    ok = {}
    for r, v in cands:
        key = (r["harness"], v["label"])
        if ok.get(key) or tried.get(key, 0) >= 4 or len(confirmed) >= 6:
            continue
        if time.monotonic() - t0 > limit:
            break
        tried[key] = tried.get(key, 0) + 1
        path = os.path.join(HERE, "replays", f"{prop}-{len(tried)}-{tried[key]}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "harness": r["harness"], "config": r["config"],
                       "label": v["label"], "values": v["values"], "info": v.get("info")}, fh, indent=1, default=str)
        good, msg = confirm(path)
        if good:
            ok[key] = True
            confirmed.append((path, v["label"], msg))
        else:
            spurious.append((path, v["label"], msg, r["tracebacks"]))

    # paths the encoding could not follow: run the code itself on the values the
    # solver gives for them (no claim of coverage, but a failure is a failure)
    probes = []
    for r in sorted(results, key=lambda r: -len(r["probes"])):
        for k, v in enumerate(r["probes"]):
            probes.append((k, r, v))
    probes.sort(key=lambda x: x[0])
    probed = 0
    if probes and not confirmed:
        from concurrent.futures import ThreadPoolExecutor
        paths = []
        for n, (_, r, v) in enumerate(probes[:32]):
            path = os.path.join(HERE, "replays", f"{prop}-probe-{n}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "harness": r["harness"], "config": r["config"],
                           "label": "undecided path", "values": v, "info": None}, fh, indent=1, default=str)
            paths.append(path)
        with ThreadPoolExecutor(8) as ex:
            for path, (good, msg) in zip(paths, ex.map(confirm, paths)):
                probed += 1
                if good and len(confirmed) < 6:
                    confirmed.append((path, "undecided path", msg))
                else:
                    os.unlink(path)

    kf_lines = []
    for f in known_findings(prop):
        path = os.path.join(HERE, f["replay"])
        good, msg = confirm(path)
        if good:
            kf_lines.append(f"KNOWN-FINDING: property={prop} {f['what']}")

    expected = set()
    for h in m.HARNESSES:
        for lab in h.get("reach", ()):
            expected.add(h["name"] + "/" + lab)
    missing = sorted(expected - set(reached))
    exhaustive = not truncated and not inc and not errors and not tot.get("incomplete") and not spurious

    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (
                "Symbolic execution of the real source (instrumented at import from /repo's "
                "current tree): Z3 decides every branch and every assertion for all values of "
                "the symbolic inputs within the stated bounds; every feasible path is executed. "
                + " ".join((m.__doc__ or "").split())),
            "functions_encoded": sorted(f for f in funcs if f.startswith("cwl_utils")),
            "library_functions_encoded": sorted(f for f in funcs if not f.startswith(("cwl_utils", "props"))),
            "bounds": m.BOUNDS if not callable(m.BOUNDS) else m.BOUNDS(tier),
            "outside": getattr(m, "OUTSIDE", ""),
            "paths": tot.get("paths", 0),
            "paths_infeasible_assumption": tot.get("aborted", 0),
            "branch_decisions": tot.get("decisions", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_s": round(tot.get("solver_s", 0.0), 2),
            "assertions_decided": tot.get("asserts", 0),
            "assertions_decided_by_query": tot.get("asserts_symbolic", 0),
            "exhaustive": bool(exhaustive),
            "undecided": {"paths": tot.get("incomplete", 0), "reasons": inc,
                          "inputs_of_undecided_paths_run": probed,
                          "jobs_cut_short": truncated, "unreproduced_candidates": len(spurious),
                          "errors": errors[:10]},
            "jobs": len(jobs), "processes": len(results),
            "harnesses": per,
            "reachability_witnesses": reached,
            "samples": [s for r in results for s in r["samples"]][:6],
        },
        "assumptions": list(getattr(m, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)

    for line in kf_lines:
        print(line)
    print(f"{prop} {tier}: {tot.get('paths', 0)} paths, {tot.get('queries', 0)} queries "
          f"({tot.get('solver_s', 0.0):.1f} s in the solver), {tot.get('asserts', 0)} assertions, "
          f"{wall:.1f} s; exhaustive within bounds: {bool(exhaustive)}")
    if inc:
        print("undecided:", inc)
    if truncated:
        print("jobs cut short:", truncated)
    for e in errors[:5]:
        print("error:", e)
    for path, label, msg in confirmed:
        print(f"  {label}: {msg[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    for path, label, msg, tb in spurious[:8]:
        print(f"unreproduced candidate ({label}) {path}: {str(msg)[:300]}")
        if os.environ.get("VERIF_DEBUG"):
            for t in tb[:1]:
                print(t)
    if confirmed:
        return 1
    if tot.get("paths", 0) == 0 or missing:
        print("vacuous: not reached:", missing)
        if os.environ.get("VERIF_DEBUG"):
            for r in results:
                for t in r["tracebacks"][:1]:
                    print(t)
        if not (inc or spurious or truncated or errors):
            return 2
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--one":
        prop, hname = a[1], a[2]
        tier = a[3] if len(a) > 3 else "quick"
        m = load(prop, symbolic=True)
        t0 = time.time()
        for j in jobs_of(m, tier, hname):
            if os.environ.get("ONLY", "") not in str(j["config"]):
                continue
            r = run_job(prop, hname, j["config"], float(os.environ.get("BUDGET", "60")))
            print(j["config"], {k: (round(v, 2) if isinstance(v, float) else v) for k, v in r["stats"].items() if v},
                  "reached", r["reached"], "wall", round(r["wall"], 2), r["incomplete"], r["errors"], r["labels"], flush=True)
            for t in r["tracebacks"]:
                print(t)
            for v in r["violations"][:3]:
                print("  CAND", v["label"], v["values"], v["info"])
        print("total", round(time.time() - t0, 1))
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return main_check(a[0], tier)


if __name__ == "__main__":
    os.environ.setdefault("PYTHONHASHSEED", "0")
    if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("_VERIF_RE") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["_VERIF_RE"] = "1"
        os.execv(PY, [PY] + sys.argv)
    sys.exit(main())
