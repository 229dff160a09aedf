#!/usr/bin/env python3-vt
"""Decide one property: symbolic execution of /repo's current source, solver verdicts, replay.

usage: run_check.py C08 [--tier quick|thorough]      (VERIF_TIER / VERIF_SEED are honoured)
       run_check.py --replay FILE                    (re-run one counterexample on the real code)
"""
import argparse, concurrent.futures as cf, hashlib, importlib, json, multiprocessing as mp, os, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("MEDIL_REPO", "/repo")
PY = os.environ.get("MEDIL_PY", "/opt/venv/bin/python")
NPROC = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
LIMIT = {"quick": 240, "thorough": 5400}


def _trace_functions(out):
    """record which functions of the code under test were executed symbolically"""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symex")
    except ValueError:
        mon.free_tool_id(tool)
        mon.use_tool_id(tool, "symex")

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO + "/"):
            nm = "%s:%s" % (os.path.relpath(f, REPO), code.co_qualname)
            if not code.co_name.startswith("<"):
                out[nm] = 1
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.restart_events()
    mon.set_events(tool, mon.events.PY_START)


def task(pid, cfg, seed, deadline, idx):
    """one configuration, in a worker process"""
    t0 = time.time()
    try:
        sys.setrecursionlimit(20000)
        mod = importlib.import_module("checks." + pid.lower())
        from symex.harness import Ctx
        fns = {}
        _trace_functions(fns)
        ctx = Ctx(cfg, deadline=min(deadline, time.time() + cfg.get("limit", 10**9)), seed=seed + idx, samples=cfg.get("samples", 3),
                  timeout_ms=cfg.get("timeout_ms", 60000))
        try:
            res = mod.symbolic(cfg, ctx)
            if res is None:
                res = ctx.res
        finally:
            sys.monitoring.set_events(3, 0)
        res["functions"] = sorted(fns)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        res = dict(paths=0, obligations=0, folded=0, cex=[], unknown=[], unsupported=["harness: %s: %s" % (type(e).__name__, e)],
                   models=[], functions=[], exceptions=0, reached=0, forks=0, dead=0, sources={}, notes=[], stats={},
                   trace=traceback.format_exc()[-3000:])
        try:
            res["models"] = ctx.res["models"]
        except Exception:
            pass
    res["cfg"] = cfg
    res["wall"] = time.time() - t0
    return res


def replay_jobs(pid, jobs, limit):
    """run recorded inputs on the real code; [result or None]"""
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="medil-replay-")
    src, dst = os.path.join(d, "jobs.json"), os.path.join(d, "out.json")
    results = [None] * len(jobs)
    start = 0
    try:
        env = dict(os.environ, PYTHONPATH=HERE, MEDIL_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=d, HOME=d)
        t_end = time.time() + limit
        while start < len(jobs) and time.time() < t_end:
            with open(src, "w") as f:
                json.dump(jobs[start:], f)
            if os.path.exists(dst):
                os.unlink(dst)
            try:
                p = subprocess.run([PY, "-m", "checks.rp", pid, src, dst], env=env, cwd=d, timeout=max(20, t_end - time.time()),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
                err = p.stderr[-400:]
            except subprocess.TimeoutExpired:
                err = "timeout"
            n = 0
            if os.path.exists(dst):
                for l in open(dst):
                    try:
                        results[start + n] = json.loads(l)
                    except ValueError:
                        break
                    n += 1
            start += n
            if start < len(jobs) and (n == 0 or err):
                results[start] = {"violations": [], "error": "replay process ended: %s" % err}
                start += 1
    finally:
        subprocess.run(["rm", "-rf", d])
    return results


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % pid) and " key=" in l:
                out.append((l.split(" key=")[1].split()[0], l.strip()))
    return out


def differs(a, b, tol=1e-6):
    """engine output vs. real output (JSON)"""
    if isinstance(a, dict) and isinstance(b, dict) and "a" in a and "a" in b:
        return a["s"] != b["s"] or any(differs(x, y) for x, y in zip(a["a"], b["a"]))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) != set(b) or any(differs(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) != len(b) or any(differs(x, y) for x, y in zip(a, b))
    from fractions import Fraction

    def num(x):
        if isinstance(x, str) and "/" in x:
            try:
                return float(Fraction(x))
            except ValueError:
                return x
        return float(x) if isinstance(x, (bool, int, float)) else x
    x, y = num(a), num(b)
    if isinstance(x, float) and isinstance(y, float):
        if x != x or y != y:
            return (x != x) != (y != y)
        return abs(x - y) > tol * max(1.0, abs(x), abs(y))
    return x != y


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        out = replay_jobs(r["property"], [r["case"]], 300)[0]
        print(json.dumps(out)[:3000])
        for v in (out or {}).get("violations", []):
            print("reproduced:", v)
        sys.exit(1 if out and out.get("violations") else 0)
    pid = a.pid.upper()
    tier = a.tier if a.tier in LIMIT else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    deadline = t0 + LIMIT[tier]
    mod = importlib.import_module("checks." + pid.lower())
    cfgs = mod.configs(tier)
    if a.only is not None:
        cfgs = [cfgs[a.only]]
    results = []
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get("weight", 1))
    if NPROC == 1 or len(cfgs) == 1:
        for i in order:
            results.append(task(pid, cfgs[i], seed, deadline, i))
    else:
        ex = cf.ProcessPoolExecutor(max_workers=min(NPROC, len(cfgs)), mp_context=mp.get_context("fork"))
        # heaviest first, while one worker starts from the light end: light configurations answer even when a changed
        # implementation makes the heavy ones hang
        futs, light, pending, stop_at = {}, None, set(), deadline + 12
        while (pending or order) and time.time() < stop_at:
            while order and len(pending) < NPROC:
                from_light = light is None or light not in pending
                i = order.pop(-1 if from_light else 0)
                f = ex.submit(task, pid, cfgs[i], seed, deadline, i)
                futs[f] = i
                pending.add(f)
                if from_light:
                    light = f
            done, pending = cf.wait(pending, timeout=max(0.1, min(20, stop_at - time.time())), return_when=cf.FIRST_COMPLETED)
            for f in done:
                try:
                    results.append(f.result())
                except Exception as e:
                    results.append(dict(paths=0, obligations=0, folded=0, cex=[], unknown=["worker: %r" % e], unsupported=[], models=[],
                                        functions=[], exceptions=0, reached=0, forks=0, dead=0, sources={}, notes=[], stats={},
                                        cfg=cfgs[futs[f]], wall=0))
                if results[-1]["cex"]:          # something to replay: do not wait long for more of the same
                    stop_at = min(stop_at, time.time() + (60 if tier == "quick" else 600))
        if pending or order:
            results.append(dict(paths=0, obligations=0, folded=0, cex=[], unknown=["%d configurations without answer" % (len(pending) + len(order))],
                                unsupported=[], models=[], functions=[], exceptions=0, reached=0, forks=0, dead=0, sources={}, notes=[],
                                stats={}, cfg={}, wall=0))
            for f in pending:
                f.cancel()
            for p in list((ex._processes or {}).values()):
                p.terminate()
        ex.shutdown(wait=False, cancel_futures=True)
    # ---------------------------------------------------------------- replay on the real code
    jobs, kinds = [], []
    for r in results:
        for c in r["cex"]:
            jobs.append(c)
            kinds.append("cex")
    cap = 400 if tier == "quick" else 2000
    for r in sorted(results, key=lambda r: json.dumps(r["cfg"], sort_keys=True, default=str)):
        for c in r["models"]:
            if len(jobs) < cap:
                jobs.append(c)
                kinds.append("fallback" if c["label"] == "fallback" else "sample")
    extra = getattr(mod, "extra_jobs", None)
    outs = replay_jobs(pid, jobs, 240 if tier == "quick" else 900)
    viol, mism, validated, unrepro, errors = [], [], 0, [], []
    for job, kind, out in zip(jobs, kinds, outs):
        if out is None:
            errors.append("not replayed: %s" % job["label"])
            continue
        if out.get("violations"):
            viol.append((job, kind, out))
        elif kind == "cex" and not out.get("skipped"):
            unrepro.append((job, out))
        if out.get("error"):
            errors.append("%s: %s" % (job["label"], out["error"]))
        elif kind == "sample":
            if "output" in job and "output" in out:
                if differs(job["output"], out["output"]):
                    mism.append((job, out))
                else:
                    validated += 1
            elif not out.get("violations"):
                validated += 1
    undecided = sorted({u for r in results for u in r["unknown"]} | {u for r in results for u in r["unsupported"]})
    undecided += ["solver counterexample not reproduced on the real code: %s" % j["label"] for j, _ in unrepro]
    undecided += ["engine and real code disagree on a sample input (%s)" % json.dumps(j["cfg"], default=str)[:120] for j, _ in mism]
    stats = {}
    for r in results:
        for k, v in (r.get("stats") or {}).items():
            if isinstance(v, (int, float)):
                stats[k] = stats.get(k, 0) + v
    tot = lambda k: sum(r[k] for r in results)
    wall = time.time() - t0
    samples = [{"label": j["label"], "cfg": j["cfg"], "inputs": j["inputs"], "output": j.get("output")} for j in jobs if j in jobs][:3]
    sources = {}
    for r in results:
        sources.update(r["sources"])
    cov = {
        "states": tot("reached"), "transitions": tot("forks"), "traces_validated_against_impl": validated,
        "samples": samples or [{"cfg": c} for c in cfgs[:2]],
        "symbolic_paths": tot("paths"), "paths_ending_in_exception": tot("exceptions"), "infeasible_paths_cut": tot("dead"),
        "obligations": tot("obligations"), "obligations_folded_by_simplification": tot("folded"),
        "solver": stats, "configurations": len(cfgs), "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", "")),
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "functions_encoded": sorted({f for r in results for f in r["functions"]}), "source_sha256": sources,
        "counterexamples": sum(len(r["cex"]) for r in results), "reproduced": len(viol), "undecided": undecided[:20],
        "engine_notes": sorted({n for r in results for n in r["notes"]})[:20], "replay_errors": errors[:5],
        "explanation": "states: end states of symbolic paths whose obligations were decided for every value of the symbolic inputs; "
                       "transitions: solver-decided symbolic branches taken; traces_validated: solver models re-run on the real code with the same result",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMES", [])) + ["numpy/scipy/torch primitives behave as the engine's models of them (spot-checked by replaying solver models)",
                                                             "floating-point arithmetic is treated as exact real arithmetic"],
          "wall_s": round(wall, 2), "violations": 0}
    kn = known(pid)
    new = []
    seen_known = set()
    for job, kind, out in viol:
        key = out.get("key") or out["violations"][0].split(":")[0].replace(" ", "_")
        hit = [l for k, l in kn if k == key]
        if hit:
            seen_known.add(hit[0])
        else:
            new.append((job, kind, out))
    for _, l in kn:
        print(l)
    ev["violations"] = len(new)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if a.only is None:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d configurations, %d paths, %d obligations (%d by simplification), %d solver queries %.1fs, %d validated, %.1fs" % (
        pid, tier, len(cfgs), tot("paths"), tot("obligations"), tot("folded"), stats.get("queries", 0), stats.get("solver_s", 0), validated, wall))
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print("   %.1fs paths=%d %s" % (r["wall"], r["paths"], json.dumps(r["cfg"], default=str)[:150]))
        for r in results:
            if r.get("trace"):
                print("TRACE", r["cfg"], r["trace"])
                break
        print(json.dumps(stats))
        for j, o in unrepro[:3]:
            print("UNREPRODUCED", json.dumps(j, default=str)[:1500], json.dumps(o)[:600])
        for j, o in mism[:3]:
            print("MISMATCH", json.dumps(j, default=str)[:1500], json.dumps(o)[:800])
        for e in errors[:3]:
            print("ERR", e)
    for u in undecided[:10]:
        print("INCONCLUSIVE: property=%s %s" % (pid, u))
    if new:
        job, kind, out = new[0]
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        rec = {"property": pid, "case": job, "result": out, "found_as": kind}
        h = hashlib.sha256(json.dumps(job, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (pid, h))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        print("counterexample (%s): %s" % (kind, "; ".join(out["violations"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
