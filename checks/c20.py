"""GaussianMCM.fit: the stored parameters are what was optimised; structure used as given; warning on failure."""
import itertools

BOUNDS = {"quick": "given structures: every 0/1 matrix up to 2x3 (bool, int64), 1x3 float64; given dependence graphs: every graph on 2..4 measurements (bool, int64); estimated "
                   "structures: 2 and 3 columns; models fitted before to other data; all real datasets of 2..3 rows, any reported minimiser, success or failure"
                   "; structures up to 5x5 and 2x10 and graphs up to 8 vertices with 2..3 free entries",
          "thorough": "structures up to 3x3, graphs up to 5 measurements, 4 rows"}
OUTSIDE = "larger data; the optimiser itself (its answer is arbitrary here); overflow and rounding; non-finite data"


def configs(tier):
    out = []
    sh = [(1, 1, 2, "bi"), (1, 2, 2, "bi"), (2, 2, 3, "bi"), (1, 3, 2, "bif"), (2, 3, 2, "bi")]
    if tier == "thorough":
        sh += [(3, 3, 2, "bi"), (2, 3, 4, "bi"), (2, 4, 2, "b")]
    for k, n, N, ds in sh:
        for d in ds:
            for cube in itertools.product((0, 1), repeat=max(0, k * n - 2)):
                out.append(dict(kind="biadj", k=k, n=n, N=N, d=d, cube=list(cube), weight=k * n * N))
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for d in "bi":
            for z in (0, 1):
                m = max(0, n * (n - 1) // 2 - 2)
                for cube in itertools.product((0, 1), repeat=m):
                    out.append(dict(kind="udg", n=n, N=2, d=d, diag=z, cube=list(cube), weight=n ** 3))
    out += [dict(kind="biadj", k=k, n=n, N=N, d=d, cube=[], sparse=2, spseed=n, samples=1, weight=80) for k, n, N, d in ((4, 6, 10, "i"), (5, 5, 4, "b"), (2, 10, 3, "i"))]
    out += [dict(kind="udg", n=n, N=3, d=d, diag=z, cube=[], sparse=3, spseed=n, samples=1, weight=90) for n, d, z in ((5, "i", 0), (6, "b", 1), (8, "i", 1))]
    out += [dict(kind="biadj", k=k, n=n, N=N, d="b", cube=[1] * max(0, k * n - 2), again=True, weight=20) for k, n, N in ((1, 1, 2), (1, 2, 2), (2, 2, 3), (2, 3, 2))]
    out += [dict(kind="udg", n=3, N=2, d="b", diag=1, cube=[c], again=True, weight=20) for c in (0, 1)]
    out += [dict(kind="est", n=2, N=2, weight=9), dict(kind="est", n=2, N=3, weight=9), dict(kind="est", n=3, N=2, weight=30)]
    return out


DT = {"b": "bool", "i": "int64", "f": "float64"}


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, close, same_array, SArray
    n, N = cfg["n"], cfg["N"]

    def fn():
        w = ctx.world()
        md = w.load("medil.models")
        X = ctx.reals("X", (N, n))
        kw, ref = {}, None
        if cfg["kind"] == "biadj":
            B = ctx.bools("B", (cfg["k"], n), DT[cfg["d"]] if cfg["d"] != "f" else bool)
            for x, v in zip(B.el.reshape(-1), cfg["cube"]):
                E.assume(core.mkb(core.truth(x) ^ (0 if v else 1)))
            ref = B.copy()
            if cfg["d"] == "f":
                B = B.astype(float)
                ctx.inputs["B"] = B.copy()
            kw["biadj"] = B.copy()
        elif cfg["kind"] == "udg":
            A = ctx.graph("A", n, DT[cfg["d"]], diag=cfg["diag"])
            kw["udg"] = A.copy()
            ref = arr(w.load("medil.ecc_algorithms").find_heuristic_1pc(A.copy().astype(bool)))
        else:
            for c in range(n):
                E.assume(core.compare("!=", X.el[0, c], X.el[1, c]))
        keep = X.copy()
        m = md.GaussianMCM(**kw)
        n0 = len(E.warned)
        E.cfg["minimize_eval"] = True
        if cfg.get("again"):
            m.fit(snp.array([[float((3 * i * i + 5 * j * i) % 7) for j in range(n)] for i in range(N + 1)]))
            if cfg["again"] and len(E.cfg.get("minimize", [])) == 1:
                E.cfg["minimize"].clear()
        n0 = len(E.warned)
        r = m.fit(X)
        rec = E.cfg.get("minimize", [])
        if len(rec) != 1:
            raise core.Unsupported("scipy.optimize.minimize called %d times" % len(rec))
        warned = len(E.warned) > n0
        rec = rec[0]
        rec["value"] = rec.get("value") if rec.get("value") is not None else rec["fun"](rec["x"].copy())
        ctx.inputs["opt_x"] = rec["x"].copy()
        ctx.inputs["success"] = rec["success"]
        if cfg["kind"] == "est":
            m2 = md.GaussianMCM()
            m2.dataset = keep.copy()
            m2._estimate_udg()
            ref = arr(w.load("medil.ecc_algorithms").find_heuristic_1pc(m2.udg))
        return m, r, rec, warned, ref, keep

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        m, r, rec, warned, ref, X = p.value
        ar = core.arith
        A = arr(m.biadj)
        obs = [Ob("fit returns the model", r is m)]
        if A.el.shape != ref.el.shape:
            return obs + [Ob("structure shape %s" % (A.el.shape,), False)]
        obs += [Ob("structure %s" % (i,), E.aig.XOR(core.truth(A.el[i]), core.truth(ref.el[i])) ^ 1) for i in np.ndindex(*A.el.shape)]
        P = m.parameters
        W, v, mu = arr(P.biadj_weights), arr(P.error_variances), arr(P.error_means)
        if W.el.shape != A.el.shape or v.el.shape != (n,) or mu.el.shape != (n,):
            return obs + [Ob("parameter shapes", False)]
        for i in np.ndindex(*W.el.shape):
            obs.append(Ob("weight %s off the structure" % (i,), E.aig.OR(core.truth(ref.el[i]), core.blit(core.compare("==", W.el[i], 0)))))
        col = []
        for j in range(n):
            t = 0
            for i in range(N):
                t = ar("+", t, X.el[i, j])
            col.append(ar("/", t, N))
            obs.append(close("mean %d" % j, mu.el[j], col[j]))
        tot = 0
        for a in range(n):
            for b in range(n):
                s = 0
                for i in range(N):
                    s = ar("+", s, ar("*", ar("-", X.el[i, a], col[a]), ar("-", X.el[i, b], col[b])))
                e = ar("/", s, N - 1)
                for l in range(W.el.shape[0]):
                    e = ar("-", e, ar("*", W.el[l, a], W.el[l, b]))
                if a == b:
                    e = ar("-", e, v.el[a])
                tot = ar("+", tot, ar("*", e, e))
        val = rec["value"]
        obs.append(close("objective at the minimiser", arr(val).el.reshape(-1)[0] if isinstance(val, SArray) else val, tot))
        obs.append(Ob("warning after failure", E.aig.OR(core.blit(rec["success"]), 1 if warned else 0)))
        return obs
    return ctx.run(fn, prop, observe=(lambda v: [arr(v[0].parameters.biadj_weights), arr(v[0].parameters.error_variances), arr(v[0].parameters.error_means)]))


def replay(cfg, inp, draws):
    import numpy as np, types, warnings
    from . import rp
    md = rp.light("models")
    v = rp.V()
    n, N = cfg["n"], cfg["N"]
    X = inp["X"]
    kw = {}
    if cfg["kind"] == "biadj":
        kw["biadj"] = inp["B"].astype(DT[cfg["d"]])
        ref = inp["B"].astype(bool)
    elif cfg["kind"] == "udg":
        A = inp["A"].astype(DT[cfg["d"]])
        kw["udg"] = A.copy()
        ref = rp.light("ecc_algorithms").find_heuristic_1pc(A.astype(bool))
    rec = {}

    def fake(fun, x0, *a, **k):
        x = np.asarray(inp["opt_x"], float)
        if x.shape != np.shape(x0):
            raise rp.Mismatch("minimiser has another shape")
        rec["v"] = float(fun(x.copy()))
        r = types.SimpleNamespace(x=x, success=bool(inp["success"]), message="stub", fun=rec["v"], nit=1, nfev=1, status=0)
        return r
    keep = md.minimize
    md.minimize = fake
    try:
        m = md.GaussianMCM(**kw)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if cfg.get("again"):
                m.fit(np.array([[float((3 * i * i + 5 * j * i) % 7) for j in range(n)] for i in range(N + 1)]))
                rec.clear()
                ws.clear()
            r = m.fit(X.copy())
        if cfg["kind"] == "est":
            m2 = md.GaussianMCM()
            m2.dataset = X.copy()
            m2._estimate_udg()
            ref = rp.light("ecc_algorithms").find_heuristic_1pc(m2.udg)
    except rp.Mismatch:
        raise
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    finally:
        md.minimize = keep
    if "v" not in rec:
        raise rp.Mismatch("minimize not called")
    v.check(r is m, "return: fit does not return the model")
    A = np.asarray(m.biadj)
    if v.check(A.shape == ref.shape and (A.astype(bool) == ref).all(), "structure: %s instead of %s" % (A.astype(int).tolist(), ref.astype(int).tolist())):
        P = m.parameters
        W, d, mu = map(np.asarray, (P.biadj_weights, P.error_variances, P.error_means))
        if v.check(W.shape == A.shape and d.shape == (n,) and mu.shape == (n,), "shapes"):
            v.check((W[~ref] == 0).all(), "off: weights off the structure: %s" % W.tolist())
            v.check(np.allclose(mu, X.mean(0)), "means: %s" % mu)
            C = np.atleast_2d(np.cov(X, rowvar=False))
            t = ((C - W.T @ W - np.diag(d)) ** 2).sum()
            v.check(abs(t - rec["v"]) <= 1e-6 * max(1, abs(t)), "objective: %s for the stored parameters, %s at the minimiser" % (t, rec["v"]))
            v.check(inp["success"] or len(ws) > 0, "warning: none after a failed optimisation")
            return {"violations": v, "output": [rp.enc(W.astype(float)), rp.enc(d), rp.enc(mu)]}
    return {"violations": v}
