"""Models: fitting and sampling depend on the model's own generator, attributes and data alone (self-composition)."""

BOUNDS = {"quick": "GaussianMCM (structure given, graph given, or estimated) with 2..3 measurements and samples of 2..3 rows, DevMedil with 2..3 measurements and "
                   "every history of at most 2 fits followed by sampling, init_W set or not; every pair of executions that agree on the model's generator, data and "
                   "the points the optimiser reports; the second one with other models built, fitted and sampled before and in between, and arbitrary values from every other "
                   "generator"
                   "; 5 measurements and 4 rows with 2 free data entries",
          "thorough": "histories of at most 3 fits, 4 measurements without the one-pure-child assumption"}
OUTSIDE = "larger models; models built without a generator of their own (they share the class's default); NeuroCausalFactorAnalysis (its network is initialised by torch)"
ASSUMES = ["the optimiser is a function of the objective and the starting point"]


def configs(tier):
    q = tier == "quick"
    out = []
    for b in ([[1, 1]], [[1, 0], [0, 1]], [[1, 1, 0], [0, 1, 1]]):
        for N in (2, 3):
            out.append(dict(kind="gauss", B=b, n=len(b[0]), N=N, weight=N * len(b[0]) ** 2))
    out += [dict(kind="gauss", A=[[1, 1, 0], [1, 1, 1], [0, 1, 1]], n=3, N=2, weight=20), dict(kind="gauss", A=[[1, 0], [0, 1]], n=2, N=2, weight=9)]
    out += [dict(kind="gauss", n=2, N=2, est=True, weight=60)]
    out += [dict(kind="gauss", B=[[1, 1, 0, 0, 1], [0, 1, 1, 1, 0]], n=5, N=4, sparse=2, samples=1, weight=40)]
    h = [[], ["mle"], ["lse"], ["mle", "lse"], ["lse", "mle"], ["mle", "mle"], ["lse", "lse"]]
    if not q:
        h += [["mle", "lse", "mle"], ["lse", "mle", "lse"]]
    for x in h[1:]:
        for opc in (True, False):
            out.append(dict(kind="dev", h=x, n=2, N=2, opc=opc, init=False, weight=40 * len(x)))
    for x in (["mle"], ["mle", "lse"], ["lse"]):
        out.append(dict(kind="dev", h=x, n=2, N=2, opc=True, init=True, weight=40 * len(x)))
    out += [dict(kind="dev", h=[x], n=3, N=3, opc=o, init=False, weight=200) for x, o in (("lse", True), ("lse", False), ("mle", False))]
    if not q:
        out += [dict(kind="dev", h=["lse"], n=4, N=3, opc=False, init=False, weight=400)]
    return out


def scenario(cfg, md, rng, X, W0, conv, starts, mid):
    """what the caller does; [(name, value)]"""
    res = []
    if cfg["kind"] == "gauss":
        kw = {}
        if "B" in cfg:
            kw["biadj"] = conv(cfg["B"]).astype(bool)
        if "A" in cfg:
            kw["udg"] = conv(cfg["A"]).astype(bool)
        m = md.GaussianMCM(rng=rng, **kw)
        m.fit(X.copy())
        mid()
        P = m.parameters
        res += [("structure", m.biadj), ("weights", P.biadj_weights), ("means", P.error_means), ("variances", P.error_variances)]
        res += [("sample", m.sample(2)), ("next sample", m.sample(1))]
    else:
        m = md.DevMedil(rng=rng, one_pure_child=cfg["opc"])
        if cfg["init"]:
            m.init_W = W0.copy()
        for x in cfg["h"]:
            mid()
            m.fit(X.copy(), method=x)
            mid()
            res += [("W_hat", m.W_hat), ("D_hat", m.D_hat)]
        for x in sorted(set(cfg["h"])):
            res.append(("sample " + x, m.sample(1, x)))
        res.append(("sample again", m.sample(2, cfg["h"][0])))
    return [("starting point %d" % i, s) for i, s in enumerate(starts())] + res


def disturb(cfg, md, Y, conv):
    """other models, before and in between"""
    g = md.GaussianMCM(biadj=conv([[1] * Y.shape[1]]).astype(bool))
    g.fit(Y.copy())
    g.sample(1)
    d = md.DevMedil()
    d.fit(Y.copy(), method="lse")
    d.sample(1, "lse")
    if cfg["kind"] == "dev" and cfg["n"] == 2:
        e = md.DevMedil(one_pure_child=cfg["opc"])
        e.init_W = conv([[7.0] * Y.shape[1]] * (Y.shape[1] if cfg["opc"] else 1))
        e.fit(Y.copy())
        e.sample(1)


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, same_array, close, S
    n, N = cfg["n"], cfg["N"]

    def fn():
        X = ctx.reals("X", (N, n))
        if cfg.get("est"):
            for c in range(n):
                E.assume(core.compare("!=", X.el[0, c], X.el[1, c]))
        W0 = ctx.reals("W0", (n, n)) if cfg.get("init") else None
        E.cfg["minimize_eval"] = True
        md = ctx.world().load("medil.models")

        def starts():
            rec = E.cfg.get("minimize", [])
            return [r["x0"] for r in rec] + [r["value"] for r in rec]

        def others(md):
            keep, pre, n0 = E.cfg["minimize"], E.cfg["default_prefix"], E.cfg["minimize_eval"]
            E.cfg["minimize"], E.cfg["default_prefix"], E.cfg["minimize_eval"] = [dict(x0=0, value=0)] * 20, "B:", False
            disturb(cfg, md, snp.array([[1.5, -2.0, 0.25][:n], [0.5, 3.0, 1.25][:n], [2.5, 1.0, -4.0][:n]]), snp.array)
            E.cfg["minimize"], E.cfg["default_prefix"], E.cfg["minimize_eval"] = keep, pre, n0

        def go(md, pre):
            E.cfg["default_prefix"] = pre
            st = E.cfg["stream"]
            for k in [k for k in st if k.split("/")[0] == "caller"]:
                st[k] = 0
            E.cfg["minimize"] = []
            return scenario(cfg, md, ctx.rng(), X, W0, snp.array, starts, (lambda: others(md)) if pre == "C:" else (lambda: None))
        a = go(md, "A:")
        for j, r in enumerate(E.cfg["minimize"]):
            ctx.inputs["opt%d" % j] = r["x"].copy()
        md = ctx.world().load("medil.models")
        E.cfg["minimize"] = []
        others(md)
        b = go(md, "C:")
        E.cfg["default_prefix"] = ""
        return a, b

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        a, b = p.value
        if [x[0] for x in a] != [x[0] for x in b]:
            return [Ob("another number of optimisations", False)]
        obs = []
        for (nm, x), (_, y) in zip(a, b):
            if isinstance(x, S.SArray) and isinstance(y, S.SArray):
                obs += same_array(nm, x, y)
            else:
                obs.append(close(nm, x, y))
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np, types
    from . import rp
    v = rp.V()
    n, N = cfg["n"], cfg["N"]
    X = np.asarray(inp["X"], float)
    W0 = np.asarray(inp["W0"], float) if cfg.get("init") else None
    rec = []

    def run(mixed):
        rec.clear()
        rp.fresh("models")
        md = rp.light("models")

        def fake(fun, x0, *a, **k):
            k = "opt%d" % len(rec)
            x = np.asarray(inp[k] if k in inp and np.shape(inp[k]) == np.shape(x0) else np.asarray(x0, float) + 0.5, float)
            try:
                val = float(fun(x.copy()))
            except np.linalg.LinAlgError:
                val = 0.0
            rec.append((np.array(x0, float), val))
            return types.SimpleNamespace(x=x.copy(), success=True, message="stub", fun=val, nit=1, nfev=1, status=0)
        keep = md.minimize
        md.minimize = fake
        np.random.seed(17 if mixed else 3)
        try:
            rng = np.random.default_rng(5)

            def others():
                if mixed:
                    k = list(rec)
                    rec.extend([None] * 30)
                    disturb(cfg, md, rng.normal(size=(3, n)), np.array)
                    rec[:] = k
            others()
            return scenario(cfg, md, np.random.default_rng(8), X, W0, np.array, lambda: [r[0] for r in rec] + [r[1] for r in rec], others)
        finally:
            md.minimize = keep
    try:
        a, b = run(False), run(True)
    except (np.linalg.LinAlgError, ZeroDivisionError):
        return {"violations": v, "skipped": True}
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    if v.check([x[0] for x in a] == [x[0] for x in b], "optimisations: %d and %d values" % (len(a), len(b))):
        for (nm, x), (_, y) in zip(a, b):
            x, y = np.asarray(x, float), np.asarray(y, float)
            v.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-7, atol=1e-9, equal_nan=True), "%s: %s, after other models %s" % (nm, x.tolist(), y.tolist()))
    return v
