"""GaussianMCM.sample: rows are independent draws with the model's mean and covariance."""
from . import moments

BOUNDS = {"quick": "1..3 latents x 1..4 measurements, 0..3 rows, two successive calls, also after sampling with other parameters that were then replaced or changed in place; all real weights and means, all variances >= 0; arbitrary draws"
                   "; up to 7 latents, 11 measurements and 12 rows with 6 free entries per array",
          "thorough": "up to 4 latents x 5 measurements, 4 rows"}
OUTSIDE = "larger models; negative error variances; normality itself is numpy's (only linear images of its normal draws are formed)"
ASSUMES = ["the output is an affine image of normal draws (checked), so mean and covariance determine its distribution"]


def configs(tier):
    sh = [(1, 1, 1), (1, 2, 2), (2, 2, 2), (2, 3, 2), (3, 4, 2), (2, 3, 3), (1, 3, 0), (3, 2, 1)]
    if tier == "thorough":
        sh += [(4, 5, 3), (3, 4, 4), (4, 4, 2)]
    return [dict(k=k, n=n, N=N, how=h, weight=k * n * N) for k, n, N in sh for h in ("biadj", "mcm")] + \
        [dict(k=k, n=n, N=N, how="biadj", earlier=e, weight=k * n * N) for k, n, N in [(1, 2, 1), (2, 3, 2)] for e in ("replaced", "in place")] + \
        [dict(k=k, n=n, N=N, how=h, sparse=6, spseed=k, samples=1, weight=k * n * N) for k, n, N, h in ((5, 8, 4, "biadj"), (3, 6, 12, "mcm"), (7, 5, 3, "mcm"), (2, 11, 3, "biadj"))]


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np
    k, n, N = cfg["k"], cfg["n"], cfg["N"]

    def fn():
        w = ctx.world()
        md = w.load("medil.models")
        g = ctx.rng("own")
        B = snp.array([[1 if (i + j) % 2 == 0 or i == j else 0 for j in range(n)] for i in range(k)])
        if cfg["how"] == "biadj":
            m = md.GaussianMCM(biadj=B.astype(bool), rng=g)
        else:
            m = w.load("medil.sample").mcm(biadj=B.astype(bool), rng=ctx.rng("other"))
            m.rng = g
        P = m.parameters
        if cfg.get("earlier"):
            P.biadj_weights, P.error_means, P.error_variances = snp.array([[.5] * n] * k), snp.array([2.] * n), snp.array([3.] * n)
            m.sample(N + 1), m.sample(N)
        if cfg.get("earlier") == "in place":
            P.biadj_weights[:], P.error_means[:], P.error_variances[:] = ctx.reals("W", (k, n)), ctx.reals("mu", (n,)), ctx.reals("v", (n,), 0)
        else:
            P.biadj_weights, P.error_means, P.error_variances = ctx.reals("W", (k, n)), ctx.reals("mu", (n,)), ctx.reals("v", (n,), 0)
        keep = [P.biadj_weights.copy(), P.error_means.copy(), P.error_variances.copy()]
        a, b = arr(m.sample(N)), arr(m.sample(N))
        return keep, a, b

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        (W, mu, v), a, b = p.value
        if a.el.shape != (N, n) or b.el.shape != (N, n):
            return [Ob("shape %s" % (a.el.shape,), False)]
        out = [x for y in (a, b) for x in y.el.reshape(-1)]
        groups = [(c, r, j) for c in range(2) for r in range(N) for j in range(n)]

        def cov(x, y):
            if x[:2] != y[:2]:
                return 0
            t = v.el[x[2]] if x[2] == y[2] else 0
            for l in range(k):
                t = core.arith("+", t, core.arith("*", W.el[l, x[2]], W.el[l, y[2]]))
            return t
        return moments.moment_obs(out, [mu.el[q[2]] for q in groups], cov, groups, own="own")
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    md = rp.light("models")
    v = rp.V()
    k, n, N = cfg["k"], cfg["n"], cfg["N"]
    g = moments.probe_class()()
    m = md.GaussianMCM(biadj=np.ones((k, n), bool), rng=g)
    P = m.parameters
    W, mu, var = inp["W"], inp["mu"], abs(inp["v"])
    if cfg.get("earlier"):
        P.biadj_weights, P.error_means, P.error_variances = np.full((k, n), .5), np.full(n, 2.), np.full(n, 3.)
        m.sample(N + 1), m.sample(N)
    if cfg.get("earlier") == "in place":
        P.biadj_weights[:], P.error_means[:], P.error_variances[:] = W, mu, var
    else:
        P.biadj_weights, P.error_means, P.error_variances = W.copy(), mu.copy(), var.copy()
    try:
        r = moments.probe(lambda: np.concatenate([m.sample(N), m.sample(N)]), g)
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    if isinstance(r, str):
        return {"violations": ["draws: " + r]}
    base, mean, C = r
    if v.check(base.shape == (2 * N, n), "shape: %s" % (base.shape,)):
        want = np.kron(np.eye(2 * N), W.T @ W + np.diag(var))
        v.check(np.allclose(mean, np.tile(mu, 2 * N), atol=1e-7), "mean: %s instead of %s" % (mean, np.tile(mu, 2 * N)))
        v.check(np.allclose(C, want, atol=1e-6), "covariance: %s instead of %s" % (np.round(C, 4).tolist(), np.round(want, 4).tolist()))
    return {"violations": v}
