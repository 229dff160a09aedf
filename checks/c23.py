"""DevMedil: sampling after any history of fits uses that method's latest parameters; errors before fitting."""
import itertools
from . import moments

BOUNDS = {"quick": "2 measurements (2 latents, or 1 without the one-pure-child assumption) and 3 measurements, 1..2 rows; every history of at most 3 operations out of "
                   "fit(mle), fit(lse) followed by sample of either method; arbitrary data, arbitrary reported minimisers with nonnegative error variances, arbitrary draws",
          "thorough": "histories of at most 4 fits, up to 4 measurements and 3 rows"}
OUTSIDE = "longer histories; larger models; negative reported error variances (mle does not constrain them); normality itself is numpy's"
ASSUMES = ["the output is an affine image of normal draws (checked), so mean and covariance determine its distribution"]


def configs(tier):
    q = tier == "quick"
    out = []
    for L in range(0, 4 if q else 5):
        for h in itertools.product(("mle", "lse"), repeat=L):
            for s in ("mle", "lse"):
                out.append(dict(h=list(h), s=s, n=2, N=1, opc=True, weight=L + 1))
    for n, N, opc in [(2, 2, True), (2, 2, False), (3, 1, False), (3, 2, True)] + ([] if q else [(4, 1, False), (3, 3, True), (4, 2, True)]):
        for s in ("mle", "lse"):
            out.append(dict(h=[s], s=s, n=n, N=N, opc=opc, weight=n ** 3 * N))
    out += [dict(h=h, s=s, n=2, N=1, opc=True, weight=1) for h in ([], ["mle"]) for s in ("MLE", "", "xyz", None)]
    out += [dict(h=["mle"], s="default", n=2, N=1, opc=True, weight=2), dict(h=["lse"], s="default", n=2, N=1, opc=True, weight=2)]
    return out


def _expect(cfg):
    """'error' or the method whose parameters are used"""
    s = "mle" if cfg["s"] == "default" else cfg["s"]
    return s if s in ("mle", "lse") and s in cfg["h"] else "error"


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np
    n, N, s = cfg["n"], cfg["N"], cfg["s"]
    k = n if cfg["opc"] else n * n // 4
    want = _expect(cfg)

    def fn():
        w = ctx.world()
        md = w.load("medil.models")
        m = md.DevMedil(one_pure_child=cfg["opc"], rng=ctx.rng("own"))
        last = {}
        for j, meth in enumerate(cfg["h"]):
            X = ctx.reals("X%d" % j, (2, n))
            m.fit(X, meth)
            rec = E.cfg.get("minimize", [])
            if len(rec) != j + 1:
                raise core.Unsupported("minimize called %d times" % len(rec))
            x = rec[j]["x"]
            ctx.inputs["opt%d" % j] = x.copy()
            if x.el.size != k * n + n:
                raise core.Unsupported("shape of the minimiser")
            for i in range(n):
                E.assume(core.compare(">=", x.el[k * n + i], 0))
            last[meth] = x
        return last, arr(m.sample(N) if s == "default" else m.sample(N, s))

    def prop(p):
        if want == "error":
            return [Ob("ValueError instead of %r" % (p.exc,), isinstance(p.exc, ValueError))]
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        last, a = p.value
        if a.el.shape != (N, n):
            return [Ob("shape %s" % (a.el.shape,), False)]
        x = last[want]
        W, v = x.el[:k * n].reshape(k, n), x.el[k * n:]
        groups = [(r, j) for r in range(N) for j in range(n)]

        def cov(a, b):
            if a[0] != b[0]:
                return 0
            t = v[a[1]] if a[1] == b[1] else 0
            for l in range(k):
                t = core.arith("+", t, core.arith("*", W[l, a[1]], W[l, b[1]]))
            return t
        return moments.moment_obs(list(a.el.reshape(-1)), [0] * len(groups), cov, groups, own="own")
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np, types
    from . import rp
    md = rp.light("models")
    v = rp.V()
    n, N, s = cfg["n"], cfg["N"], cfg["s"]
    k = n if cfg["opc"] else n * n // 4
    want = _expect(cfg)
    g = moments.probe_class()()
    m = md.DevMedil(one_pure_child=cfg["opc"], rng=np.random.default_rng(5))
    st = {}

    def fake(fun, x0, *a, **kw):
        x = np.asarray(st["x"], float)
        if np.shape(x0) != x.shape:
            raise rp.Mismatch("minimiser has another shape")
        return types.SimpleNamespace(x=x.copy(), success=True, message="stub", fun=0.0, nit=1, nfev=1, status=0)
    keep = md.minimize
    md.minimize = fake
    try:
        last = {}
        for j, meth in enumerate(cfg["h"]):
            st["x"] = inp["opt%d" % j] if "opt%d" % j in inp else np.ones(k * n + n)
            m.fit(inp["X%d" % j] if "X%d" % j in inp else np.arange(2.0 * n).reshape(2, n), meth)
            last[meth] = np.asarray(st["x"], float).copy()
    except rp.Mismatch:
        raise
    except Exception as e:
        return {"violations": ["fit raises: %r" % e]}
    finally:
        md.minimize = keep
    m.rng = g
    draw = (lambda: m.sample(N)) if s == "default" else (lambda: m.sample(N, s))
    if want == "error":
        try:
            draw()
            return {"violations": ["error: sample(%r) after %s does not raise" % (s, cfg["h"])]}
        except ValueError:
            return {"violations": []}
        except Exception as e:
            return {"violations": ["error: %r" % e]}
    try:
        r = moments.probe(draw, g)
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    if isinstance(r, str):
        return {"violations": ["draws: " + r]}
    base, mean, C = r
    x = last[want]
    W, d = x[:k * n].reshape(k, n), x[k * n:]
    if (d < 0).any():
        return {"violations": [], "skipped": True}
    if v.check(base.shape == (N, n), "shape: %s" % (base.shape,)):
        wantC = np.kron(np.eye(N), W.T @ W + np.diag(d))
        v.check(np.allclose(mean, 0, atol=1e-7), "mean: %s" % mean)
        v.check(np.allclose(C, wantC, atol=1e-6), "covariance: %s instead of %s" % (np.round(C, 4).tolist(), np.round(wantC, 4).tolist()))
    return {"violations": v}
