"""dcov is the V-statistic distance covariance matrix, with mean pairwise distances."""
import itertools

BOUNDS = {"quick": "all real samples with N samples x M columns, (N,M) up to (5,2), (3,3), (4,1), integer samples (4,2)"
                   "; up to 33 samples and 4 columns with 1..3 free entries",
          "thorough": "up to (8,2), (6,3), (4,4), integer samples (5,3)"}
OUTSIDE = "larger samples; rounding; non-finite entries"


def configs(tier):
    sh = [(1, 1, "f"), (2, 1, "f"), (2, 2, "f"), (2, 3, "f"), (3, 1, "f"), (3, 2, "f"), (4, 1, "f"), (3, 2, "i"), (4, 2, "f"), (3, 3, "f"), (5, 2, "f"), (4, 2, "i")]
    if tier == "thorough":
        sh += [(7, 1, "f"), (6, 2, "f"), (4, 4, "f"), (8, 2, "f"), (6, 3, "f"), (5, 3, "i")]
    big = [(9, 2, "f", 3), (12, 3, "f", 2), (20, 4, "f", 1), (33, 2, "f", 1), (7, 4, "i", 1)] + ([(66, 2, "f", 1), (16, 6, "f", 2)] if tier == "thorough" else [])
    return [dict(N=N, M=M, d=d, weight=N * N * M, timeout_ms=120000) for N, M, d in sh] + \
        [dict(N=N, M=M, d=d, sparse=s, spseed=N, samples=1, weight=N * N * M, timeout_ms=120000) for N, M, d, s in big]


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, arr, close
    from fractions import Fraction
    N, M = cfg["N"], cfg["M"]

    def fn():
        it = ctx.world().load("medil.independence_testing")
        X = ctx.reals("X", (N, M)) if cfg["d"] == "f" else ctx.ints("X", (N, M), -1000, 1000)
        it.dcov(snp.array([[0.0, 1.0], [2.0, 5.0]]))
        return X.copy(), it.dcov(X)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        X, (C, d) = p.value
        C, d = arr(C), arr(d)
        if C.el.shape != (M, M) or d.el.shape != (M,):
            return [Ob("shape", False)]
        ar = core.arith
        obs = []
        cent = []
        for m in range(M):
            D = [[core.absval(ar("-", core.to_real(X.el[i, m]), core.to_real(X.el[j, m]))) if i != j else Fraction(0) for j in range(N)] for i in range(N)]
            rs = []
            for i in range(N):
                t = Fraction(0)
                for j in range(N):
                    t = ar("+", t, D[i][j])
                rs.append(ar("/", t, N))
            tot = Fraction(0)
            for r in rs:
                tot = ar("+", tot, r)
            tot = ar("/", tot, N)
            obs.append(close("mean distance of column %d" % m, d.el[m], tot))
            cent.append([[ar("+", ar("-", ar("-", D[i][j], rs[i]), rs[j]), tot) for j in range(N)] for i in range(N)])
        for a in range(M):
            for b in range(M):
                t = Fraction(0)
                for i in range(N):
                    for j in range(N):
                        t = ar("+", t, ar("*", cent[a][i][j], cent[b][i][j]))
                obs.append(close("entry %d,%d" % (a, b), C.el[a, b], ar("/", t, N * N)))
        return obs
    return ctx.run(fn, prop, observe=lambda v: [v[1][0], v[1][1]])


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    it = rp.light("independence_testing")
    X = inp["X"]
    it.dcov(np.array([[0.0, 1.0], [2.0, 5.0]]))
    v = rp.V()
    N, M = X.shape
    Xf = X.astype(float)
    try:
        C, d = it.dcov(X.copy())
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    A = []
    for m in range(M):
        D = abs(Xf[:, m][:, None] - Xf[:, m][None, :])
        A.append(D - D.mean(0)[None, :] - D.mean(1)[:, None] + D.mean())
        v.check(np.isclose(d[m], D.mean(), rtol=1e-6, atol=1e-9), "mean: column %d: %s instead of %s" % (m, d[m], D.mean()))
    exp = np.array([[(A[a] * A[b]).sum() / N**2 for b in range(M)] for a in range(M)])
    if v.check(np.shape(C) == (M, M), "shape: %s" % (np.shape(C),)):
        v.check(np.allclose(C, exp, rtol=1e-6, atol=1e-8 * (1 + abs(Xf).max()**2)), "dcov: %s instead of %s" % (np.asarray(C).tolist(), exp.tolist()))
    return {"violations": v, "output": [rp.enc(np.asarray(C)), rp.enc(np.asarray(d))]}
