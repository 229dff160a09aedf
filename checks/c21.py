"""GaussianMCM's estimated dependence graph is the BIC-optimal one."""
import itertools

BOUNDS = {"quick": "arbitrary correlation matrix (entries in [-1,1]) for 2..4 columns and n in {2,3,4,7,20,1000} rows; composed with the real correlation for "
                   "all real datasets of 2..4 rows x 2 columns and 3 rows x 3 columns without constant columns"
                   "; 6 and 8 columns; data up to 5 columns and 12 rows with 1..3 free entries",
          "thorough": "correlation matrices up to 6 columns, n up to 10^5; composed up to 6 rows x 2 columns, 4 x 3"}
OUTSIDE = "larger data; rounding (in particular |r| computed slightly above 1); the threshold exp(-log(n)/n) is taken to 25 decimal places"


def configs(tier):
    q = tier == "quick"
    out = [dict(kind="corr", m=m, N=N, weight=m * m) for m in ((2, 3, 4) if q else (2, 3, 4, 5, 6)) for N in ((2, 3, 4, 7, 20, 1000) if q else (2, 3, 4, 5, 6, 7, 8, 20, 1000, 100000))]
    out += [dict(kind="data", m=2, N=N, weight=30) for N in ((2, 3, 4) if q else (2, 3, 4, 5, 6))]
    out += [dict(kind="corr", m=m, N=N, weight=m * m) for m, N in ((6, 9), (8, 50))]
    out += [dict(kind="data", m=m, N=N, sparse=s, spseed=N, samples=1, weight=30) for m, N, s in ((3, 8, 2), (2, 12, 3), (5, 5, 1))]
    out += [dict(kind="data", m=3, N=N, weight=60) for N in ((3,) if q else (2, 3, 4))]
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, SArray, close
    m, N = cfg["m"], cfg["N"]
    ar = core.arith

    def fn():
        w = ctx.world()
        md = w.load("medil.models")
        mod = md.GaussianMCM()
        md.__dict__["find_heuristic_1pc"] = lambda udg: snp.array([[True] * m])
        if cfg["kind"] == "corr":
            R = ctx.reals("R", (m, m), -1, 1)
            for i in range(m):
                R.el[i, i] = 1
                for j in range(i):
                    R.el[i, j] = R.el[j, i]
            ctx.inputs["R"] = R.copy()
            X = snp.array([[float(c + 1) * r + (r * r) % (c + 2) for c in range(m)] for r in range(N)]) if N <= 64 else snp.zeros((N, m))
            seen = []

            def cc(x, y=None, rowvar=True, **k):
                seen.append((x is X or arr(x).el.shape == (N, m) and rowvar is False or arr(x).el.shape == (m, N), rowvar))
                return R.copy()
            npx = md.__dict__["np"]
            old = npx.corrcoef
            npx.corrcoef = cc
            try:
                mod.fit(X)
            finally:
                npx.corrcoef = old
            if not seen:
                raise core.Unsupported("np.corrcoef not called")
            return arr(mod.udg), R, seen
        X = ctx.reals("X", (N, m))
        for c in range(m):
            v = 0
            E.assume(core.mkb(E.aig.ORN([core.blit(core.compare("!=", X.el[0, c], X.el[r, c])) for r in range(1, N)])))
        mod.fit(X.copy())
        return arr(mod.udg), X, None

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        U, D, seen = p.value
        if U.el.shape != (m, m):
            return [Ob("shape", False)]
        obs = [Ob("loop at %d" % i, core.truth(U.el[i, i]) ^ 1) for i in range(m)]
        if seen is not None:
            obs.append(Ob("correlation of the dataset's columns", all(a for a, _ in seen)))
        for i, j in itertools.combinations(range(m), 2):
            a, b = core.truth(U.el[i, j]), core.truth(U.el[j, i])
            obs.append(Ob("symmetric %d,%d" % (i, j), E.aig.XOR(a, b) ^ 1))
            if seen is not None:
                x = ar("-", 1, ar("*", D.el[i, j], D.el[i, j]))
            else:
                mean = [ar("/", sum_([D.el[r, c] for r in range(N)]), N) for c in (i, j)]
                dv = [[ar("-", D.el[r, c], mu) for r in range(N)] for c, mu in zip((i, j), mean)]
                sxy = sum_([ar("*", s, t) for s, t in zip(*dv)])
                sx, sy = (sum_([ar("*", s, s) for s in d]) for d in dv)
                x = ar("-", 1, ar("/", ar("*", sxy, sxy), ar("*", sx, sy)))
            K = threshold(N)
            want = core._poly_compare("<", core.real_z3(x), K)
            lo = core._poly_compare("<", core.real_z3(x), K - K / 50)
            hi = core._poly_compare("<", core.real_z3(x), K + K / 50)
            A = E.aig
            obs.append(Ob("edge %d,%d" % (i, j), A.XOR(a, want) ^ 1, [A.AND(lo, a ^ 1), A.AND(hi ^ 1, a)]))
        return obs

    def sum_(v):
        t = 0
        for x in v:
            t = ar("+", t, x)
        return t
    return ctx.run(fn, prop, observe=lambda v: v[0])


def threshold(N):
    from fractions import Fraction
    import mpmath
    mpmath.mp.dps = 60
    return Fraction(int(mpmath.nint(mpmath.exp(-mpmath.log(N) / N) * mpmath.mpf(10) ** 25)), 10 ** 25)


def replay(cfg, inp, draws):
    import numpy as np, types
    from . import rp
    md = rp.light("models")
    v = rp.V()
    m, N = cfg["m"], cfg["N"]
    old_min, old_cc = md.minimize, np.corrcoef
    calls = []

    def fake(fun, x0, *a, **k):
        return types.SimpleNamespace(x=np.asarray(x0, float), success=True, message="", fun=0.0)
    md.minimize = fake
    try:
        if cfg["kind"] == "corr":
            R = inp["R"]
            X = np.array([[float(c + 1) * r + (r * r) % (c + 2) for c in range(m)] for r in range(N)])

            def cc(x, y=None, rowvar=True, **k):
                x = np.asarray(x)
                calls.append((rowvar and np.array_equal(x, X.T)) or (not rowvar and np.array_equal(x, X)))
                return R.copy()
            np.corrcoef = cc
        else:
            X = inp["X"]
            with np.errstate(all="ignore"):
                R = old_cc(X, rowvar=False)
        mod = md.GaussianMCM()
        try:
            mod.fit(X.copy())
        finally:
            np.corrcoef = old_cc
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    finally:
        md.minimize = old_min
    if cfg["kind"] == "corr":
        if not calls:
            raise rp.Mismatch("corrcoef not called")
        v.check(all(calls), "correlation: of something else than the dataset's columns")
    U = np.asarray(mod.udg)
    if v.check(U.shape == (m, m), "shape"):
        v.check(not np.diag(U).any(), "loop: %s" % U.tolist())
        v.check(np.array_equal(U != 0, U.T != 0), "symmetric: %s" % U.tolist())
        t = -np.log(N) / N
        for i, j in itertools.combinations(range(m), 2):
            x = 1 - R[i, j] ** 2
            lx = np.log(max(x, 1e-300))
            if abs(lx - t) > 1e-6:
                v.check(bool(U[i, j]) == bool(lx < t), "edge: %d,%d is %s, log(1-r^2)=%s, threshold %s" % (i, j, U[i, j], lx, t))
    return {"violations": v, "output": rp.enc((U != 0))}
