"""estimate_UDG: boolean, loop-free, follows the test's p-values / statistic."""
import itertools

BOUNDS = {"quick": "p-value matrices up to 4x4 (arbitrary reals, arbitrary level in (0,1)); pair tests: 2..4 columns plus 15 columns (more than one "
                   "work package), arbitrary p-value per ordered pair, arbitrary level; dcov_fast: 2..4 columns, arbitrary symmetric covariance and "
                   "positive mean distances, arbitrary critical value; dcov_fast composed with the real dcov for 3 samples x 2 columns"
                   "; p-value matrices up to 21x21 with 30 free entries, dcov_fast up to 12 columns with 12",
          "thorough": "p-value matrices up to 6x6; pair tests up to 6 columns and 16; dcov_fast up to 5 columns, composed 4 samples x 3 columns"}
OUTSIDE = "the tests' own p-values (C11, C13; dcor is third-party); constant columns; 'g-test' (not implemented)"


def configs(tier):
    out = [dict(kind="matrix", m=m) for m in (1, 2, 3, 4)]
    out += [dict(kind="pair", m=m, method=t) for m in (2, 3, 4) for t in ("xicor", "dcov_big")]
    out += [dict(kind="pair", m=15, method=t, samples=1) for t in ("xicor", "dcov_big")]
    out += [dict(kind="fast", m=m, weight=m * m) for m in (1, 2, 3, 4)]
    out += [dict(kind="matrix", m=m, sparse=30, samples=2) for m in (7, 10, 21)] + [dict(kind="fast", m=m, sparse=12, samples=2, weight=m * m) for m in (7, 12)]
    out += [dict(kind="comp", m=2, N=3, weight=20), dict(kind="default", m=2)]
    if tier == "thorough":
        out += [dict(kind="matrix", m=m) for m in (5, 6)] + [dict(kind="pair", m=m, method=t) for m in (5, 6, 16) for t in ("xicor", "dcov_big")]
        out += [dict(kind="fast", m=5, weight=25), dict(kind="comp", m=3, N=4, weight=40)]
    return out


def _idx(col):
    """which column of the identifiable sample a vector is"""
    v = [int(x) for x in col]
    if len(v) != 4 or any(x - v[0] != r for r, x in enumerate(v)) or v[0] % 10:
        return None
    return v[0] // 10


def _ident(m):
    return [[10 * c + r for c in range(m)] for r in range(4)]


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, arr, IFF, SArray, np, close, same_array, unchanged
    import types
    m = cfg["m"]

    def level():
        a = ctx.real("alpha", 0, 1)
        E.assume(core.compare(">", a, 0))
        E.assume(core.compare("<", a, 1))
        return a

    def base(U):
        U = arr(U)
        obs = [Ob("shape", U.el.shape == (m, m))]
        if U.el.shape != (m, m):
            return U, obs
        obs.append(Ob("dtype %s" % U.dtype, U.dtype.kind == "b"))
        obs += [Ob("loop at %d" % i, core.truth(U.el[i, i]) ^ 1) for i in range(m)]
        return U, obs

    def fn():
        it = ctx.world().load("medil.independence_testing")
        kind = cfg["kind"]
        if kind == "matrix":
            P = ctx.reals("P", (m, m))
            a = level()
            S = snp.array(_ident(m)).astype(float)
            U, pv = it.estimate_UDG(S, method=P, significance_level=a)
            return dict(P=P.copy(), a=a, U=U, pv=pv)
        if kind == "pair":
            P = ctx.reals("P", (m, m), 0, 1)
            a = level()
            calls = []

            def p_of(x, y):
                i, j = _idx(x.tolist()), _idx(y.tolist())
                calls.append((i, j))
                if i is None or j is None or i == j:
                    return SArray(np.array(E.new_real("badcall"), object), float).item()
                return P.el[i, j]
            S = snp.array(_ident(m)).astype(float)
            it.__dict__["xicorr"] = lambda x, y, **k: types.SimpleNamespace(correlation=0.5, pvalue=p_of(x, y), __iter__=None) if False else _XI(0.5, p_of(x, y))
            it.__dict__["distance_correlation_t_test"] = lambda x, y, **k: types.SimpleNamespace(pvalue=p_of(x, y), statistic=0.0)
            U, pv = it.estimate_UDG(S, method=cfg["method"], significance_level=a)
            return dict(P=P, a=a, U=U, pv=pv, calls=calls)
        if kind == "fast":
            C0 = ctx.reals("C", (m, m))
            d = ctx.reals("d", (m,), 0)
            for i in range(m):
                E.assume(core.compare(">", d.el[i], 0))
                for j in range(i):
                    C0.el[i, j] = C0.el[j, i]
            ctx.inputs["C"] = C0.copy()
            a = level()
            S = ctx.reals("S", (3, m))
            seen = []

            def dc(x):
                seen.append(arr(x).copy())
                return C0.copy(), d.copy()
            it.__dict__["dcov"] = dc
            U, pv = it.estimate_UDG(S, method="dcov_fast", significance_level=a)
            if not seen:
                raise core.Unsupported("dcov was not called through the module")
            return dict(C=C0, d=d, a=a, U=U, pv=pv, S=S.copy(), seen=seen)
        if kind == "default":
            S = snp.array([[0.0, 1.0], [1.0, 0.0], [3.0, 2.0], [2.0, 5.0]])
            ctx.inputs["S"] = S.copy()
            U1, _ = it.estimate_UDG(S)
            U2, _ = it.estimate_UDG(S, "dcov_fast", 0.05)
            return dict(U=U1, U2=U2)
        S = ctx.reals("S", (cfg["N"], m))
        for c in range(m):
            E.assume(core.compare("!=", S.el[0, c], S.el[1, c]))
        a = level()
        ref = it.dcov(S)
        U, pv = it.estimate_UDG(S, method="dcov_fast", significance_level=a)
        return dict(C=arr(ref[0]), d=arr(ref[1]), a=a, U=U, pv=pv, S=S.copy())

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        r = p.value
        U, obs = base(r["U"])
        if U.el.shape != (m, m):
            return obs
        kind = cfg["kind"]
        if kind == "matrix":
            for i, j in itertools.product(range(m), repeat=2):
                if i != j:
                    obs.append(Ob("entry %d,%d" % (i, j), IFF(U.el[i, j], core.compare("<", r["P"].el[i, j], r["a"]))))
            return obs + same_array("returned p-values", r["pv"], r["P"])
        if kind == "default":
            return obs + same_array("default arguments", r["U"], r["U2"])
        if kind == "pair":
            calls = r["calls"]
            obs.append(Ob("pairs tested: %s" % calls[:20], sorted(tuple(sorted(c)) if None not in c else (-1, -1) for c in calls)
                          == list(itertools.combinations(range(m), 2))))
            ori = {frozenset(c): c for c in calls}
            V = arr(r["pv"])
            if V.el.shape != (m, m):
                return obs + [Ob("p-value shape", False)]
            for i, j in itertools.combinations(range(m), 2):
                c = ori.get(frozenset((i, j)))
                if c is None or None in c:
                    continue
                want = r["P"].el[c]
                for a, b in ((i, j), (j, i)):
                    obs.append(close("p-value %d,%d" % (a, b), V.el[a, b], want))
                    obs.append(Ob("entry %d,%d" % (a, b), IFF(U.el[a, b], core.compare("<", want, r["a"]))))
            return obs
        N = r["S"].el.shape[0]
        crit = core.uf("chi2_ppf_1", [core.arith("-", 1, r["a"])])
        for i, j in itertools.product(range(m), repeat=2):
            obs.append(Ob("symmetric", IFF(U.el[i, j], U.el[j, i])))
            if i != j:
                t = core.arith("/", core.arith("*", N, r["C"].el[i, j]), core.arith("*", r["d"].el[i], r["d"].el[j]))
                obs.append(Ob("entry %d,%d" % (i, j), IFF(U.el[i, j], core.compare(">=", t, crit))))
        if kind == "fast":
            for s in r["seen"]:
                obs += same_array("sample given to dcov", s, r["S"])
        return obs
    return ctx.run(fn, prop, observe=(lambda v: [arr(v["U"]), v["pv"]]) if cfg["kind"] in ("matrix", "pair") else None)


class _XI(tuple):
    def __new__(cls, xi, p):
        self = tuple.__new__(cls, (xi, p))
        return self
    correlation = property(lambda s: s[0])
    pvalue = property(lambda s: s[1])


_P = None
_DELAY = False


def _stub(x, y):
    """p-value of the recorded matrix (runs in the worker processes of the pool)"""
    import time
    i, j = _idx(list(x)), _idx(list(y))
    if _DELAY and (i, j) in ((0, 1), (1, 0)):
        time.sleep(0.5)
    if i is None or j is None or i == j:
        return float("nan")
    return float(_P[i, j])


def _stub_x(x, y, **k):
    return _XI(0.5, _stub(x, y))


def _stub_d(x, y, **k):
    import types
    return types.SimpleNamespace(pvalue=_stub(x, y), statistic=0.0)


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    global _P, _DELAY
    it = rp.light("independence_testing")
    v = rp.V()
    m, kind = cfg["m"], cfg["kind"]
    keep = dict(it.__dict__)
    try:
        if kind == "matrix":
            P, a = inp["P"], inp["alpha"]
            U, pv = it.estimate_UDG(np.array(_ident(m), float), method=P.copy(), significance_level=a)
            exp = P < a
            np.fill_diagonal(exp, False)
            v.check(np.array_equal(U, exp), "entries: %s instead of %s" % (np.asarray(U).tolist(), exp.tolist()))
            v.check(np.array_equal(pv, P), "p-values changed")
        elif kind == "pair":
            a, _DELAY = inp["alpha"], m > 14
            S0 = np.array(_ident(m), float)
            runs = []
            # the recorded p-values, then values no default of the code can coincide with
            for P in (inp["P"], 0.013 + 0.97 * np.arange(1, m * m + 1).reshape(m, m) / (m * m + 1)):
                _P = P
                it.xicorr, it.distance_correlation_t_test = _stub_x, _stub_d
                U, pv = rp.limited(it.estimate_UDG, S0.copy(), method=cfg["method"], significance_level=a)
                U, pv = np.asarray(U), np.asarray(pv)
                runs.append((U, pv))
                if not v.check(pv.shape == (m, m) == U.shape, "shape"):
                    break
                if not any(np.isclose(pv[i, j], P[i, j]) or np.isclose(pv[i, j], P[j, i]) for i, j in itertools.combinations(range(m), 2)):
                    # nothing of the recorded matrix arrived: either no pair is tested, or the test is reached another way
                    it.__dict__.update(keep)
                    Z = np.random.default_rng(5).standard_normal((12, m))
                    _, pz = rp.limited(it.estimate_UDG, Z.copy(), method=cfg["method"], significance_level=a)
                    z = it.xicorr(Z[:, 0], Z[:, 1]).pvalue if cfg["method"] == "xicor" else it.distance_correlation_t_test(Z[:, 0], Z[:, 1]).pvalue
                    if np.isclose(np.asarray(pz)[0, 1], z):
                        raise rp.Mismatch("the pair test is not reached through the module")
                for i, j in itertools.combinations(range(m), 2):
                    v.check(pv[i, j] == pv[j, i] and pv[i, j] in (P[i, j], P[j, i]), "p-value: %d,%d is %s,%s; the test says %s" % (i, j, pv[i, j], pv[j, i], P[i, j]))
                    v.check(bool(U[i, j]) == bool(pv[i, j] < a) and bool(U[i, j]) == bool(U[j, i]), "entry: %d,%d is %s,%s for p=%s level=%s" % (i, j, U[i, j], U[j, i], pv[i, j], a))
            U, pv = runs[0]
        elif kind == "default":
            U, _ = it.estimate_UDG(inp["S"].copy())
            U2, _ = it.estimate_UDG(inp["S"].copy(), "dcov_fast", 0.05)
            v.check(np.array_equal(U, U2), "default arguments differ from dcov_fast at 0.05")
            pv = None
        else:
            from scipy.stats import chi2
            S, a = inp["S"], inp["alpha"]
            if kind == "fast":
                C, d = inp["C"], inp["d"]
                calls = []

                def dc(x):
                    calls.append(np.array(x))
                    return C.copy(), d.copy()
                it.dcov = dc
            else:
                from . import c11
                C, d = it.dcov(S.copy())
            U, pv = it.estimate_UDG(S.copy(), method="dcov_fast", significance_level=a)
            if kind == "fast":
                if not calls:
                    raise rp.Mismatch("dcov not called through the module")
                v.check(all(np.array_equal(c, S) for c in calls), "sample: dcov got a different sample")
            T = len(S) * C / np.outer(d, d)
            crit = chi2.ppf(1 - a, 1)
            for i, j in itertools.product(range(m), repeat=2):
                if i != j and abs(T[i, j] - crit) > 1e-6 * max(1, abs(crit)):
                    v.check(bool(U[i, j]) == bool(T[i, j] >= crit), "entry: %d,%d is %s, statistic %s, critical value %s" % (i, j, U[i, j], T[i, j], crit))
                v.check(bool(U[i, j]) == bool(U[j, i]), "symmetric")
            pv = None
    except rp.Mismatch:
        raise
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    finally:
        it.__dict__.update(keep)
    U = np.asarray(U)
    v.check(U.dtype == bool, "dtype: %s" % U.dtype)
    v.check(not np.diag(U).any(), "loop")
    out = {"violations": v}
    if kind in ("matrix", "pair"):
        out["output"] = [rp.enc(U), rp.enc(np.asarray(pv))]
    return out
