"""min_perm_squared_l2_dist(_abs): the reported distance is the minimum and the permutation attains it."""
import itertools

BOUNDS = {"quick": "real matrices with up to 3 predicted x 0..3 true latents, up to 2 measurements (3 x 1 for 3 latents), float/int dtypes; entries unbounded"
                   "; up to 4 latents and 9 measurements with 1..4 free entries per matrix",
          "thorough": "real matrices with up to 4 predicted latents x 1 measurement, 3 x 2, 2 x 3; entries unbounded"}
OUTSIDE = "more latents; more true than predicted latents; rounding"


def configs(tier):
    shapes = [(1, 1, 1), (2, 2, 1), (2, 1, 2), (2, 2, 2), (3, 3, 1), (3, 2, 1), (2, 0, 1)]
    if tier == "thorough":
        shapes += [(3, 3, 2), (3, 1, 2), (2, 2, 3), (4, 4, 1), (4, 3, 1), (4, 2, 1)]
    out = []
    for L, K, M in shapes:
        for f in ("min_perm_squared_l2_dist", "min_perm_squared_l2_dist_abs"):
            for d in (("f", "f"), ("i", "i"), ("i", "f"), ("f", "i")):
                if d == ("i", "i") and L > 2:
                    continue
                if d != ("f", "f") and L > 3:
                    continue
                out.append(dict(L=L, K=K, M=M, f=f, d=d, weight=L * L * M, timeout_ms=120000))
    q = tier == "quick"
    for L, K, M, f, s, d in ((4, 4, 1, "_abs", 1, "ff"), (4, 3, 2, "", 1, "ff"), (3, 3, 6, "_abs", 2, "ff"), (2, 2, 9, "", 4, "ff"), (2, 2, 8, "_abs", 3, "fi"), (3, 2, 7, "", 2, "ff")):
        out.append(dict(L=L, K=K, M=M, f="min_perm_squared_l2_dist" + f, d=tuple(d), sparse=s if q else s + 2, spseed=M, samples=1, weight=L * L * M * 3, timeout_ms=120000))
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, arr, AND, OR, IMPLIES
    L, K, M = cfg["L"], cfg["K"], cfg["M"]
    ab = cfg["f"].endswith("abs")

    def mk(nm, sh, d):
        return ctx.reals(nm, sh) if d == "f" else ctx.ints(nm, sh, -1000, 1000)

    def fn():
        ev = ctx.world().load("medil.evaluate")
        f = getattr(ev, cfg["f"])
        P, T = mk("P", (L, M), cfg["d"][0]), mk("T", (K, M), cfg["d"][1])
        f(snp.array([[1.5, 2.5], [0.5, -1.5]]), snp.array([[1.25, 2.5]]))
        return P.copy(), T.copy(), f(P, T)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        P, T, (perm, dist) = p.value
        perm = arr(perm)
        if perm.el.shape != (L,):
            return [Ob("perm shape", False)]
        A = core.absval if ab else (lambda x: x)

        def d(pm):
            tot = 0
            for i in range(L):
                for m in range(M):
                    t = A(T.el[i, m]) if i < K else 0
                    x = core.arith("-", A(P.el[pm[i], m]), t)
                    tot = core.arith("+", tot, core.arith("*", x, x))
            return tot
        obs, hit = [], []
        for pm in itertools.permutations(range(L)):
            dp = d(pm)
            obs.append(Ob("not the minimum", core.compare("<=", dist, dp), [core.compare(">", dist, core.arith("+", dp, 0.05))]))
            is_pm = AND(*[core.compare("==", perm.el[i], pm[i]) for i in range(L)])
            hit.append(is_pm)
            obs.append(Ob("permutation does not attain the distance", IMPLIES(is_pm, core.compare("==", dist, dp)),
                          [core.compare(">", core.absval(core.arith("-", dist, dp)), 0.05)]))
        obs.append(Ob("not a permutation", OR(*hit)))
        return obs
    return ctx.run(fn, prop, observe=lambda v: v[2][1])


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    ev = rp.fresh("evaluate")
    f = getattr(ev, cfg["f"])
    ab = cfg["f"].endswith("abs")
    v = rp.V()
    P, T = inp["P"], inp["T"]
    f(np.array([[1.5, 2.5], [0.5, -1.5]]), np.array([[1.25, 2.5]]))
    L = cfg["L"]
    Pf, Tf = P.astype(float), np.zeros((L, cfg["M"]))
    Tf[:cfg["K"]] = T
    if ab:
        Pf, Tf = abs(Pf), abs(Tf)
    best = min(((Pf[list(p)] - Tf) ** 2).sum() for p in itertools.permutations(range(L)))
    try:
        perm, dist = f(P.copy(), T.copy())
    except Exception as e:
        return {"violations": ["raises %r" % e]}
    perm = np.asarray(perm)
    tol = 1e-6 * max(1, abs(best))
    if v.check(sorted(perm.tolist()) == list(range(L)), "permutation: %s" % perm):
        v.check(abs(((Pf[perm] - Tf) ** 2).sum() - dist) <= tol, "attained: permutation %s has distance %s, reported %s" % (perm, ((Pf[perm] - Tf) ** 2).sum(), dist))
    v.check(abs(dist - best) <= tol, "minimum: reported %s, minimum %s" % (dist, best))
    return {"violations": v, "output": float(dist)}
