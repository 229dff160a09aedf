"""sfd: squared Frobenius distance of B^T B and the number of differing measurement pairs."""
import itertools

BOUNDS = {"quick": "all binary matrices with up to 3+2 latents x 3 measurements and 2+2 x 4, bool/int/mixed dtypes"
                   "; up to 7+7 latents x 8, 3+6 x 9 and 300+260 x 4 with 4 free entries per matrix",
          "thorough": "all binary matrices with up to 3+3 latents x 4 measurements and 2+2 x 5, bool/int/mixed dtypes"}
OUTSIDE = "larger matrices; non-binary entries"


def configs(tier):
    out = []
    shapes = [(1, 1, 1), (1, 2, 2), (2, 1, 3), (2, 2, 3), (3, 2, 3), (2, 2, 4)]
    if tier == "thorough":
        shapes += [(3, 3, 3), (3, 2, 4), (2, 3, 4), (3, 3, 4), (2, 2, 5)]
    for k1, k2, n in shapes:
        for d in (("bool", "bool"), ("int64", "int64"), ("bool", "int64"), ("int64", "bool")):
            if tier == "quick" and d[0] != d[1] and (k1, k2, n) not in ((2, 1, 3), (1, 2, 2)):
                continue
            out.append(dict(k1=k1, k2=k2, n=n, d=d, weight=(k1 + k2) * n))
    for k1, k2, n in ((5, 4, 7), (3, 6, 9), (7, 7, 8), (300, 260, 4)):
        for d in (("bool", "bool"), ("int64", "int64")):
            out.append(dict(k1=k1, k2=k2, n=n, d=d, sparse=4 if tier == "quick" else 8, spseed=n, density=.9 if k1 > 100 else .3, samples=2, weight=20))
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, S, snp
    from symex.aig import AIG

    def fn():
        w = ctx.world()
        ev = w.load("medil.evaluate")
        P = ctx.bools("P", (cfg["k1"], cfg["n"]), cfg["d"][0])
        T = ctx.bools("T", (cfg["k2"], cfg["n"]), cfg["d"][1])
        warm = snp.array([[1, 0, 1], [0, 1, 1]]).astype(cfg["d"][0])
        ev.sfd(warm, warm)
        return (P.copy(), T.copy()), ev.sfd(P, T)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        (P, T), r = p.value
        n = cfg["n"]
        sf, ush = r
        tot, hd = 0, []

        def cnt(M, i, j):
            return core.count_true([E.aig.AND(core.blit(M.el[l, i]), core.blit(M.el[l, j])) for l in range(M.el.shape[0])])
        terms = []
        for i in range(n):
            for j in range(i, n):
                a, b = cnt(P, i, j), cnt(T, i, j)
                d = core.arith("-", a, b)
                terms.append((1 if i == j else 2, core.arith("*", d, d)))
                if i < j:
                    hd.append(E.aig.XOR(core.truth(a), core.truth(b)))
        for m, t in terms:
            tot = core.arith("+", tot, core.arith("*", m, t))
        return [Ob("sfd", core.compare("==", sf, tot)), Ob("shd", core.compare("==", ush, core.count_true(hd)))]
    return ctx.run(fn, prop, observe=lambda v: [v[1][0], v[1][1]])


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    ev = rp.fresh("evaluate")
    v = rp.V()
    P, T = inp["P"], inp["T"]
    warm = np.array([[1, 0, 1], [0, 1, 1]]).astype(cfg["d"][0])
    ev.sfd(warm, warm)
    A, B = P.astype(int), T.astype(int)
    wa, wb = A.T @ A, B.T @ B
    exp = int(((wa - wb) ** 2).sum())
    eh = sum(1 for i, j in itertools.combinations(range(cfg["n"]), 2) if (wa[i, j] > 0) != (wb[i, j] > 0))
    try:
        sf, sh = ev.sfd(P.copy(), T.copy())
    except Exception as e:
        v.append("sfd raises %r" % e)
        return {"violations": v}
    v.check(int(sf) == exp, "sfd: %s instead of %s" % (sf, exp))
    v.check(int(sh) == eh, "shd: %s instead of %s" % (sh, eh))
    return {"violations": v, "output": [int(sf), int(sh)]}
