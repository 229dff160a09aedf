"""A one-pure-child structure is recovered exactly from its graph."""
import itertools, random
from . import graphs as G

BOUNDS = {"quick": "every one-pure-child structure with k latents and n measurements, (k,n) up to (3,5), (2,6), (4,5), (5,5)"
                   "; up to 10 latents and 16 measurements with fixed pure children and 5 free links",
          "thorough": "up to (3,6), (4,6), (2,7)"}
OUTSIDE = "larger structures"


def configs(tier):
    sh = [(1, 1), (1, 3), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (4, 4), (2, 5), (3, 5), (4, 5), (5, 5), (2, 6)]
    out = []
    if tier == "thorough":
        sh += [(3, 6), (4, 6), (2, 7)]
    for k, n in sh:
        for d in (0, 1) if n <= 4 else (0,):
            # the pure child of latent 0 splits the space of structures
            for pc in range(n) if n >= 5 else (None,):
                out.append(dict(k=k, n=n, diag=d, pc=pc, weight=k * n))
    big = 5 if tier == "quick" else 9
    out += [dict(k=k, n=n, diag=d, pc=None, sparse=big, spseed=s, density=p, pure=True, samples=1, weight=60) for k, n, d, s, p in
            ((4, 8, 0, 1, .5), (5, 9, 1, 2, .4), (6, 10, 0, 3, .3), (8, 12, 0, 4, .3), (3, 12, 1, 5, .6), (10, 10, 0, 6, .5), (7, 16, 0, 7, .4))]
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, arr, SArray, np
    n, k = cfg["n"], cfg["k"]
    aig = E.aig

    def fn():
        ecc = ctx.world().load("medil.ecc_algorithms")
        B = ctx.bools("B", (k, n), bool)
        if cfg.get("pure"):            # pure children at fixed places, the first of the others measures latent n % k as well
            r = random.Random(cfg["spseed"])
            for l, j in enumerate(r.sample(range(n), k)):
                for m in range(k):
                    B.el[m, j] = m == l
            for j in range(n):
                if not any(x is True for x in B.el[:, j]):
                    B.el[r.randrange(k), j] = True
            ctx.inputs["B"] = B.copy()
        b = [[core.blit(x) for x in r] for r in B.el]
        purel = lambda l, j: E.aig.ANDN([b[l][j]] + [b[m][j] ^ 1 for m in range(k) if m != l])
        for l in range(k):
            E.assume(core.mkb(E.aig.ORN([purel(l, j) for j in range(n)])))
        for j in range(n):
            E.assume(core.mkb(E.aig.ORN([b[l][j] for l in range(k)])))
        if cfg["pc"] is not None:      # first pure child of latent 0
            E.assume(core.mkb(purel(0, cfg["pc"])))
            for j in range(cfg["pc"]):
                E.assume(core.mkb(purel(0, j) ^ 1))
        el = np.empty((n, n), object)
        for i in range(n):
            for j in range(n):
                el[i, j] = bool(cfg["diag"]) if i == j else core.mkb(E.aig.ORN([E.aig.AND(b[l][i], b[l][j]) for l in range(k)]))
        U = SArray(el, bool)
        ecc.find_heuristic_1pc(snp.array([[False, True, False], [True, False, True], [False, True, False]]))
        return B.copy(), ecc.find_heuristic_1pc(U)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        B, C = p.value
        C = arr(C)
        if C.el.shape != (k, n):
            return [Ob("shape %s" % (C.el.shape,), False)]
        c = [[core.truth(x) for x in row] for row in C.el]
        b = [[core.truth(x) for x in row] for row in B.el]
        a = E.aig
        eq = [[a.ANDN([a.XOR(c[x][j], b[y][j]) ^ 1 for j in range(n)]) for y in range(k)] for x in range(k)]
        # rows of B are distinct (own pure child), so equality up to order is a matching of equal rows
        return [Ob("row %d of the result is no row of the structure" % x, a.ORN(eq[x])) for x in range(k)] + \
               [Ob("row %d of the structure is missing" % y, a.ORN([eq[x][y] for x in range(k)])) for y in range(k)]
    return ctx.run(fn, prop, observe=lambda v: v[1].shape[0])


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    ecc = rp.fresh("ecc_algorithms")
    B = inp["B"].astype(bool)
    U = (B.astype(int).T @ B.astype(int)) > 0
    np.fill_diagonal(U, bool(cfg["diag"]))
    rp.limited(ecc.find_heuristic_1pc, np.array([[False, True, False], [True, False, True], [False, True, False]]))
    try:
        C = np.asarray(rp.limited(ecc.find_heuristic_1pc, U.copy()))
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    v = rp.V()
    ok = C.shape == B.shape and sorted(map(tuple, C.astype(int).tolist())) == sorted(map(tuple, B.astype(int).tolist()))
    v.check(ok, "structure: %s recovered as %s" % (B.astype(int).tolist(), C.astype(int).tolist()))
    return {"violations": v, "output": len(C)}
