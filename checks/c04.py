"""find_heuristic_1pc: never raises; one latent per vertex of a maximum independent set; pure children;
every measurement has a parent; every edge shares a latent."""
import itertools
from . import graphs as G

BOUNDS = {"quick": "every graph with 1..6 vertices (diagonal all-false; all-true for n<=4; arbitrary for n<=3)"
                   "; 7 to 14 vertices with 6 free pairs, the other pairs fixed pseudo-randomly",
          "thorough": "every graph with 1..6 vertices (diagonal all-false), arbitrary diagonal for n<=4"}
OUTSIDE = "more vertices; asymmetric or non-boolean matrices"


def configs(tier):
    out = [dict(n=n, diag=d) for n in (1, 2, 3) for d in ("sym", 0, 1)]
    out += G.gconfigs([4], {4: 1}, diag=0) + G.gconfigs([4], {4: 1}, diag=1)
    out += G.gconfigs([5], {5: 4}, diag=0) + G.gconfigs([6], {6: 7}, diag=0)
    big = 6 if tier == "quick" else 10
    out += [dict(n=n, diag=d, sparse=big, spseed=s, density=p, samples=1, weight=2 ** big * n / 40) for n, d, s, p in (
        (7, 0, 1, .5), (7, 1, 2, .7), (8, 0, 3, .6), (9, 0, 4, .3), (10, 1, 5, .4), (12, 0, 6, .3), (14, 0, 7, .2))]
    if tier == "thorough":
        out += G.gconfigs([4], {4: 3}, diag="sym") + G.gconfigs([5], {5: 4}, diag=1)
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, arr
    n = cfg["n"]

    def fn():
        ecc = ctx.world().load("medil.ecc_algorithms")
        A = ctx.graph("A", n, bool, diag=0 if cfg["diag"] == "sym" else cfg["diag"])
        if cfg["diag"] == "sym":
            for i in range(n):
                A.el[i, i] = E.new_bool("d%d" % i)
            ctx.inputs["A"] = A.copy()
        ecc.find_heuristic_1pc(snp.array([[False, True, False], [True, False, True], [False, True, False]]))
        return A.copy(), ecc.find_heuristic_1pc(A)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        A, C = p.value
        C = arr(C)
        if C.el.ndim != 2 or C.el.shape[1] != n:
            return [Ob("shape", False)]
        m = C.el.shape[0]
        e = G.edge_lits(A, n)
        c = [[core.truth(x) for x in row] for row in C.el]
        aig = E.aig

        def ind(S):
            return aig.ANDN([e[i, j] ^ 1 for i, j in itertools.combinations(S, 2)])
        obs = [Ob("dtype", C.dtype.kind == "b"),
               Ob("fewer latents than the largest independent set", aig.ORN([ind(S) for S in itertools.combinations(range(n), m + 1)]) ^ 1),
               Ob("more latents than the largest independent set", aig.ORN([ind(S) for S in itertools.combinations(range(n), m)]))]
        for l in range(m):
            pure = [aig.ANDN([c[l][j]] + [c[k][j] ^ 1 for k in range(m) if k != l]) for j in range(n)]
            obs.append(Ob("latent without pure child", aig.ORN(pure)))
        for j in range(n):
            obs.append(Ob("measurement without parent", aig.ORN([c[l][j] for l in range(m)])))
        for i, j in G.pairs(n):
            share = aig.ORN([aig.AND(c[l][i], c[l][j]) for l in range(m)])
            obs.append(Ob("edge %d,%d not covered" % (i, j), aig.OR(e[i, j] ^ 1, share)))
        return obs
    return ctx.run(fn, prop, observe=lambda v: v[1].shape[0])


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    ecc = rp.fresh("ecc_algorithms")
    A = inp["A"].astype(bool)
    n = len(A)
    rp.limited(ecc.find_heuristic_1pc, np.array([[False, True, False], [True, False, True], [False, True, False]]))
    try:
        C = np.asarray(rp.limited(ecc.find_heuristic_1pc, A.copy()))
    except Exception as e:
        return {"violations": ["raises: %r on %s" % (e, A.astype(int).tolist())]}
    v = rp.V()
    if not v.check(C.ndim == 2 and C.shape[1] == n, "shape: %s" % (C.shape,)):
        return {"violations": v}
    alpha = max(len(S) for r in range(1, n + 1) for S in itertools.combinations(range(n), r)
                if not any(A[i, j] for i, j in itertools.combinations(S, 2)))
    v.check(C.dtype == bool, "dtype: %s" % C.dtype)
    v.check(len(C) == alpha, "latents: %d, largest independent set has %d, graph %s" % (len(C), alpha, A.astype(int).tolist()))
    C = C.astype(bool)
    for l in range(len(C)):
        v.check((C[l] & (C.sum(0) == 1)).any(), "pure: latent %d has no pure child" % l)
    v.check(C.any(0).all(), "parent: a measurement without parent")
    for i, j in G.pairs(n):
        v.check(not A[i, j] or (C[:, i] & C[:, j]).any(), "edge: %d,%d not covered" % (i, j))
    return {"violations": v, "output": len(C)}
