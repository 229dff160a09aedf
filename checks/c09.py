"""recover_ug: linked iff a latent is shared; zero diagonal; symmetric."""
import itertools

BOUNDS = {"quick": "all binary matrices up to 3 latents x 4 measurements and 1 x 5, bool/int/uint8/float"
                   "; up to 12x30 and 300x4 with 8 free entries", "thorough": "all binary matrices up to 4 latents x 5 measurements and 3 x 6"}
OUTSIDE = "larger matrices; int8 counts that overflow"


def configs(tier):
    shapes = [(1, 1), (0, 2), (1, 2), (2, 2), (1, 5), (2, 3), (3, 3), (3, 4)]
    if tier == "thorough":
        shapes += [(4, 4), (2, 5), (4, 5), (3, 6)]
    big = [(6, 9), (8, 12), (12, 30), (20, 11), (1, 40), (300, 4)]
    return [dict(k=k, n=n, d=d, samples=3) for k, n in shapes for d in ("bool", "int64", "uint8", "float64")] + \
        [dict(k=k, n=n, d=d, samples=2, sparse=8 if tier == "quick" else 20, spseed=k, density=.9 if k > 100 else .25) for k, n in big for d in ("bool", "int64", "uint8", "float64")]


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, arr, IFF, OR

    def fn():
        ev = ctx.world().load("medil.evaluate")
        B = ctx.bools("B", (cfg["k"], cfg["n"]), cfg["d"])
        ev.recover_ug(snp.array([[1, 1, 0], [0, 1, 1]]).astype(cfg["d"]))
        return B.copy(), ev.recover_ug(B)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        B, U = p.value
        U = arr(U)
        n = cfg["n"]
        if U.el.shape != (n, n):
            return [Ob("shape", False)]
        obs = []
        for i in range(n):
            obs.append(Ob("diagonal", core.truth(U.el[i, i]) ^ 1))
            for j in range(i + 1, n):
                share = core.mkb(E.aig.ORN([E.aig.AND(core.blit(B.el[l, i]), core.blit(B.el[l, j])) for l in range(cfg["k"])]))
                obs.append(Ob("link", IFF(core.mkb(core.truth(U.el[i, j])), share)))
                obs.append(Ob("symmetric", core.compare("==", U.el[i, j], U.el[j, i])))
        return obs
    return ctx.run(fn, prop, observe=lambda v: (arr(v[1]) != 0))


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    ev = rp.fresh("evaluate")
    v = rp.V()
    B = inp["B"]
    ev.recover_ug(np.array([[1, 1, 0], [0, 1, 1]]).astype(cfg["d"]))
    try:
        U = np.asarray(ev.recover_ug(B.copy()))
    except Exception as e:
        return {"violations": ["recover_ug raises %r" % e]}
    n = cfg["n"]
    if not v.check(U.shape == (n, n), "shape: %s" % (U.shape,)):
        return {"violations": v}
    Bb = B.astype(bool)
    for i in range(n):
        v.check(not U[i, i], "diagonal: entry %d is %s" % (i, U[i, i]))
        for j in range(i + 1, n):
            v.check(bool(U[i, j]) == bool((Bb[:, i] & Bb[:, j]).any()), "link: entry %d,%d is %s" % (i, j, U[i, j]))
            v.check(U[i, j] == U[j, i], "symmetric: %d,%d" % (i, j))
    return {"violations": v, "output": rp.enc(U != 0)}
