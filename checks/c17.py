"""sample.mcm: parameters follow the structure."""
import itertools

BOUNDS = {"quick": "every given 0/1 structure up to 2x3 and 3x2 (bool, int64, float64), 1x5; generated one-pure-child structures with 4 measurements "
                   "(2 latents, and latents drawn) and generated graphs with 3 measurements; every value of every draw"
                   "; given structures up to 8x6 and 3x12 with 4 free entries",
          "thorough": "every given structure up to 3x3, 2x4 (bool, int64), generated with 5 measurements and graphs with 4"}
OUTSIDE = "larger structures; the distribution of the parameters"


def configs(tier):
    out = []
    for k, n, ds in ((1, 1, "bif"), (1, 2, "bif"), (2, 2, "bif"), (1, 3, "bi"), (2, 3, "bif"), (3, 2, "bi"), (1, 5, "i")):
        for d in ds:
            c = k * n - 3 if k * n > 4 else 0
            for cube in itertools.product((0, 1), repeat=max(0, c)):
                out.append(dict(kind="given", k=k, n=n, d=d, cube=list(cube), weight=k * n))
    gen = [dict(num_meas=4, num_latent=2, density=0.5), dict(num_meas=3), dict(num_meas=3, density=None), dict(num_meas=3, one_pure_child=False, density=0.5),
           dict(num_meas=2, one_pure_child=False, density=0.0), dict(num_meas=3, num_latent=3)]
    out += [dict(kind="given", k=k, n=n, d=d, cube=[], sparse=4, spseed=k, samples=1, weight=20) for k, n, d in ((5, 8, "i"), (3, 12, "b"), (4, 4, "f"), (8, 6, "b"), (1, 11, "i"))]
    if tier == "thorough":
        for k, n, ds in ((3, 3, "bi"), (2, 4, "bi")):
            for d in ds:
                for cube in itertools.product((0, 1), repeat=5):
                    out.append(dict(kind="given", k=k, n=n, d=d, cube=list(cube), weight=k * n))
        gen += [dict(num_meas=5, num_latent=3, density=0.4), dict(num_meas=5), dict(num_meas=4, one_pure_child=False, density=0.5)]
    out += [dict(kind="gen", kw=k, weight=30) for k in gen]
    return out


DT = {"b": "bool", "i": "int64", "f": "float64"}


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, AND, OR, close, unchanged, SArray
    from fractions import Fraction

    def fn():
        s = ctx.world().load("medil.sample")
        if cfg["kind"] == "given":
            B = ctx.bools("B", (cfg["k"], cfg["n"]), DT[cfg["d"]] if cfg["d"] != "f" else bool)
            for x, v in zip(B.el.reshape(-1), cfg["cube"]):
                E.assume(core.mkb(core.truth(x) ^ (0 if v else 1)))
            if cfg["d"] == "f":
                B = B.astype(float)
                ctx.inputs["B"] = B.copy()
            s.mcm(rng=ctx.rng("warm"), biadj=snp.array([[True, True, False], [False, True, True]]))
            m = s.mcm(rng=ctx.rng(), biadj=B.copy())
            return B, m
        m = s.mcm(rng=ctx.rng(), **cfg["kw"])
        return None, m

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        B, m = p.value
        A = arr(m.biadj)
        obs = []
        if B is None:
            if A.ndim != 2 or A.el.shape[1] != cfg["kw"]["num_meas"] or cfg["kw"].get("num_latent", A.el.shape[0]) != A.el.shape[0]:
                return [Ob("structure shape", False)]
        elif A.el.shape != B.el.shape:
            return [Ob("structure shape", False)]
        else:
            obs += [Ob("structure %s" % (i,), E.aig.XOR(core.truth(A.el[i]), core.truth(B.el[i])) ^ 1) for i in np.ndindex(*A.el.shape)]
        P = m.parameters
        W, V, M = arr(P.biadj_weights), arr(P.error_variances), arr(P.error_means)
        n = A.el.shape[1]
        if W.el.shape != A.el.shape or V.el.shape != (n,) or M.el.shape != (n,):
            return obs + [Ob("parameter shapes %s %s %s" % (W.el.shape, V.el.shape, M.el.shape), False)]
        obs.append(Ob("weights dtype", W.dtype.kind == "f"))
        half, two = Fraction(1, 2), 2
        inside = lambda v: E.aig.AND(core.blit(core.compare(">=", v, half)), core.blit(core.compare("<", v, two)))
        for i in np.ndindex(*A.el.shape):
            t = core.truth(A.el[i])
            obs.append(Ob("weight %s on a link" % (i,), E.aig.OR(t ^ 1, inside(core.absval(W.el[i])))))
            obs.append(Ob("weight %s without link" % (i,), E.aig.OR(t, core.blit(core.compare("==", W.el[i], 0)))))
        for j in range(n):
            obs.append(Ob("variance %d" % j, inside(V.el[j])))
            obs.append(Ob("mean %d" % j, core.compare("<", core.absval(M.el[j]), two)))
        return obs
    return ctx.run(fn, prop, observe=lambda v: [arr(v[1].parameters.biadj_weights), arr(v[1].parameters.error_variances), arr(v[1].parameters.error_means)])


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    s = rp.light("sample")
    v = rp.V()
    try:
        if cfg["kind"] == "given":
            B = inp["B"].astype(DT[cfg["d"]])
            m = s.mcm(rng=rp.ScriptedRng(draws), biadj=B.copy())
        else:
            m = s.mcm(rng=rp.ScriptedRng(draws), **cfg["kw"])
            B = None
    except rp.Mismatch:
        raise
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    A = np.asarray(m.biadj)
    if B is not None:
        if not v.check(A.shape == B.shape and (A.astype(bool) == B.astype(bool)).all(), "structure: not the given one"):
            return {"violations": v}
    elif not v.check(A.ndim == 2 and A.shape[1] == cfg["kw"]["num_meas"] and cfg["kw"].get("num_latent", len(A)) == len(A), "structure: shape %s" % (A.shape,)):
        return {"violations": v}
    P = m.parameters
    W, V, M = map(np.asarray, (P.biadj_weights, P.error_variances, P.error_means))
    n = A.shape[1]
    if v.check(W.shape == A.shape and V.shape == (n,) and M.shape == (n,), "shapes: %s %s %s" % (W.shape, V.shape, M.shape)):
        L = A.astype(bool)
        e = 0       # draws are exact: the interval's ends matter
        v.check(((abs(W[L]) >= .5 - e) & (abs(W[L]) < 2 + e)).all(), "weights on links: %s" % W[L])
        v.check((W[~L] == 0).all(), "weights without link: %s" % W[~L])
        v.check(((V >= .5 - e) & (V < 2 + e)).all(), "variances: %s" % V)
        v.check((abs(M) < 2 + e).all(), "means: %s" % M)
    return {"violations": v, "output": [rp.enc(W.astype(float)), rp.enc(V), rp.enc(M)]}
