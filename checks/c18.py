"""biadj / mcm with a caller-supplied generator: nothing else influences the result (self-composition)."""
import itertools

BOUNDS = {"quick": "biadj: one-pure-child with 2..4 measurements (latents given or drawn, density given, default or None), graphs with 2..4 measurements; "
                   "mcm: generated structures with 2..3 measurements, given structures 2x3; every pair of executions that agree on the caller's stream and "
                   "take arbitrary values from every other generator, the second one after earlier calls that used the default generators"
                   "; up to 20 measurements with part of the draws symbolic; given structure 3x7",
          "thorough": "one measurement more"}
OUTSIDE = "larger sizes; the generator stored in the returned model (used for later sampling)"


def configs(tier):
    t = 0 if tier == "quick" else 1
    out = []
    for n in range(2, 5 + t):
        out += [dict(f="biadj", kw=dict(num_meas=n)), dict(f="biadj", kw=dict(num_meas=n, num_latent=2)), dict(f="biadj", kw=dict(num_meas=n, num_latent=2, density=None)),
                dict(f="biadj", kw=dict(num_meas=n, density=0.6, num_latent=n - 1)),
                dict(f="biadj", kw=dict(num_meas=n, one_pure_child=False, density=0.5), weight=n ** 3)]
    for n in range(2, 4 + t):
        out += [dict(f="mcm", kw=dict(num_meas=n, num_latent=1)), dict(f="mcm", kw=dict(num_meas=n, density=0.5, num_latent=2)), dict(f="mcm", kw=dict(num_meas=n)),
                dict(f="mcm", kw=dict(num_meas=n, density=None, num_latent=2)), dict(f="mcm", kw=dict(num_meas=n, one_pure_child=False, density=0.5), weight=n ** 3)]
    out += [dict(f="mcm", kw={}, given=[[1, 1, 0], [0, 1, 1]]), dict(f="mcm", kw={}, given=[[1, 1, 1]])]
    out += [dict(f="biadj", kw=dict(num_meas=9, num_latent=4), samples=1), dict(f="biadj", kw=dict(num_meas=20, num_latent=5, density=.3), free=3, samples=1),
            dict(f="mcm", kw={}, given=[[1, 1, 1, 0, 0, 1, 0], [0, 1, 1, 0, 1, 1, 0], [0, 0, 0, 1, 1, 1, 1]], samples=1),
            dict(f="mcm", kw=dict(num_meas=12, num_latent=4), free=2, samples=1)]
    out += [dict(f="biadj", kw=dict(num_meas=n, one_pure_child=False, density=d), free=4, samples=1, weight=200) for n, d in ((7, .4), (9, .3))]
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, same_array

    def call(s):
        kw = dict(cfg["kw"])
        if cfg.get("given"):
            kw["biadj"] = snp.array(cfg["given"]).astype(bool)
        g = ctx.rng()
        if cfg["f"] == "biadj":
            return [arr(s.biadj(rng=g, **kw))]
        m = s.mcm(rng=g, **kw)
        P = m.parameters
        return [arr(m.biadj), arr(P.biadj_weights), arr(P.error_means), arr(P.error_variances)]

    def fn():
        s = ctx.world().load("medil.sample")
        if cfg.get("free"):
            E.cfg["draw_free"] = cfg["free"]
        E.cfg["default_prefix"] = "A:"
        a = call(s)
        # other generators: unrelated values, and used before
        E.cfg["default_prefix"] = "B:"
        st = E.cfg["stream"]
        for k in [k for k in st if k.split("/")[0] == "caller"]:
            st[k] = 0
        s.biadj(2, num_latent=1, density=0.0)
        s.mcm(biadj=snp.array([[True]]))
        E.cfg["default_prefix"] = "C:"
        b = call(s)
        E.cfg["default_prefix"] = ""
        return a, b

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        a, b = p.value
        obs = []
        for nm, x, y in zip(("structure", "weights", "means", "variances"), a, b):
            obs += same_array(nm, x, y)
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    v = rp.V()
    s = rp.fresh("sample")

    def call(seed):
        kw = dict(cfg["kw"])
        if cfg.get("given"):
            kw["biadj"] = np.array(cfg["given"], bool)
        g = np.random.default_rng(seed)
        if cfg["f"] == "biadj":
            return [s.biadj(rng=g, **kw)]
        m = s.mcm(rng=g, **kw)
        P = m.parameters
        return [m.biadj, P.biadj_weights, P.error_means, P.error_variances]
    for seed in range(25):
        try:
            np.random.seed(seed)
            a = call(seed)
            s.biadj(3 + seed % 3, num_latent=2)
            s.mcm(biadj=np.ones((1, 2), bool))
            np.random.seed(1000 + seed)
            b = call(seed)
        except Exception as e:
            v.check(False, "raises: %r" % e)
            break
        if not v.check(all(np.shape(x) == np.shape(y) and np.array_equal(x, y) for x, y in zip(a, b)),
                       "stream: seed %d gives %s, later %s" % (seed, np.asarray(a[0]).astype(int).tolist(), np.asarray(b[0]).astype(int).tolist())):
            break
    return {"violations": v}
