"""Shared by C14 and C15: sample.biadj with one_pure_child=True under an arbitrary generator."""


def configs_pure(tier, top):
    out = []
    for n in range(1, top + 1):
        for k in range(1, n + 1):
            for d in (0.0, 0.125, 0.3, 0.5, 0.77, 1.0):
                if (n - k) * (k - 1) == 0 and d not in (0.3, 1.0):
                    continue
                out.append(dict(n=n, k=k, d=d, weight=n * n * k))
            out.append(dict(n=n, k=k, d="sym", weight=4 * n * n * k))
            out.append(dict(n=n, k=k, d="none", weight=4 * n * n * k))
        if n > 1:
            for d in (0.4, "none", "default", "sym"):
                out.append(dict(n=n, k=0, d=d, weight=10 * n ** 3))
    return out


def _kw(cfg, d):
    kw = {}
    if cfg["k"]:
        kw["num_latent"] = cfg["k"]
    if cfg["d"] == "none":
        kw["density"] = None
    elif cfg["d"] != "default":
        kw["density"] = d
    return kw


def run_pure(cfg, ctx, what):
    from symex.harness import Ob, E, core, arr
    n, k = cfg["n"], cfg["k"]

    def fn():
        s = ctx.world().load("medil.sample")
        d = cfg["d"]
        if d == "sym":
            d = ctx.real("density", 0, 1)
        if cfg.get("free"):
            E.cfg["draw_free"] = cfg["free"]
        r = s.biadj(n, rng=ctx.rng(), **_kw(cfg, d))
        from symex import rng
        dr = [x for x in rng.draws() if x[0] == "caller"]
        return arr(r), d, dr

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        B, d, dr = p.value
        obs = [Ob("dtype %s" % B.dtype, B.dtype.kind == "b")]
        if B.ndim != 2 or B.el.shape[1] != n or k and B.el.shape[0] != k:
            return obs + [Ob("shape %s" % (B.el.shape,), False)]
        K = B.el.shape[0]
        a = E.aig
        bit = [[core.truth(B.el[i, j]) for j in range(n)] for i in range(K)]
        if what == "shape":
            if not k:
                obs.append(Ob("num_latent %d drawn" % K, 1 <= K <= n - 1))
            pure = [[a.ANDN([bit[l][j]] + [bit[m][j] ^ 1 for m in range(K) if m != l]) for j in range(n)] for l in range(K)]
            obs += [Ob("latent without pure child", a.ORN(pure[l])) for l in range(K)]
            obs += [Ob("measurement without parent", a.ORN([bit[l][j] for l in range(K)])) for j in range(n)]
            return obs
        # number of links
        if cfg["d"] == "none":
            us = [x for x in dr if x[1] in ("random", "uniform")]
            if len(us) != 1:
                raise core.Unsupported("drawn density not identified")
            d = us[0][3]
            obs.append(Ob("density drawn in [0,1)", core.mkb(a.AND(core.blit(core.compare(">=", d, 0)), core.blit(core.compare("<", d, 1))))))
        elif cfg["d"] == "default":
            d = 0.2
        m = (n - K) * (K - 1)
        cnt = core.count_true([b for r in bit for b in r])
        if not core.is_sym(d):
            import numpy as np
            return obs + [Ob("number of links", core.compare("==", cnt, n + int(np.round(d * m))))]
        # nearest integer to m*d: |links - n - m*d| <= 1/2, ties to even
        e = core.arith("-", core.arith("-", cnt, n), core.arith("*", m, d))
        half = core.to_frac(0.5)
        obs.append(Ob("number of links", core.compare("<=", core.absval(e), half), [core.compare(">", core.absval(e), core.to_frac(0.6))]))
        for t in range(m):
            # exactly half way between t and t+1
            at = core.compare("==", core.arith("*", m, d), core.arith("+", t, half))
            ok = core.compare("==", cnt, n + (t if t % 2 == 0 else t + 1))
            obs.append(Ob("number of links (half way)", a.OR(core.blit(at) ^ 1, core.blit(ok))))
        return obs
    return ctx.run(fn, prop, observe=lambda v: v[0])


def replay_pure(cfg, inp, draws, what):
    import numpy as np
    from . import rp
    s = rp.light("sample")
    v = rp.V()
    n, k = cfg["n"], cfg["k"]
    d = inp.get("density", cfg["d"])
    try:
        B = s.biadj(n, rng=rp.ScriptedRng(draws), **_kw(cfg, d))
    except rp.Mismatch:
        raise
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    B = np.asarray(B)
    v.check(B.dtype == bool, "dtype: %s" % B.dtype)
    if not v.check(B.ndim == 2 and B.shape[1] == n and (not k or B.shape[0] == k), "shape: %s" % (B.shape,)):
        return {"violations": v}
    K = len(B)
    b = B.astype(bool)
    if what == "shape":
        v.check(k or 1 <= K <= n - 1, "num_latent: %d drawn" % K)
        v.check(b[:, b.sum(0) == 1].any(1).all(), "pure: latent without pure child: %s" % b.astype(int).tolist())
        v.check(b.any(0).all(), "parent: measurement without parent: %s" % b.astype(int).tolist())
    else:
        if cfg["d"] == "none":
            us = [x for x in draws if x[0] == "caller" and x[1] in ("random", "uniform")]
            if len(us) != 1:
                raise rp.Mismatch("density draw")
            d = rp.dec(us[0][3])
        elif cfg["d"] == "default":
            d = 0.2
        m = (n - K) * (K - 1)
        want = n + int(np.round(d * m))
        near = abs(d * m % 1 - .5) < 1e-9 and cfg["d"] in ("sym", "none")
        v.check(b.sum() == want or near and abs(int(b.sum()) - n - d * m) <= .5 + 1e-9, "links: %d instead of %d (density %s): %s" % (b.sum(), want, d, b.astype(int).tolist()))
    return {"violations": v, "output": rp.enc(B)}
