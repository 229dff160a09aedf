"""VAE: latents are the mean in evaluation mode and a reparameterised standard-normal draw in training mode."""
from . import moments, nets

BOUNDS = {"quick": "1..3 latents/measurements, 1..2 rows; every mode sequence of 3 calls; all real data, parameters, mu, logvar and draws"
                   "; up to 9 latents, 7 measurements, 33 rows",
          "thorough": "up to 4 latents, 3 rows, mode sequences of 4 calls"}
OUTSIDE = "larger networks; rounding; exp and sigmoid are uninterpreted (exp positive); normality of torch's draws"
ASSUMES = ["the latent is affine in torch's normal draws (checked), so mean and covariance determine its distribution"]


def configs(tier):
    import itertools
    q = tier == "quick"
    out = []
    for lat, N in [(1, 1), (2, 1), (2, 2), (3, 2)] + ([] if q else [(4, 2), (3, 3)]):
        for seq in itertools.product("te", repeat=3 if q and lat < 3 else 2 if q else 4):
            out.append(dict(kind="sample", lat=lat, N=N, seq="".join(seq), weight=lat * N))
    for lat, m, N in [(1, 1, 1), (2, 2, 1), (2, 2, 2), (3, 2, 1)] + ([] if q else [(3, 3, 2), (2, 3, 2)]):
        for seq in ("t", "e", "et", "te", "tt"):
            out.append(dict(kind="forward", lat=lat, m=m, N=N, seq=seq, weight=4 * lat * m * N))
    out += [dict(kind="sample", lat=9, N=6, seq="tet", weight=20), dict(kind="sample", lat=1, N=33, seq="et", weight=20),
            dict(kind="forward", lat=6, m=7, N=5, seq="te", sparse=2, weight=60)]
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, same_array, unchanged
    lat, N, m = cfg["lat"], cfg["N"], cfg.get("m", cfg["lat"])

    def fn():
        wd = ctx.world()
        M, names = nets.build(ctx, wd, lat, m, 1, 1)
        T = wd.load("medil.vae").torch.Tensor
        out = []
        if cfg["kind"] == "sample":
            mu, lv = ctx.reals("mu", (N, lat)), ctx.reals("lv", (N, lat))
            for c in cfg["seq"]:
                M.train(c == "t")
                a, b = T(mu.copy()), T(lv.copy())
                r = M.latent_sample(a, b)
                out.append((c, arr(r.a).copy(), arr(a.a), arr(b.a)))
            return mu, lv, out
        X = ctx.reals("X", (N, m))
        x = T(X.copy())
        mu, lv = M.encoder(T(X.copy()))
        mu, lv = arr(mu.a).copy(), arr(lv.a).copy()
        for c in cfg["seq"]:
            M.train(c == "t")
            ev = E.cfg.setdefault("torch", [])
            n0 = len(ev)
            r = M(x)
            lats = [e[2][0] for e in ev[n0:] if e[0] == "forward" and e[1] is M.decoder]
            if len(lats) != 1:
                raise core.Unsupported("decoder called %d times" % len(lats))
            z = arr(lats[0].a).copy()
            rec = M.decoder(T(z))
            out.append((c, z, [arr(t.a) for t in r], [arr(t.a) for t in rec], arr(x.a)))
        return mu, lv, out, X

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        mu, lv, outs = p.value[:3]
        ar = core.arith
        obs, flat, groups, mean = [], [], [], []
        for q, o in enumerate(outs):
            z = o[1]
            if z.el.shape != (N, lat):
                return [Ob("shape of the latents %s" % (z.el.shape,), False)]
            if o[0] == "e":
                obs += same_array("latent in evaluation mode", z, mu)
            else:
                for i in np.ndindex(N, lat):
                    flat.append(z.el[i])
                    groups.append((q,) + i)
                    mean.append(mu.el[i])
            if cfg["kind"] == "sample":
                obs += unchanged("mu modified", o[2], mu) + unchanged("logvar modified", o[3], lv)
            else:
                rec, want = o[2], o[3]
                if len(rec) != 4:
                    return [Ob("forward returns %d values" % len(rec), False)]
                obs += same_array("mu returned", rec[2], mu) + same_array("logvar returned", rec[3], lv)
                obs += same_array("reconstruction", rec[0], want[0]) + same_array("log-covariance", rec[1], want[1])
                obs += unchanged("data modified", o[4], p.value[3])

        def cov(a, b):
            if a != b:
                return 0
            e = core.sr_exp(ar("/", lv.el[a[1:]], 2)) if core.is_sym(lv.el[a[1:]]) else core.sr_exp(lv.el[a[1:]] / 2)
            return ar("*", e, e)
        return obs + (moments.moment_obs(flat, mean, cov, groups) if flat else [])
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np, torch
    from . import rp
    v = rp.V()
    lat, N, m = cfg["lat"], cfg["N"], cfg.get("m", cfg["lat"])
    g = moments.probe_class()()
    try:
        M = nets.real(lat, m, 1, 1, 0)
        nets.randomise(M, 4)
        with moments.torch_probe(g):
            if cfg["kind"] == "sample":
                mu, lv = (torch.tensor(np.asarray(inp[k], float)) for k in ("mu", "lv"))

                def call():
                    res = []
                    for c in cfg["seq"]:
                        M.train(c == "t")
                        a, b = mu.clone(), lv.clone()
                        res.append(M.latent_sample(a, b).detach().numpy().copy())
                        v.check(torch.equal(a, mu) and torch.equal(b, lv), "modified: mu or logvar")
                    return np.array(res)
            else:
                X = torch.tensor(np.asarray(inp["X"], float)) + 0.3
                with torch.no_grad():
                    mu, lv = M.encoder(X.clone())
                zs = []
                h = M.decoder.register_forward_pre_hook(lambda mod, a: zs.append(a[0].detach().clone()))

                def call():
                    res = []
                    for c in cfg["seq"]:
                        M.train(c == "t")
                        x = X.clone()
                        zs.clear()
                        with torch.no_grad():
                            o = M(x)
                            if len(zs) != 1:
                                raise rp.Mismatch("decoder called %d times" % len(zs))
                            z = zs[0].clone()
                            rec = M.decoder(z)
                        v.check(torch.equal(x, X), "modified: the data")
                        v.check(len(o) == 4 and torch.allclose(o[2], mu) and torch.allclose(o[3], lv), "returned: mu or logvar is not the encoder's")
                        v.check(torch.allclose(o[0], rec[0]) and torch.allclose(o[1], rec[1]), "reconstruction: not the decoder's output for the latent")
                        res.append(z.numpy().copy())
                    return np.array(res)
            r = moments.probe(call, g)
    except rp.Mismatch:
        raise
    except Exception as e:
        return {"violations": v + ["raises: %r" % e]}
    if isinstance(r, str):
        return {"violations": v + ["draws: " + r]}
    base, mean, C = r
    Q = len(cfg["seq"])
    if v.check(base.shape == (Q, N, lat), "shape: %s" % (base.shape,)):
        var = np.array([(np.exp(lv.numpy()) if c == "t" else np.zeros((N, lat))) for c in cfg["seq"]]).ravel()
        v.check(np.allclose(mean, np.tile(mu.numpy().ravel(), Q), atol=1e-7), "mean: %s" % mean)
        v.check(np.allclose(C, np.diag(var), rtol=1e-6, atol=1e-7), "covariance: %s instead of %s" % (np.round(np.diag(C), 4), np.round(var, 4)))
    return {"violations": list(dict.fromkeys(v))}
