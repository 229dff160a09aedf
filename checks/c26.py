"""NCFA loss: beta * KL + half the Gaussian data term (+ weight penalties in training)."""
import shutil, tempfile
from . import ncfa

BOUNDS = {"quick": "1..3 measurements, 1..3 rows per batch, the network's outputs, the weights and the penalty weights arbitrary; both the loss function itself "
                   "and the losses a complete fit differentiates and records (1..2 epochs of 1..2 batches)"
                   "; complete fits with up to 10 training and 5 validation rows with 2 free data entries",
          "thorough": "up to 4 measurements, 4 rows, 3 epochs"}
OUTSIDE = "larger batches; rounding and overflow; exp is an uninterpreted positive function with exp(x) >= 1 + x; the nuclear norm is uninterpreted"


def configs(tier):
    q = tier == "quick"
    out = [dict(kind="loss", m=m, lat=m, N=N, pen=p, weight=m * m * N) for m, N in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 1)] + ([] if q else [(4, 2), (3, 4), (4, 3)])
           for p in (True, False)]
    out += [dict(kind="kl", m=m, lat=l, N=N, weight=2) for m, l, N in ((1, 1, 1), (1, 2, 2), (2, 2, 1))]
    out += [dict(kind="fit", m=m, T=T, V=V, b=b, e=e, weight=m * (T + V) * e * 3) for m, T, V, b, e in
            [(1, 2, 1, 1, 1), (2, 2, 2, 2, 1), (2, 3, 2, 2, 1), (2, 2, 1, 1, 2), (1, 3, 3, 2, 2)] + ([] if q else [(3, 4, 3, 2, 2), (2, 4, 2, 2, 3)])]
    out += [dict(kind="fit", m=m, T=T, V=V, b=b, e=e, sparse=2, samples=1, weight=40) for m, T, V, b, e in [(1, 7, 5, 4, 3), (1, 10, 3, 3, 2), (2, 9, 5, 4, 2)]]
    return [dict(c, timeout_ms=(6000 if c['kind'] == 'fit' else 12000) * (1 if q else 10)) for c in out]


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, close, S
    if cfg["kind"] == "fit":
        def fn():
            return ncfa.fit(ctx, cfg)

        def prop(p):
            if p.exc is not None:
                return [Ob("raises %r" % p.exc, False)]
            M, train, valid, ev, pen = p.value
            obs = []
            last = None
            n = 0
            for e in ev:
                if e[0] == "vae":
                    last = e[1]
                elif e[0] == "backward":
                    n += 1
                    if last is None:
                        return [Ob("loss without a forward pass", False)]
                    obs.append(close("training loss %d" % n, sc(e[1]), ncfa.spec_loss(core, snp, last, pen["beta"], pen["lambda"], pen["mu"])))
            if not n:
                return [Ob("no loss is differentiated", False)]
            return obs
        return ctx.run(fn, prop)

    def fn():
        w = ctx.world()
        md = w.load("medil.models")
        T = w.load("medil.vae").torch.Tensor
        M = md.NeuroCausalFactorAnalysis(path="out/")
        if not hasattr(M, "_elbo_gaussian"):
            raise core.Unsupported("no _elbo_gaussian")
        pen = {k: ctx.real(k, 0) for k in ("beta", "lambda", "mu")}
        M.hyperparams.update(pen)
        m, lat, N = cfg["m"], cfg["lat"], cfg["N"]
        t = dict(x=ctx.reals("x", (N, m)), rec=ctx.reals("rec", (N, m)), lc=ctx.reals("lc", (N, m)), mu=ctx.reals("mu_", (N, lat)), lv=ctx.reals("lv", (N, lat)),
                 W=ctx.reals("W", (m, lat)))
        a = {k: T(v.copy()) for k, v in t.items()}

        def loss(beta, mu=None, lv=None):
            return sc(M._elbo_gaussian(a["x"], a["rec"], a["lc"], a["mu"] if mu is None else mu, a["lv"] if lv is None else lv,
                                       a["W"] if cfg.get("pen") else None, beta))
        if cfg["kind"] == "kl":
            z = lambda: T(snp.zeros((N, lat)))
            kl = core.arith("-", loss(1), loss(0))
            kl0 = core.arith("-", loss(1, z(), z()), loss(0, z(), z()))
            return t, kl, kl0
        return t, loss(pen["beta"]), pen

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        t, v, u = p.value
        if cfg["kind"] == "kl":
            return [Ob("KL is never negative", core.compare(">=", v, 0), [core.compare("<", v, -1)]), close("KL at zero", u, 0),
                    close("KL", v, ncfa.spec_kl(core, t["mu"], t["lv"]))]
        want = ncfa.spec_loss(core, snp, t, u["beta"], *((u["lambda"], u["mu"]) if cfg["pen"] else ()))
        return [close("loss", v, want)]

    return ctx.run(fn, prop)


def sc(v):
    from symex.harness import arr, S
    if hasattr(v, "a"):
        v = v.a
    return arr(v).el.reshape(-1)[0] if isinstance(v, S.SArray) else v


def replay(cfg, inp, draws):
    import numpy as np, torch
    from . import rp
    v = rp.V()
    ok = lambda a, b: abs(a - b) <= 2e-3 * max(1, abs(a), abs(b)) or not (np.isfinite(b) and abs(b) < 1e12)
    d = tempfile.mkdtemp()
    try:
        if cfg["kind"] == "fit":
            M, train, valid, ev, pen = ncfa.real_fit(cfg, inp, d + "/")
            n, last = 0, None
            for e in ev:
                if e[0] == "vae":
                    last = e[1]
                elif e[0] == "backward":
                    n += 1
                    want = ncfa.np_loss(last, pen["beta"], pen["lambda"], pen["mu"])
                    v.check(ok(e[1], want), "loss: %s differentiated, expected %s" % (e[1], want))
            v.check(n > 0, "loss: none differentiated")
            return v
        md = rp.light("models")
        M = md.NeuroCausalFactorAnalysis(path=d + "/")
        if not hasattr(M, "_elbo_gaussian"):
            raise rp.Mismatch("no _elbo_gaussian")
        pen = {k: float(abs(inp[k])) for k in ("beta", "lambda", "mu")}
        M.hyperparams.update(pen)
        g = lambda k: np.clip(np.asarray(inp[k], float), -12, 12)
        e = dict(x=g("x"), rec=g("rec"), lc=g("lc"), mu=g("mu_"), lv=g("lv"), W=g("W"))
        t = {k: torch.tensor(x) for k, x in e.items()}
        f = lambda b, mu=None, lv=None: float(M._elbo_gaussian(t["x"], t["rec"], t["lc"], t["mu"] if mu is None else mu, t["lv"] if lv is None else lv,
                                                               t["W"] if cfg.get("pen") else None, b))
        if cfg["kind"] == "kl":
            z = torch.zeros_like(t["mu"])
            kl, kl0 = f(1) - f(0), f(1, z, z) - f(0, z, z)
            s = max(1, abs(f(0))) * 1e-7
            v.check(kl >= -s, "KL: negative, %s" % kl)
            v.check(abs(kl0) <= s, "KL: %s at zero" % kl0)
            want = .5 * (e["mu"] ** 2 + np.exp(e["lv"]) - 1 - e["lv"]).sum()
            v.check(abs(kl - want) <= s + 1e-6 * abs(want), "KL: %s instead of %s" % (kl, want))
            return v
        want = ncfa.np_loss(e, pen["beta"], *((pen["lambda"], pen["mu"]) if cfg["pen"] else ()))
        got = f(pen["beta"])
        v.check(abs(got - want) <= 1e-6 * max(1, abs(want)), "loss: %s instead of %s" % (got, want))
        return v
    except ncfa.FitRaised as e:
        return {"violations": v + ["raises: %s" % e]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
