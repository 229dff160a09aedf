"""DevMedil: objective at the reported minimiser == validation loss of the stored parameters == the penalised loss."""

BOUNDS = {"quick": "2 and 3 measurements (latents = measurements, or measurements^2//4 without the one-pure-child assumption), all real datasets of 2..3 rows, all real "
                   "penalty weights, any reported minimiser with a non-singular covariance, both methods, given or random start; fits after an earlier fit on other data with other penalties",
          "thorough": "up to 4 measurements without the one-pure-child assumption and 4 rows"}
OUTSIDE = "larger models; the optimiser itself; singular covariance matrices; rounding and overflow"
ASSUMES = ["the nuclear norm is an uninterpreted function of the matrix (so any use of another norm, or on another matrix, is visible)"]


def configs(tier):
    out = []
    for meth in ("mle", "lse"):
        for n, opc, N in [(2, True, 2), (2, True, 3), (2, False, 2), (2, False, 3), (3, False, 3)] + ([(3, True, 3), (3, True, 2)] if meth == "lse" else []) + \
                ([(3, True, 3), (4, False, 2), (2, True, 4)] if tier == "thorough" else []):
            for how in ("fit", "direct"):
                out.append(dict(meth=meth, n=n, opc=opc, N=N, how=how, weight=n ** 4 * (4 if meth == "mle" else 1), timeout_ms=12000))
    out += [dict(meth="mle", n=2, opc=True, N=2, how="init", weight=16), dict(meth="seq", n=2, opc=True, N=2, how="fit", weight=40)]
    out += [dict(meth="seq", seq=q, other=True, n=2, opc=o, N=2, how="fit", weight=40, timeout_ms=12000) for q in (["mle", "mle"], ["lse", "lse"], ["mle", "lse"], ["lse", "mle"]) for o in (True, False)]
    out += [dict(meth="bad", n=2, opc=o, N=2, how=h) for o in (True, False) for h in ("MLE", "", "gls")]
    return out


def _seq(cfg):
    return cfg.get("seq", ["mle", "lse", "mle"]) if cfg["meth"] == "seq" else [cfg["meth"]]


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, close, S
    n, N = cfg["n"], cfg["N"]
    k = n if cfg["opc"] else n * n // 4

    def fn():
        w = ctx.world()
        md = w.load("medil.models")
        X = ctx.reals("X", (N, n))
        m = md.DevMedil(one_pure_child=cfg["opc"], rng=ctx.rng("own"))
        lam, mu = ctx.real("lam"), ctx.real("mu")
        if cfg["meth"] == "bad":
            return m.fit(X.copy(), cfg["how"], lam, mu)
        if cfg["how"] == "init":
            m.init_W = ctx.reals("W0", (k, n))
        E.cfg["minimize_eval"] = True
        out = []
        for j, meth in enumerate(_seq(cfg)):
            if cfg.get("other") and j:
                X, lam, mu = ctx.reals("X%d" % j, (N + 1, n)), ctx.real("lam%d" % j), ctx.real("mu%d" % j)
            if cfg["how"] == "direct":
                r = getattr(m, "fit_penalized_" + meth)(X.copy(), lam, mu)
            else:
                r = m.fit(X.copy(), method=meth, lambda_reg=lam, mu_reg=mu)
            rec = E.cfg.get("minimize", [])
            if len(rec) != j + 1:
                raise core.Unsupported("minimize called %d times" % len(rec))
            ctx.inputs["opt%d" % j] = rec[j]["x"].copy()
            v = getattr(m, "validation_" + meth)(lam, mu, X.copy())
            out.append((meth, r is m, rec[j]["value"], v, arr(m.W_hat), arr(m.D_hat), arr(getattr(m, "W_hat_" + meth)), arr(getattr(m, "D_hat_" + meth)), X, lam, mu))
        return out

    def loss(meth, W, D, X, lam, mu):
        ar = core.arith
        V = snp.cov(X, rowvar=False)
        G = snp.dot(W.T, W) + D
        pen = ar("+", ar("*", lam, snp.nuclear(W)), ar("*", mu, sc(S.a_sum(snp.absolute(W)))))
        if meth == "mle":
            I = snp.linalg.inv(G)
            _, ld = snp.linalg.slogdet(I)
            return ar("+", ar("-", sc(snp.trace(snp.dot(V, I))), ld), pen), ("<=", snp.linalg.det(I))
        R = V - G
        return ar("+", sc(S.a_sum(R * R)), pen), None

    def sc(v):
        return arr(v).el.reshape(-1)[0] if isinstance(v, S.SArray) else v

    def prop(p):
        if cfg["meth"] == "bad":
            return [Ob("ValueError for an unknown method", isinstance(p.exc, ValueError))]
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        outs = p.value
        obs = []
        for meth, same, val, v, W, D, Ws, Ds, X, lam, mu in outs:
            obs.append(Ob("fit returns the model", same))
            if W.el.shape != (k, n) or D.el.shape != (n, n):
                return obs + [Ob("shape of W_hat %s, D_hat %s" % (W.el.shape, D.el.shape), False)]
            if Ws.el.shape != (k, n) or Ds.el.shape != (n, n):
                return obs + [Ob("shape of W_hat_%s" % meth, False)]
            for a, b in ((W, Ws), (D, Ds)):
                for i in np.ndindex(*a.el.shape):
                    obs.append(close("W_hat_%s%s" % (meth, i), a.el[i], b.el[i]))
            for i in range(n):
                for j in range(n):
                    if i != j:
                        obs.append(close("D_hat diagonal", D.el[i, j], 0))
            val, v = sc(val), sc(v)
            obs.append(close("validation_%s equals the objective at the minimiser" % meth, val, v))
            if not (isinstance(v, float) and v == float("inf")):
                want, _ = loss(meth, W, D, X, lam, mu)
                obs.append(close("loss (%s)" % meth, v, want))
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np, types
    from . import rp
    md = rp.light("models")
    v = rp.V()
    n, N = cfg["n"], cfg["N"]
    k = n if cfg["opc"] else n * n // 4
    m = md.DevMedil(one_pure_child=cfg["opc"], rng=np.random.default_rng(3))
    X, lam, mu = inp["X"], float(inp["lam"]), float(inp["mu"])
    if cfg["meth"] == "bad":
        try:
            m.fit(X.copy(), cfg["how"], lam, mu)
            v.append("method: %r accepted" % cfg["how"])
        except ValueError:
            pass
        except Exception as e:
            v.append("method: %r" % e)
        return v
    if cfg["how"] == "init":
        m.init_W = inp["W0"].copy()
    st = {}

    def fake(fun, x0, *a, **kw):
        x = np.asarray(st["x"], float)
        if np.shape(x0) != x.shape:
            raise rp.Mismatch("minimiser has another shape")
        st["v"] = float(fun(x.copy()))
        return types.SimpleNamespace(x=x.copy(), success=bool(st["ok"]), message="stub", fun=st["v"], nit=1, nfev=1, status=0)
    keep = md.minimize
    md.minimize = fake
    try:
        for j, meth in enumerate(_seq(cfg)):
            if cfg.get("other") and j:
                X = np.asarray(inp["X%d" % j], float) if "X%d" % j in inp else np.arange(1.0, 1 + (N + 1) * n).reshape(N + 1, n) ** 2
                lam, mu = float(inp.get("lam%d" % j, .7)), float(inp.get("mu%d" % j, .3))
            st.clear()
            # no minimiser recorded: the fit stopped before it (an arbitrary point of the right size then)
            st.update(x=inp["opt%d" % j] if "opt%d" % j in inp and np.size(inp["opt%d" % j]) else np.linspace(0.3, 1.7, k * n + n), ok=True)
            try:
                if cfg["how"] == "direct":
                    r = getattr(m, "fit_penalized_" + meth)(X.copy(), lam, mu)
                else:
                    r = m.fit(X.copy(), method=meth, lambda_reg=lam, mu_reg=mu)
                got = float(getattr(m, "validation_" + meth)(lam, mu, X.copy()))
            except np.linalg.LinAlgError:
                return {"violations": v, "skipped": True}
            if "v" not in st:
                raise rp.Mismatch("minimize not called")
            v.check(r is m, "return: not the model")
            W, D = np.asarray(m.W_hat), np.asarray(m.D_hat)
            if not v.check(W.shape == (k, n) and D.shape == (n, n), "shape: W_hat %s, D_hat %s" % (W.shape, D.shape)):
                return v
            v.check(np.array_equal(W, getattr(m, "W_hat_" + meth)) and np.array_equal(D, getattr(m, "D_hat_" + meth)), "W_hat_%s" % meth)
            S = np.cov(X, rowvar=False)
            G = W.T @ W + D
            pen = lam * np.linalg.norm(W, "nuc") + mu * np.abs(W).sum()
            if meth == "mle":
                c = np.linalg.cond(G)
                if not c < 1e6:
                    continue
                s, ld = np.linalg.slogdet(G)
                want = np.trace(S @ np.linalg.inv(G)) + ld + pen if s > 0 else np.inf
            else:
                want = ((S - G) ** 2).sum() + pen
            ok = lambda a, b: a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b), abs(pen))
            v.check(ok(got, st["v"]), "consistent: %s at the minimiser, validation_%s reports %s" % (st["v"], meth, got))
            if np.isfinite(got):
                v.check(ok(got, want), "loss: validation_%s is %s, expected %s" % (meth, got, want))
    except rp.Mismatch:
        raise
    except Exception as e:
        v.append("raises: %r" % e)
    finally:
        md.minimize = keep
    return v
