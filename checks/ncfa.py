"""Running NeuroCausalFactorAnalysis.fit with every network output, update and penalty weight arbitrary; trace analysis.

The network is replaced by one whose outputs are arbitrary values per call (so the results hold for every network);
optimiser steps replace all parameters by arbitrary values."""


def spec_kl(core, mu, lv):
    ar = core.arith
    t = 0
    for a, b in zip(mu.el.reshape(-1), lv.el.reshape(-1)):
        t = ar("+", t, ar("-", ar("-", ar("+", ar("*", a, a), core.sr_exp(b)), 1), b))
    return ar("/", t, 2)


def spec_data(core, x, rec, lc):
    ar = core.arith
    B, m = x.el.shape
    c = []
    for j in range(m):
        s = 0
        for r in range(B):
            s = ar("+", s, core.sr_exp(lc.el[r, j]))
        c.append(ar("/", s, B))
    det = 1
    for v in c:
        det = ar("*", det, v)
    t = 0
    for r in range(B):
        t = ar("+", t, det)
        for j in range(m):
            d = ar("-", x.el[r, j], rec.el[r, j])
            t = ar("+", t, ar("/", ar("*", d, d), c[j]))
    return ar("/", t, 2)


def spec_penalty(core, snp, W, lam, mu):
    ar = core.arith
    t = 0
    for v in W.el.reshape(-1):
        t = ar("+", t, core.absval(v))
    return ar("+", ar("*", lam, snp.nuclear(W)), ar("*", mu, t))


def spec_loss(core, snp, ev, beta, lam=None, mu=None):
    ar = core.arith
    t = ar("+", ar("*", beta, spec_kl(core, ev["mu"], ev["lv"])), spec_data(core, ev["x"], ev["rec"], ev["lc"]))
    return t if lam is None else ar("+", t, spec_penalty(core, snp, ev["W"], lam, mu))


def stub(w, md):
    """VariationalAutoencoder with arbitrary outputs, recorded"""
    from symex import tshim
    from symex.core import E
    from symex.harness import arr

    class VAE(tshim.Module):
        def __init__(self, lat, m, L, width):
            super().__init__()
            self.lat, self.m = int(lat), int(m)
            self.encoder, self.decoder = tshim.Module(), tshim.Module()
            self.encoder.weight = tshim.Parameter(tshim.fresh("encoder.w", (1, int(m))))
            for n in ("mean", "cov"):
                f = tshim.Module()
                f.weight = tshim.Parameter(tshim.fresh("%s.w" % n, (int(m) * int(width), int(lat))))
                f.bias = tshim.Parameter(tshim.fresh("%s.b" % n, (int(m) * int(width),)))
                setattr(self.decoder, n + "_linear_fulcon", f)

        def forward(self, x):
            B = x.shape[0]
            sh = (B, self.m), (B, self.m), (B, self.lat), (B, self.lat)
            outs = [tshim.fresh("vae." + n, s) for n, s in zip(("rec", "lc", "mu", "lv"), sh)]
            E.cfg.setdefault("torch", []).append(("vae", dict(
                model=self, x=arr(x.a).copy(), training=self.training, no_grad=bool(E.cfg.get("no_grad")),
                W=arr(self.decoder.cov_linear_fulcon.weight.a).copy(), **dict(zip(("rec", "lc", "mu", "lv"), [o.copy() for o in outs])))))
            return tuple(tshim.Tensor(o) for o in outs)
    md.__dict__["VariationalAutoencoder"] = VAE
    return VAE


def _earlier(n, m):
    """the data of an earlier fit of the same object"""
    return [[float((3 * i * i + 5 * j + 2 * i * j) % 7) / 2 for j in range(m)] for i in range(max(n, 3))]


def fit(ctx, cfg, path="out/"):
    from symex.harness import E, core, arr, snp, np
    X = ctx.reals("X", (cfg["T"] + cfg["V"], cfg["m"]))
    pen = {k: ctx.real(k, 0) for k in ("beta", "lambda", "mu")}
    w = ctx.world()
    md = w.load("medil.models")
    stub(w, md)
    M = md.NeuroCausalFactorAnalysis(path=path, verbose=bool(cfg.get("verbose")))
    T, V = cfg["T"], cfg["V"]
    if cfg.get("again"):
        M.hyperparams.update(batch_size=2, num_epochs=cfg["e"] + 1, beta=3.0, mu=0.5)
        M.fit(snp.array(_earlier(T + V + 1, cfg["m"])), ([2, 0], [1]))
        E.cfg.get("torch", []).clear()
    M.hyperparams.update(pen, batch_size=cfg["b"], num_epochs=cfg["e"])
    if cfg.get("lr"):
        pen["lr"] = M.hyperparams["lr"] = ctx.real("lr", 0, 1)
    if cfg.get("split", "idx") == "idx":
        order = list(range(T + V))
        order = order[::2] + order[1::2]
        tr, va = order[:T], order[T:]
        M.fit(X.copy(), (tr, va) if cfg.get("lists", True) else (snp.array(tr), snp.array(va)))
        train, valid = [X.el[i] for i in tr], [X.el[i] for i in va]
    else:
        got = []
        real = md.__dict__["train_test_split"]

        def split(A, *a, **k):
            A = arr(A)
            tr, va = A[[i for i in range(T + V) if i % 3 != 2][:T]], A[[i for i in range(T + V) if i not in [q for q in range(T + V) if q % 3 != 2][:T]]]
            got.append((arr(tr), arr(va)))
            return [tr, va]
        md.__dict__["train_test_split"] = split
        for c in range(cfg["m"]):
            E.assume(core.compare("!=", X.el[0, c], X.el[1, c]))
        M.fit(X.copy())
        md.__dict__["train_test_split"] = real
        if len(got) != 1:
            raise core.Unsupported("train_test_split called %d times" % len(got))
        train, valid = [list(r) for r in got[0][0].el], [list(r) for r in got[0][1].el]
    return M, train, valid, list(E.cfg.get("torch", [])), pen


def row_ids(core, rows, known):
    """index of each row among the known rows (None: not one of them)"""
    def same(a, b):
        return len(a) == len(b) and all(p is q or (core.is_sym(p) and core.is_sym(q) and core.poly_equal(p, q)) for p, q in zip(a, b))
    return [next((i for i, k in enumerate(known) if same(r, k)), None) for r in rows]


# ------------------------------------------------------------------ replay side
class FitRaised(Exception):
    pass


def real_fit(cfg, inp, path):
    """the real fit, instrumented from outside; (model, train rows, valid rows, events) as numpy"""
    import numpy as np, torch
    from . import rp
    md = rp.light("models")
    vae = rp.light("vae")
    ev = []
    T, V = cfg["T"], cfg["V"]
    X = np.clip(np.asarray(inp["X"], float), -3, 3)
    torch.manual_seed(11)
    M = md.NeuroCausalFactorAnalysis(path=path, verbose=bool(cfg.get("verbose")))
    pen = {k: min(2.0, float(abs(inp[k]))) for k in ("beta", "lambda", "mu")}
    if cfg.get("again"):
        M.hyperparams.update(batch_size=2, num_epochs=cfg["e"] + 1, beta=3.0, mu=0.5)
        try:
            M.fit(np.array(_earlier(T + V + 1, cfg["m"])), ([2, 0], [1]))
        except Exception as e:
            raise FitRaised("earlier fit: %s: %s" % (type(e).__name__, e))
    M.hyperparams.update(pen, batch_size=cfg["b"], num_epochs=cfg["e"])
    if cfg.get("lr"):
        pen["lr"] = M.hyperparams["lr"] = min(1.0, max(1e-6, float(inp["lr"])))
    cls = vae.VariationalAutoencoder
    old = (cls.forward, torch.Tensor.backward, md.train_test_split)
    opts = [(torch.optim.AdamW, "step")]

    def forward(self, x):
        snap = x.detach().clone().numpy()
        W = self.decoder.cov_linear_fulcon.weight.detach().clone().numpy()
        r = old[0](self, x)
        ev.append(("vae", dict(x=snap, training=self.training, no_grad=not torch.is_grad_enabled(), W=W, grad=r[0],
                               **{k: t.detach().clone().numpy() for k, t in zip(("rec", "lc", "mu", "lv"), r)})))
        return r

    def backward(self, *a, **k):
        deps = set()
        todo = [self.grad_fn]
        while todo:
            f = todo.pop()
            if f is None or f in deps:
                continue
            deps.add(f)
            todo += [g for g, _ in f.next_functions]
        used = [i for i, e in enumerate(ev) if e[0] == "vae" and e[1]["grad"].grad_fn in deps]
        ev.append(("backward", float(self.detach()), used))
        return old[1](self, *a, **k)
    from torch.optim.optimizer import register_optimizer_step_pre_hook
    h1 = register_optimizer_step_pre_hook(lambda o, a, k: ev.append(("step", o, [(p, float(g["lr"])) for g in o.param_groups for p in g["params"]])))
    oz = torch.optim.Optimizer.zero_grad

    def zero(self, *a, **k):
        ev.append(("zero_grad", None))
        return oz(self, *a, **k)
    torch.optim.Optimizer.zero_grad = zero
    oz2 = torch.nn.Module.zero_grad

    def zero2(self, *a, **k):
        ev.append(("zero_grad", None))
        return oz2(self, *a, **k)
    torch.nn.Module.zero_grad = zero2
    cls.forward, torch.Tensor.backward = forward, backward
    got = []

    def split(A, *a, **k):
        A = np.asarray(A)
        tr = [i for i in range(T + V) if i % 3 != 2][:T]
        va = [i for i in range(T + V) if i not in tr]
        got.append((A[tr], A[va]))
        return [A[tr], A[va]]
    md.train_test_split = split
    try:
        if cfg.get("split", "idx") == "idx":
            order = list(range(T + V))
            order = order[::2] + order[1::2]
            tr, va = order[:T], order[T:]
            M.fit(X.copy(), (tr, va) if cfg.get("lists", True) else (np.array(tr), np.array(va)))
            train, valid = X[tr], X[va]
        else:
            M.fit(X.copy())
            if len(got) != 1:
                raise rp.Mismatch("train_test_split called %d times" % len(got))
            train, valid = got[0]
    except Exception as e:
        if "finite" in str(e) or "singular" in str(e) or "converge" in str(e):
            raise rp.Mismatch("training diverged: %s" % e)
        raise FitRaised("%s: %s" % (type(e).__name__, e))
    finally:
        cls.forward, torch.Tensor.backward, md.train_test_split = old
        torch.optim.Optimizer.zero_grad = oz
        torch.nn.Module.zero_grad = oz2
        h1.remove()
    return M, np.asarray(train), np.asarray(valid), ev, pen


def np_loss(e, beta, lam=None, mu=None):
    import numpy as np
    x, rec, lc, m, lv = (e[k].astype(float) for k in ("x", "rec", "lc", "mu", "lv"))
    kl = .5 * (m ** 2 + np.exp(lv) - 1 - lv).sum()
    c = np.exp(lc).mean(0)
    d = ((x - rec) ** 2 / c).sum() + len(x) * c.prod()
    t = beta * kl + d / 2
    if lam is not None:
        W = e["W"].astype(float)
        t += lam * np.linalg.norm(W, "nuc") + mu * np.abs(W).sum()
    return t
