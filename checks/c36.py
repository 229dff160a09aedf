"""NCFA objects are independent of each other: hyperparameters, data, histories, weights and files are their own."""
import os, shutil, tempfile
from . import ncfa

BOUNDS = {"quick": "two objects created, configured and fitted in 9 interleavings (also refitted, or created after the other was fitted); 1..2 measurements, 2..3 training and 1..2 "
                   "validation rows, batch sizes 1..3, 1..2 epochs; arbitrary data, penalty weights, network outputs and updates; loss values for one measurement",
          "thorough": "more rows, epochs and measurements"}
OUTSIDE = "more than two objects; concurrent threads; larger data; objects sharing a directory; the random state of torch, which all networks share"
ASSUMES = ["the reconstruction error of a batch is the spectral norm of its residual matrix (an uninterpreted function)"]
ORDERS = ["n0 n1 h0 h1 f0 f1", "n0 h0 n1 h1 f1 f0", "n0 h0 f0 n1 h1 f1", "n1 n0 h1 h0 f1 f0 f1", "n0 h0 n1 h1 f0 f1 f0", "n1 h1 f1 n0 h0 f0", "n0 n1 h1 f1 h0 f0", "n0 h0 f0 n1 n0 h1 h0 f0 f1", "n1 h1 n0 f1 h0 f0 f1"]


def configs(tier):
    out = []
    for k, o in enumerate(ORDERS):
        objs = [dict(m=1 + k % 2, T=3, V=1 + k % 2, b=2, e=1 + k % 2), dict(m=1 + (k + 1) // 2 % 2, T=2, V=1, b=3 - k % 3, e=2 - k % 2)]
        out.append(dict(order=o, objs=objs, weight=20, timeout_ms=8000))
        if tier != "quick":
            out.append(dict(order=o, objs=[dict(m=3, T=5, V=2, b=2, e=2), dict(m=2, T=3, V=3, b=3, e=3)], weight=90, timeout_ms=60000))
    return out


def _split(o):
    n = o["T"] + o["V"]
    idx = list(range(n))
    idx = idx[::2] + idx[1::2]
    return idx[:o["T"]], idx[o["T"]:]


def _analyse(cfg, recs, check, rows_of, loss_of, err_of, same):
    """recs: per fit dict(i, ev, loss (copied after the fit), late (the same, at the end; None if refitted), ...)"""
    for f, r in enumerate(recs):
        i, o = r["i"], cfg["objs"][r["i"]]
        tr, va = _split(o)
        nm = "fit %d (object %d): " % (f, i)

        def batches(idx):
            return [idx[s:s + o["b"]] for s in range(0, len(idx), o["b"])]
        want = [("t", q) for q in batches(tr)] + [("v", q) for q in batches(va)]
        want = want * o["e"]
        got = [("t" if e["training"] else "v", rows_of(i, e["x"])) for e in r["ev"]]
        if not check(got == want, nm + "network evaluated on %s" % got):
            continue
        per = len(want) // o["e"]
        keys = ("elbo_train", "elbo_valid", "recon_train", "recon_valid")
        if not check(isinstance(r["loss"], dict) and set(r["loss"]) >= set(keys), nm + "histories"):
            continue
        if not all([check(tuple(r["loss"][k].shape) == (o["e"],), nm + "%s has shape %s" % (k, tuple(r["loss"][k].shape))) for k in keys]):
            continue
        for x in range(o["e"]):
            seg = r["ev"][x * per:(x + 1) * per]
            if o["m"] == 1:                 # with more measurements the loss is C26's and C27's subject
                same(nm + "elbo_train of epoch %d" % x, r["loss"]["elbo_train"], x, [loss_of(i, e, True) for e in seg if e["training"]])
                same(nm + "elbo_valid of epoch %d" % x, r["loss"]["elbo_valid"], x, [loss_of(i, e, False) for e in seg if not e["training"]])
            same(nm + "recon_train of epoch %d" % x, r["loss"]["recon_train"], x, [err_of(e) for e in seg if e["training"]])
            same(nm + "recon_valid of epoch %d" % x, r["loss"]["recon_valid"], x, [err_of(e) for e in seg if not e["training"]])


HP = ("beta", "lambda", "mu")
DIRS = ("one/", "two/")


def _settings(cfg, i, pen):
    """what the caller sets: everything for object 0, the sizes only for object 1"""
    o = cfg["objs"][i]
    d = dict(batch_size=o["b"], num_epochs=o["e"])
    return dict(d, **pen) if i == 0 else d


def symbolic(cfg, ctx):
    from symex import fsshim
    from symex.harness import Ob, E, core, arr, snp, np, close, same_array
    from .c26 import sc
    ar = core.arith

    def fn():
        X = [ctx.reals("X%d" % i, (o["T"] + o["V"], o["m"])) for i, o in enumerate(cfg["objs"])]
        pen = {k: ctx.real(k, 0) for k in HP}
        w0 = ctx.world()
        plain = dict(w0.load("medil.models").NeuroCausalFactorAnalysis(path="three/").hyperparams)
        w = ctx.world()
        md = w.load("medil.models")
        ncfa.stub(w, md)
        M, recs, used, opened = [None, None], [], [], []
        for op in cfg["order"].split():
            i = int(op[1])
            n0 = len(fsshim.files())
            if op[0] == "n":
                M[i] = md.NeuroCausalFactorAnalysis(path=DIRS[i], seed=i)
                for r in recs:
                    if r["i"] == i:
                        r["gone"] = True
            elif op[0] == "h":
                M[i].hyperparams.update(_settings(cfg, i, pen))
            else:
                tr, va = _split(cfg["objs"][i])
                t0 = len(E.cfg.get("torch", []))
                M[i].fit(X[i].copy(), (tr, va))
                ev = [e[1] for e in E.cfg.get("torch", [])[t0:] if e[0] == "vae"]
                for r in recs:
                    if r["i"] == i:
                        r["gone"] = True
                recs.append(dict(i=i, ev=ev, M=M[i], loss={k: arr(v).copy() for k, v in M[i].loss.items()}, W=arr(M[i].parameters.weights).copy(), vae=M[i].parameters.vae))
            opened += [(i, e[1]) for e in fsshim.files()[n0:]]
        return M, recs, opened, plain, pen, X

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        M, recs, opened, plain, pen, X = p.value
        obs = []

        def check(ok, msg):
            obs.append(Ob(msg, bool(ok)))
            return ok

        def rows_of(i, x):
            return ncfa.row_ids(core, list(x.el), [list(r) for r in X[i].el])

        def hp(i, k):
            return pen[k] if i == 0 else plain[k]

        def loss_of(i, e, pens):
            return ar("/", ncfa.spec_loss(core, snp, e, hp(i, "beta"), *((hp(i, "lambda"), hp(i, "mu")) if pens else ())), e["x"].el.shape[0])

        def err_of(e):
            return ar("/", snp.la_norm(e["x"] - e["rec"], 2), e["x"].el.shape[0])

        def same(nm, h, x, vs):
            t = 0
            for v in vs:
                t = ar("+", t, v)
            obs.append(close(nm, h.el[x], ar("/", t, len(vs))))
        _analyse(cfg, recs, check, rows_of, loss_of, err_of, same)
        for r in recs:
            if r.get("gone"):
                continue
            nm = "object %d at the end: " % r["i"]
            for k, v in r["loss"].items():
                obs += same_array(nm + k, arr(r["M"].loss[k]), v)
            obs += same_array(nm + "weights", arr(r["M"].parameters.weights), r["W"])
            check(r["M"].parameters.vae is r["vae"], nm + "network")
        for i in (0, 1):
            h = M[i].hyperparams
            want = dict(plain, **_settings(cfg, i, pen))
            check(set(h) == set(want), "object %d: hyperparameters %s" % (i, sorted(h)))
            for k, v in want.items():
                if k not in h:
                    continue
                if core.is_sym(v) or core.is_sym(h[k]):
                    obs.append(close("object %d: %s" % (i, k), h[k], v))
                else:
                    check(h[k] == v, "object %d: %s is %r" % (i, k, h[k]))
            check(getattr(M[i], "seed", i) == i, "object %d: seed" % i)
        for i, q in opened:
            check(not isinstance(q, str) or not os.path.normpath(q).startswith(DIRS[1 - i][:-1]), "files: object %d touches %s" % (i, q))
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import builtins
    import numpy as np, torch
    from . import rp
    v = rp.V()
    rp.fresh("models")
    md, vae = rp.light("models"), rp.light("vae")
    X = [np.clip(np.asarray(inp["X%d" % i], float), -3, 3) for i in (0, 1)]
    for i in (0, 1):
        if len(np.unique(X[i].astype(np.float32), axis=0)) < len(X[i]) or (X[0].shape[1] == X[1].shape[1] and i and any((r == X[0]).all(1).any() for r in X[1])):
            X[i] = np.random.default_rng(i + 1).normal(size=X[i].shape)
    pen = {k: min(2.0, float(abs(inp[k]))) for k in HP}
    torch.manual_seed(11)
    ev, opened = [], []
    cls = vae.VariationalAutoencoder
    old = cls.forward
    cwd, top, oopen, osave = os.getcwd(), tempfile.mkdtemp(), builtins.open, torch.save

    def forward(self, x):
        snap = x.detach().clone().numpy()
        W = self.decoder.cov_linear_fulcon.weight.detach().clone().numpy()
        r = old(self, x)
        ev.append(dict(x=snap, training=self.training, W=W, **{k: t.detach().clone().numpy() for k, t in zip(("rec", "lc", "mu", "lv"), r)}))
        return r

    def fopen(p, mode="r", *a, **k):
        if isinstance(p, (str, os.PathLike)) and any(c in mode for c in "wax+"):
            opened.append(os.path.realpath(p))
        return oopen(p, mode, *a, **k)

    def fsave(o, p, *a, **k):
        if isinstance(p, (str, os.PathLike)):
            opened.append(os.path.realpath(p))
        return osave(o, p, *a, **k)
    M, recs, touched = [None, None], [], []
    cls.forward, builtins.open, torch.save = forward, fopen, fsave
    try:
        os.chdir(top)
        try:
            for op in cfg["order"].split():
                i = int(op[1])
                opened.clear()
                if op[0] == "n":
                    M[i] = md.NeuroCausalFactorAnalysis(path=DIRS[i], seed=i)
                    for r in recs:
                        r["gone"] = r.get("gone") or r["i"] == i
                elif op[0] == "h":
                    M[i].hyperparams.update(_settings(cfg, i, pen))
                else:
                    ev.clear()
                    M[i].fit(X[i].copy(), _split(cfg["objs"][i]))
                    for r in recs:
                        r["gone"] = r.get("gone") or r["i"] == i
                    recs.append(dict(i=i, ev=list(ev), M=M[i], loss={k: np.array(q) for k, q in M[i].loss.items()}, W=np.array(M[i].parameters.weights), vae=M[i].parameters.vae))
                touched += [(i, q) for q in opened]
        except Exception as e:
            if "finite" in str(e) or "singular" in str(e) or "converge" in str(e):
                raise rp.Mismatch("training diverged: %s" % e)
            v.append("raises: %s: %s" % (type(e).__name__, e))
            return v
        finally:
            cls.forward, builtins.open, torch.save = old, oopen, osave
            os.chdir(cwd)
        # the defaults, from a module of its own
        rp.fresh("models")
        os.chdir(top)
        plain = dict(rp.light("models").NeuroCausalFactorAnalysis(path="three/").hyperparams)
    finally:
        cls.forward, builtins.open, torch.save = old, oopen, osave
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)

    def rows_of(i, x):
        k = X[i].astype(np.float32)
        return [next((a for a, q in enumerate(k) if np.array_equal(q, r)), None) for r in x]

    def hp(i, k):
        return pen[k] if i == 0 else plain[k]

    def loss_of(i, e, pens):
        return ncfa.np_loss(e, hp(i, "beta"), *((hp(i, "lambda"), hp(i, "mu")) if pens else ())) / len(e["x"])

    def err_of(e):
        return np.linalg.norm(e["x"].astype(float) - e["rec"], 2) / len(e["x"])

    def same(nm, h, x, vs):
        a, b = float(h[x]), float(np.mean(vs))
        v.check(abs(a - b) <= 2e-3 * max(1, abs(a), abs(b)) or not np.isfinite(b), "%s: %s, expected %s" % (nm, a, b))
    _analyse(cfg, recs, v.check, rows_of, loss_of, err_of, same)
    for r in recs:
        if r.get("gone"):
            continue
        nm = "object %d at the end: " % r["i"]
        for k, q in r["loss"].items():
            v.check(np.array_equal(np.asarray(r["M"].loss[k]), q, equal_nan=True), nm + k)
        v.check(np.array_equal(r["M"].parameters.weights, r["W"]) and r["M"].parameters.vae is r["vae"], nm + "weights")
    for i in (0, 1):
        h, want = M[i].hyperparams, dict(plain, **_settings(cfg, i, pen))
        v.check(h == want, "object %d: hyperparameters %s, expected %s" % (i, h, want))
        v.check(getattr(M[i], "seed", i) == i, "object %d: seed" % i)
    for i, q in touched:
        v.check(not q.startswith(os.path.realpath(top) + "/" + DIRS[1 - i]), "files: object %d writes %s" % (i, q))
    return v
