"""NCFA training: modes, one clean update per training batch per epoch, one record per epoch."""
import shutil, tempfile
from . import ncfa

BOUNDS = {"quick": "1..2 measurements, 1..4 training and 1..3 validation rows, batch sizes 1..4 (also larger than the data), 0..3 epochs, explicit and random splits, also when the object was fitted to other data before; "
                   "arbitrary data, penalty weights, network outputs and updates"
                   "; up to 12 training and 5 validation rows, 6 epochs, with 2 free data entries",
          "thorough": "up to 3 measurements, 6 training rows, 4 epochs"}
OUTSIDE = "larger data; the optimiser's update rule and the learning-rate schedule; shuffling loaders are modelled as in order"
ASSUMES = ["the reconstruction error of a batch is the spectral norm of its residual matrix (an uninterpreted function)"]


def configs(tier):
    q = tier == "quick"
    c = [(1, 1, 1, 1, 1), (1, 2, 1, 1, 2), (1, 3, 2, 2, 2), (2, 2, 2, 1, 1), (2, 3, 2, 2, 2), (1, 4, 3, 2, 1), (1, 4, 3, 3, 2), (2, 2, 1, 4, 2), (1, 2, 2, 2, 3), (1, 2, 2, 2, 0), (1, 1, 3, 2, 2)]
    if not q:
        c += [(3, 3, 2, 2, 2), (1, 6, 3, 4, 3), (2, 5, 4, 2, 4), (1, 6, 2, 1, 2)]
    out = [dict(m=m, T=T, V=V, b=b, e=e, lists=(T + V) % 2 == 0, weight=m * (T + V) * (e + 1), timeout_ms=8000 if q else 60000) for m, T, V, b, e in c]
    out += [dict(m=m, T=T, V=V, b=b, e=e, split="none", weight=m * (T + V) * (e + 1), timeout_ms=8000) for m, T, V, b, e in [(1, 2, 1, 1, 1), (1, 3, 2, 2, 2), (2, 2, 2, 2, 1)]]
    out += [dict(m=m, T=T, V=V, b=b, e=e, lists=True, again=True, weight=m * (T + V) * (e + 1), timeout_ms=8000) for m, T, V, b, e in [(1, 3, 2, 2, 2), (2, 2, 1, 1, 1), (1, 2, 1, 2, 0)]]
    out += [dict(m=1, T=3, V=2, b=2, e=1, split="none", again=True, weight=20, timeout_ms=8000)]
    out += [dict(m=m, T=T, V=V, b=b, e=e, lists=l, sparse=2, samples=1, weight=40, timeout_ms=8000 if q else 60000) for m, T, V, b, e, l in
            [(1, 9, 5, 4, 2, True), (1, 7, 3, 2, 6, False), (2, 12, 2, 5, 2, True)]]
    return out


def _walk(ev, same_rows, train_n, valid_n, b, epochs, check, is_backward_of):
    """shared trace analysis; check(ok, message).  Returns [(train losses events, valid events)] per epoch."""
    nb = -(-train_n // b)
    steps = [i for i, e in enumerate(ev) if e[0] == "step"]
    if not check(len(steps) == epochs * nb, "updates: %d optimiser steps for %d epochs of %d batches" % (len(steps), epochs, nb)):
        return None
    per = []
    prev = -1
    for k, s in enumerate(steps):
        if k % nb == 0:
            per.append(dict(train=[], valid=[], rows=[]))
        seg = list(range(prev + 1, s))
        back = [i for i in seg if ev[i][0] == "backward"]
        if not check(len(back) == 1, "updates: a step after %d loss computations" % len(back)):
            return None
        # gradients cleared between the previous update (or backward) and this backward
        zs = [i for i in range(s) if ev[i][0] == "zero_grad"]
        bs = [i for i in range(s) if ev[i][0] == "backward"]
        if len(bs) > 1:
            check(any(bs[-2] < z < bs[-1] for z in zs), "gradients: not cleared before the loss of step %d" % k)
        check(not any(bs[-1] < z < s for z in zs), "gradients: cleared before step %d could use them" % k)
        src = is_backward_of(ev, back[0])
        if not check(len(src) == 1, "loss: of step %d comes from %d network evaluations" % (k, len(src))):
            return None
        e = ev[src[0]][1]
        check(src[0] > prev, "loss: of step %d was computed before the previous update" % k)
        check(e["training"], "mode: the loss of step %d was computed in evaluation mode" % k)
        rows = same_rows(e["x"], "train")
        if not check(all(r is not None for r in rows), "batch: step %d uses rows that are not training rows" % k):
            return None
        per[-1]["rows"] += rows
        per[-1]["train"].append((back[0], src[0], len(rows)))
        prev = s
    bounds = [per_last[-1] for per_last in ([steps[i * nb:(i + 1) * nb] for i in range(epochs)])] + [len(ev)]
    for x, p in enumerate(per):
        check(sorted(p["rows"]) == list(range(train_n)), "epoch: %d uses training rows %s" % (x, sorted(p["rows"])))
        check(len(p["train"]) == nb and all(n <= b for _, _, n in p["train"]), "epoch: batch sizes %s" % [n for _, _, n in p["train"]])
        lo, hi = bounds[x], steps[(x + 1) * nb] if (x + 1) < epochs else len(ev)
        vs = []
        for i in range(lo, hi):
            if ev[i][0] == "vae":
                rows = same_rows(ev[i][1]["x"], "valid")
                if rows and all(r is not None for r in rows):
                    vs.append((i, rows))
        rows = sorted(r for _, rs in vs for r in rs)
        if not check(rows == list(range(valid_n)), "validation: of epoch %d uses validation rows %s" % (x, rows)):
            return None
        for i, _ in vs:
            check(not ev[i][1]["training"], "mode: validation in training mode")
        p["valid"] = [i for i, _ in vs]
    return per


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, close
    from .c26 import sc
    ar = core.arith

    def fn():
        return ncfa.fit(ctx, cfg)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        M, train, valid, ev, pen = p.value
        obs = []

        def check(ok, msg):
            obs.append(Ob(msg, bool(ok)))
            return ok

        def rows(x, which):
            return ncfa.row_ids(core, list(x.el), train if which == "train" else valid)
        import z3
        own = {}
        for i, e in enumerate(ev):
            if e[0] == "vae":
                for k in ("rec", "lc", "mu", "lv"):
                    for q in e[1][k].el.reshape(-1):
                        own[q.z.get_id()] = i
        from .moments import _vars

        def src(ev, i):
            return sorted({own[v.get_id()] for v in _vars(core.real_z3(sc(ev[i][1]))) if v.get_id() in own})
        per = _walk(ev, rows, len(train), len(valid), cfg["b"], cfg["e"], check, src)
        if per is None:
            return obs
        h = M.loss
        if not check(isinstance(h, dict) and set(h) >= {"elbo_train", "elbo_valid", "recon_train", "recon_valid"}, "history: keys"):
            return obs
        H = {k: arr(h[k]) for k in ("elbo_train", "elbo_valid", "recon_train", "recon_valid")}
        if not all([check(v.el.shape == (cfg["e"],), "history: %s has shape %s for %d epochs" % (k, v.el.shape, cfg["e"])) for k, v in H.items()]):
            return obs

        def mean(vs):
            t = 0
            for v in vs:
                t = ar("+", t, v)
            return ar("/", t, len(vs))

        def err(e):
            return snp.la_norm(e["x"] - e["rec"], 2)
        for x, q in enumerate(per):
            obs.append(close("elbo_train of epoch %d" % x, H["elbo_train"].el[x], mean([ar("/", sc(ev[b][1]), n) for b, _, n in q["train"]])))
            obs.append(close("recon_train of epoch %d" % x, H["recon_train"].el[x], mean([ar("/", err(ev[s][1]), n) for _, s, n in q["train"]])))
            obs.append(close("elbo_valid of epoch %d" % x, H["elbo_valid"].el[x],
                             mean([ar("/", ncfa.spec_loss(core, snp, ev[i][1], pen["beta"]), len(ev[i][1]["x"].el)) for i in q["valid"]])))
            obs.append(close("recon_valid of epoch %d" % x, H["recon_valid"].el[x], mean([ar("/", err(ev[i][1]), len(ev[i][1]["x"].el)) for i in q["valid"]])))
        vm = M.parameters.vae
        if per:
            check(vm is ev[per[-1]["train"][0][1]][1]["model"], "model: the model kept is not the one trained")
        W, K = arr(M.parameters.weights), arr(vm.decoder.cov_linear_fulcon.weight.a).T
        if check(W.el.shape == K.el.shape, "weights: shape"):
            obs += [close("weights kept%s" % (i,), W.el[i], K.el[i]) for i in np.ndindex(*K.el.shape)]
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    v = rp.V()
    d = tempfile.mkdtemp()
    try:
        M, train, valid, ev, pen = ncfa.real_fit(cfg, inp, d + "/")
    except ncfa.FitRaised as e:
        return {"violations": ["raises: %s" % e]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    tr, va = train.astype(np.float32), valid.astype(np.float32)
    allr = np.concatenate([tr, va])
    if len(np.unique(allr, axis=0)) < len(allr):
        raise rp.Mismatch("rows coincide")

    def rows(x, which):
        k = tr if which == "train" else va
        return [next((i for i, q in enumerate(k) if np.array_equal(q, r)), None) for r in x]
    per = _walk(ev, rows, len(tr), len(va), cfg["b"], cfg["e"], v.check, lambda ev, i: ev[i][2])
    if per is None:
        return v
    h = M.loss
    keys = ("elbo_train", "elbo_valid", "recon_train", "recon_valid")
    if not v.check(isinstance(h, dict) and set(h) >= set(keys), "history: keys"):
        return v
    for k in keys:
        if not v.check(np.shape(h[k]) == (cfg["e"],), "history: %s has shape %s for %d epochs" % (k, np.shape(h[k]), cfg["e"])):
            return v

    def same(nm, x, a, b):
        v.check(abs(a - b) <= 2e-3 * max(1, abs(a), abs(b)) or not np.isfinite(b), "%s: epoch %d: %s, expected %s" % (nm, x, a, b))
    err = lambda e: np.linalg.norm(e["x"].astype(float) - e["rec"], 2)
    for x, q in enumerate(per):
        same("elbo_train", x, h["elbo_train"][x], np.mean([ev[b][1] / n for b, _, n in q["train"]]))
        same("recon_train", x, h["recon_train"][x], np.mean([err(ev[s][1]) / n for _, s, n in q["train"]]))
        same("elbo_valid", x, h["elbo_valid"][x], np.mean([ncfa.np_loss(ev[i][1], pen["beta"]) / len(ev[i][1]["x"]) for i in q["valid"]]))
        same("recon_valid", x, h["recon_valid"][x], np.mean([err(ev[i][1]) / len(ev[i][1]["x"]) for i in q["valid"]]))
    W = M.parameters.vae.decoder.cov_linear_fulcon.weight.detach().numpy().T
    v.check(np.array_equal(W, M.parameters.weights), "weights: not those of the model kept")
    return v
