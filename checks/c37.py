"""NCFA training: every step updates every parameter of the network, at the configured (and scheduled) learning rate."""
import shutil, tempfile
from . import ncfa

BOUNDS = {"quick": "1..2 measurements, 1..4 training rows, batch sizes 1..3; 1..3 epochs, and 52, 101 and 160 epochs; arbitrary learning rate, data, penalty weights, network outputs and "
                   "updates; also after an earlier fit",
          "thorough": "the same with up to 210 epochs"}
OUTSIDE = "the optimiser's update rule (moments, weight decay) given gradient and rate; larger data; more epochs"
ASSUMES = ["schedulers and optimisers mean what torch documents"]


def configs(tier):
    c = [(1, 2, 1, 1, 2), (2, 3, 1, 2, 1), (1, 4, 2, 3, 3), (1, 2, 1, 1, 52), (1, 1, 1, 1, 101), (1, 1, 1, 2, 160)] + ([] if tier == "quick" else [(1, 3, 1, 2, 101), (1, 1, 1, 1, 210), (3, 3, 2, 2, 3)])
    out = [dict(m=m, T=T, V=V, b=b, e=e, lists=True, lr=1, weight=m * T * e, samples=1 if e > 9 else 2, timeout_ms=8000, **(dict(sparse=1) if e > 9 else {})) for m, T, V, b, e in c]
    return out + [dict(m=1, T=2, V=1, b=2, e=1, lists=True, lr=1, again=True, weight=4, timeout_ms=8000)]


def symbolic(cfg, ctx):
    from symex import tshim
    from symex.harness import Ob, E, core, arr, snp, np, close
    nb = -(-cfg["T"] // cfg["b"])

    def fn():
        return ncfa.fit(ctx, cfg)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        M, train, valid, ev, pen = p.value
        steps = [e for e in ev if e[0] == "step"]
        obs = [Ob("updates: %d" % len(steps), len(steps) == nb * cfg["e"])]
        mine = [q for q in M.parameters.vae.parameters() if getattr(q, "requires_grad", True)]
        for k, e in enumerate(steps):
            ids = [id(q) for q, _ in e[2]]
            obs.append(Ob("parameters: step %d does not update every parameter of the network once" % k, all(ids.count(id(q)) == 1 for q in mine)))
            want = core.arith("*", pen["lr"], core.to_frac(0.9) ** (k // nb // 50))
            for r in {id(r): r for _, r in e[2]}.values():
                if r is tshim.UNKNOWN_RATE:
                    raise core.Unsupported("learning-rate schedule not modelled")
                obs.append(close("rate of step %d" % k, r, want))
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    from . import rp
    v = rp.V()
    nb = -(-cfg["T"] // cfg["b"])
    d = tempfile.mkdtemp()
    try:
        M, train, valid, ev, pen = ncfa.real_fit(cfg, dict(inp, lr=min(float(inp["lr"]), .01) if cfg["e"] > 9 else inp["lr"]), d + "/")
    except ncfa.FitRaised as e:
        return {"violations": ["raises: %s" % e]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    steps = [e for e in ev if e[0] == "step"]
    v.check(len(steps) == nb * cfg["e"], "updates: %d steps" % len(steps))
    mine = [q for q in M.parameters.vae.parameters() if q.requires_grad]
    for k, e in enumerate(steps):
        ids = [id(q) for q, _ in e[2]]
        if not v.check(all(ids.count(id(q)) == 1 for q in mine), "parameters: step %d does not update every parameter of the network once" % k):
            break
        want = pen["lr"] * 0.9 ** (k // nb // 50)
        if not v.check(all(abs(r - want) <= 1e-9 + 1e-6 * want for _, r in e[2]), "rate: of step %d is %s, expected %s" % (k, sorted({r for _, r in e[2]}), want)):
            break
    return v
