"""biadj(one_pure_child=True): exact number of links."""
from .biadjs import configs_pure, run_pure, replay_pure

BOUNDS = {"quick": "num_meas <= 5 (6 for 2 and 5 latents) with every num_latent and densities 0, 1/8, 0.3, 0.5, 0.77, 1 and any real in [0,1]; num_latent unspecified with "
                   "num_meas <= 5; density None; every outcome of every draw"
                   "; up to 30 measurements with 3..4 exchangeable items of the first draws symbolic",
          "thorough": "num_meas <= 6, 7 for given num_latent and density"}
OUTSIDE = "larger matrices; num_latent > num_meas"


def configs(tier):
    big = [dict(n=n, k=k, d=d, free=f, samples=1, weight=900) for n, k, d, f in ((8, 4, .5, 4), (9, 8, .77, 0), (14, 6, .77, 3), (12, 5, .3, 3), (20, 3, .45, 2), (30, 2, .2, 3))]
    if tier == "quick":
        return big + configs_pure(tier, 5) + [c for c in configs_pure(tier, 6) if c["n"] == 6 and c["k"] in (2, 5)]
    return big + configs_pure(tier, 6) + [dict(c, timeout_ms=600000) for c in configs_pure(tier, 7) if c["n"] == 7 and c["k"] and c["d"] not in ("sym", "none")]


def symbolic(cfg, ctx):
    return run_pure(cfg, ctx, "count")


def replay(cfg, inp, draws):
    return replay_pure(cfg, inp, draws, "count")
