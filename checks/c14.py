"""biadj(one_pure_child=True): shape, pure children, parents - for every value the generator draws."""
from .biadjs import configs_pure, run_pure, replay_pure

BOUNDS = {"quick": "num_meas <= 6 with every num_latent and densities 0, 1/8, 0.3, 0.5, 0.77, 1 and any real in [0,1]; num_latent unspecified with "
                   "num_meas <= 6; density None; every outcome of every draw"
                   "; up to 40 measurements with all (12, 16) or 3..4 exchangeable items per draw symbolic",
          "thorough": "num_meas <= 8"}
OUTSIDE = "larger matrices; num_latent > num_meas; the distribution over the outcomes"


def configs(tier):
    return configs_pure(tier, 6 if tier == "quick" else 8) + [dict(n=n, k=k, d=d, free=f, samples=1, weight=500) for n, k, d, f in
                                                              ((12, 6, .4, 0), (16, 3, .77, 0), (14, 12, .3, 4), (30, 5, .2, 4), (40, 7, .5, 3), (25, 1, .5, 4), (11, 11, .3, 4))]


def symbolic(cfg, ctx):
    return run_pure(cfg, ctx, "shape")


def replay(cfg, inp, draws):
    return replay_pure(cfg, inp, draws, "shape")
