"""find_clique_min_cover uses the minimum number of cliques (n <= 6, or at most 3 cliques needed)."""
from . import c01

BOUNDS = {"quick": "every graph with 1..5 vertices (int64; bool up to 4), every 6-vertex graph with sorted degrees (int64)"
                   "; unions of three cliques on 7 to 12 vertices with 5 free memberships",
          "thorough": "every graph with 1..6 vertices (int64, bool up to 5)"}

OUTSIDE = "more than 6 vertices when more than 3 cliques are needed: there the search deliberately gives up minimality after its iteration limit"


def configs(tier):
    return [c for c in c01.configs(tier) if c["n"] <= 6 or c.get("three")]


def symbolic(cfg, ctx):
    return c01.symbolic(cfg, ctx, want="min")


def replay(cfg, inp, draws):
    return c01.replay(cfg, inp, draws, want="min")
