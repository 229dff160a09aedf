"""max_cliques yields exactly the maximal cliques, each once, whatever the diagonal."""
import itertools
from . import graphs as G

BOUNDS = {"quick": "every graph with 0..6 vertices; diagonal all zero or all one (n=6: all one), or arbitrary (n<=4); bool and int matrices"
                   "; 7 to 12 vertices with 5 free pairs, the other pairs fixed pseudo-randomly",
          "thorough": "every graph with 0..6 vertices; arbitrary diagonal for n<=5"}
OUTSIDE = "more vertices; asymmetric matrices"


def configs(tier):
    out = [dict(n=n, diag=d, dt=t) for n in range(0, 4) for d in ("sym", 0, 1) for t in ("int64", "bool")]
    for t in ("int64", "bool"):
        out += G.gconfigs([4], {4: 1}, diag="sym", dt=t)
    out += G.gconfigs([5], {5: 3}, diag=0, dt="int64") + G.gconfigs([5], {5: 3}, diag=1, dt="bool")
    out += G.gconfigs([6], {6: 6}, diag=1, dt="int64")
    big = 5 if tier == "quick" else 9
    out += [dict(n=n, diag=d, dt=t, sparse=big, spseed=s, density=p, samples=1, weight=2 ** big * n / 12) for n, d, t, s, p in (
        (7, 1, "int64", 1, .5), (8, 0, "bool", 2, .7), (9, 1, "int64", 3, .8), (10, 0, "int64", 4, .5), (12, 1, "bool", 5, .3))]
    if tier == "thorough":
        out += G.gconfigs([5], {5: 4}, diag="sym", dt="int64")
        out += G.gconfigs([6], {6: 6}, diag=0, dt="bool")
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, SArray, np
    n = cfg["n"]

    def fn():
        w = ctx.world()
        ecc = w.load("medil.ecc_algorithms")
        A = ctx.graph("A", n, cfg["dt"], diag=0 if cfg["diag"] == "sym" else cfg["diag"])
        if cfg["diag"] == "sym":
            for i in range(n):
                A.el[i, i] = E.new_bool("d%d" % i)
            ctx.inputs["A"] = A.copy()
        list(ecc.max_cliques(snp.array([[1, 1, 0], [1, 1, 1], [0, 1, 1]])))
        B = A.copy()
        kept = list(ecc.max_cliques(A))       # a caller may keep what was yielded while the generator goes on
        return B, [list(c) for c in kept]

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        A, out = p.value
        e = G.edge_lits(A, n)
        sets = [tuple(sorted(int(x) for x in c)) for c in out]
        obs = [Ob("repeated vertex", all(len(set(c)) == len(c) for c in sets)), Ob("clique yielded twice", len(set(sets)) == len(sets)),
               Ob("vertex range", all(0 <= x < n for c in sets for x in c))]
        got = set(sets)
        for r in range(1, n + 1):
            for S in itertools.combinations(range(n), r):
                l = G.clique_lit(e, S)
                for x in range(n):
                    if x not in S:
                        l = E.aig.AND(l, E.aig.ANDN([e[min(x, y), max(x, y)] for y in S]) ^ 1)
                obs.append(Ob("missing maximal clique" if S not in got else "yielded set is no maximal clique", l if S in got else l ^ 1))
        if n == 0:
            obs.append(Ob("empty matrix yields something", not sets))
        if () in got:
            obs.append(Ob("empty clique", False))
        return obs
    return ctx.run(fn, prop, observe=lambda v: sorted(sorted(int(x) for x in c) for c in v[1]))


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    ecc = rp.fresh("ecc_algorithms")
    A = inp["A"].astype(cfg["dt"])
    n = len(A)
    list(ecc.max_cliques(np.array([[1, 1, 0], [1, 1, 1], [0, 1, 1]])))
    exp = []
    for r in range(1, n + 1):
        for S in itertools.combinations(range(n), r):
            if all(A[i, j] for i, j in itertools.combinations(S, 2)) and not any(
                    all(A[x, y] for y in S) for x in range(n) if x not in S):
                exp.append(list(S))
    try:
        got = []
        for c in ecc.max_cliques(A.copy()):
            got.append(c)
            if len(got) > 2000:
                return {"violations": ["endless: more than 2000 cliques yielded"]}
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    s = sorted(sorted(int(x) for x in c) for c in got)
    v = rp.V()
    v.check(s == sorted(exp), "cliques: yielded %s, maximal cliques are %s" % (s, sorted(exp)))
    return {"violations": v, "output": s}
