"""find_clique_min_cover: rows are exactly an edge clique cover; every vertex appears."""
import itertools
from . import graphs as G

BOUNDS = {"quick": "every graph with 1..5 vertices (int64; bool up to 4), every 6-vertex graph with sorted degrees (int64), every 7-vertex graph that extends an octahedron (or one minus/plus an edge) by any vertex"
                   "; 4 free vertex pairs in two places around each of 15 graphs with 7 to 9 vertices on which the search goes deep; unions of three cliques on 7 to 12 vertices with 5 free memberships",
          "thorough": "every graph with 1..6 vertices (int64, bool up to 5), 7-vertex graphs with sorted degrees and fixed first row as far as time allows"}
OUTSIDE = "more vertices; matrices with zero diagonal or asymmetric"


def configs(tier):
    out = [dict(n=n, dt=t) for n in (1, 2, 3) for t in ("int64", "bool")] + G.gconfigs([4], {4: 2}, dt="int64") + G.gconfigs([4], {4: 2}, dt="bool")
    out += G.gconfigs([5], {5: 5}, dt="int64")
    out += [dict(n=7, dt="int64", cube=c, fix=G.octahedra(free=[(0, 1)]), weight=2000) for c in ([0], [1])]
    # larger graphs: around graphs on which the search goes deep, and graphs that three cliques cover
    out += G.hard(4 if tier == "quick" else 8, rotations=2 if tier == "quick" else 4, max_n=9)
    out += [dict(n=n, dt=t, three=True, sparse=5 if tier == "quick" else 9, spseed=s, density=p, samples=1, weight=2 ** 5 * n * n / 30) for n, t, s, p in
            ((7, "int64", 1, .5), (8, "bool", 2, .4), (9, "int64", 3, .5), (10, "int64", 4, .35), (12, "int64", 5, .45))]
    if tier == "quick":
        out += G.gconfigs([6], {6: 5}, dt="int64", sort=1)
    else:
        out += G.gconfigs([5], {5: 5}, dt="bool") + G.gconfigs([6], {6: 8}, dt="int64")
    return out


def symbolic(cfg, ctx, want="valid"):
    from symex.harness import Ob, E, core, snp, arr, SArray, np, AND, OR, NOT
    n = cfg["n"]

    def fn():
        w = ctx.world()
        ecc = w.load("medil.ecc_algorithms")
        if cfg.get("three"):
            B = ctx.bools("B", (3, n))
            el = np.empty((n, n), object)
            for i, j in itertools.product(range(n), repeat=2):
                v = 1 if i == j else E.aig.ORN([E.aig.AND(core.blit(B.el[l, i]), core.blit(B.el[l, j])) for l in range(3)])
                el[i, j] = core.mkb(v)
            A = SArray(el, bool).astype(cfg["dt"])
            ctx.inputs["A"] = A.copy()
        else:
            A = ctx.graph("A", n, cfg["dt"])
        if cfg.get("sort"):
            degs = [core.count_true([core.truth(A.el[i, j]) for j in range(n) if j != i]) for i in range(n)]
            for a, b in zip(degs, degs[1:]):
                E.assume(core.compare(">=", a, b))
        ecc.find_clique_min_cover(snp.array([[1, 1, 0], [1, 1, 1], [0, 1, 1]]))
        return A.copy(), ecc.find_clique_min_cover(A)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        A, C = p.value
        C = arr(C)
        if C.el.ndim != 2 or C.el.shape[1] != n:
            return [Ob("shape", False)]
        e = G.edge_lits(A, n)
        c = [[core.truth(x) for x in row] for row in C.el]
        obs = []
        if want == "valid":
            obs.append(Ob("entries", AND(*[OR(core.compare("==", x, 0), core.compare("==", x, 1)) for x in C.el.reshape(-1)])))
            for i, j in G.pairs(n):
                share = E.aig.ORN([E.aig.AND(r[i], r[j]) for r in c])
                obs.append(Ob("pair %d,%d" % (i, j), E.aig.XOR(share, e[i, j]) ^ 1))
            for i in range(n):
                obs.append(Ob("vertex %d" % i, E.aig.ORN([r[i] for r in c])))
            return obs
        # number of rows with an edge is minimal: no cover with one clique less exists
        sizes = [core.count_true(r) for r in c]
        big = [core.blit(core.compare(">=", s, 2)) for s in sizes]
        k = core.count_true(big)
        iso = [E.aig.ANDN([e[i, j] ^ 1 for j in range(n) if j != i]) for i in range(n)]
        for i in range(n):
            rows = core.count_true([E.aig.AND(r[i], b ^ 1) for r, b in zip(c, big)])
            obs.append(Ob("singleton rows of vertex %d" % i, core.compare("==", rows, core.mk_union([(iso[i], 1), (iso[i] ^ 1, 0)]))))
        obs.append(Ob("empty row", AND(*[core.compare(">=", s, 1) for s in sizes])))
        m = int(core.conc(k)) if hasattr(core, "conc") else int(k)
        # an arbitrary family of m-1 vertex sets (solver chosen): must not be an edge clique cover
        if m > 0:
            x = [[E.aig.new_input("cover%d,%d" % (r, v)) for v in range(n)] for r in range(m - 1)]
            valid = E.aig.ANDN([E.aig.XOR(E.aig.ORN([E.aig.AND(r[i], r[j]) for r in x]), e[i, j]) ^ 1 for i, j in G.pairs(n)])
            obs.append(Ob("%d rows with an edge but %d cliques suffice" % (m, m - 1), valid ^ 1))
        # and the rows with an edge do cover (otherwise the count is below the minimum or meaningless)
        ok = E.aig.ANDN([E.aig.XOR(E.aig.ORN([E.aig.AND(r[i], r[j]) for r in c]), e[i, j]) ^ 1 for i, j in G.pairs(n)])
        obs.append(Ob("not a cover", ok))
        return obs
    return ctx.run(fn, prop, observe=lambda v: arr(v[1]) != 0)


def replay(cfg, inp, draws, want="valid"):
    import numpy as np
    from . import rp
    ecc = rp.fresh("ecc_algorithms")
    A = inp["A"].astype(cfg["dt"])
    n = len(A)
    rp.limited(ecc.find_clique_min_cover, np.array([[1, 1, 0], [1, 1, 1], [0, 1, 1]]))
    try:
        C = np.asarray(rp.limited(ecc.find_clique_min_cover, A.copy()))
    except Exception as e:
        return {"violations": ["raises: %r on %s" % (e, A.astype(int).tolist())]}
    v = rp.V()
    if want == "valid":
        v += G.np_cover_problems(A, C)
    elif v.check(C.ndim == 2 and C.shape[1] == n, "shape: %s" % (C.shape,)):
        Cb = C.astype(bool)
        big = int((Cb.sum(1) > 1).sum())
        v.check(big == G.min_cover_size(A.astype(int).tolist()), "minimum: %d rows with an edge, minimum is %d, graph %s" % (
            big, G.min_cover_size(A.astype(int).tolist()), A.astype(int).tolist()))
        for i in range(n):
            iso = not any(A[i, j] for j in range(n) if j != i)
            rows = int(((Cb.sum(1) <= 1) & Cb[:, i]).sum())
            v.check(rows == int(iso), "singleton: vertex %d has %d singleton rows, isolated=%s" % (i, rows, iso))
        v.check((Cb.sum(1) > 0).all() if len(Cb) else True, "empty: an empty row")
    return {"violations": v, "output": rp.enc(C != 0)}
