"""reduzieren keeps its bookkeeping true; reconstruct_cover undoes the deletions."""
import itertools
from . import graphs as G

BOUNDS = {"quick": "every graph with 2..5 vertices (edgeless excepted), budgets 0..3 and 10 (n=5: 1 and 10), 6 vertices with sorted degrees and budget 10; "
                   "4 free vertex pairs around each of 15 graphs with 7 to 9 vertices (budgets 4 and 10)",
          "thorough": "every graph with 2..6 vertices, budgets 0..4 and 10 (n=6: 2 and 10)"}
OUTSIDE = "more vertices; reduzieren after branching decisions (that composition is covered by C01/C02)"


def configs(tier):
    out = []
    for n in (2, 3, 4):
        for k in (0, 1, 2, 3, 10):
            out += G.gconfigs([n], {4: 1}, k=k)
    for k in (1, 10) if tier == "quick" else (0, 1, 2, 3, 10):
        out += G.gconfigs([5], {5: 4}, k=k)
    out += [dict(c, k=k) for c in G.hard(4 if tier == "quick" else 7, max_n=9) for k in (4, 10)]
    if tier == "quick":
        out += G.gconfigs([6], {6: 5}, k=10, sort=1)
    else:
        out += G.gconfigs([6], {6: 8}, k=10) + G.gconfigs([6], {6: 8}, k=2)
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, arr, OR, AND, IMPLIES
    n, k = cfg["n"], cfg["k"]

    def fn():
        g = ctx.world().load("medil.graph")
        A = ctx.graph("A", n, int)
        if cfg.get("sort"):
            degs = [core.count_true([core.truth(A.el[i, j]) for j in range(n) if j != i]) for i in range(n)]
            for a, b in zip(degs, degs[1:]):
                E.assume(core.compare(">=", a, b))
        E.assume(core.mkb(E.aig.ORN([core.truth(A.el[p]) for p in G.pairs(n)])))
        U = g.UndirectedDependenceGraph(A.copy())
        U.make_aux()
        R = U.reducible_copy()
        R.reduzieren(k)
        committed = None if R.the_cover is None else arr(R.the_cover).copy()
        rec = None
        if R.num_edges == 0:
            rec = R.reconstruct_cover(R.the_cover)
        return A, R, committed, rec

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        A, R, C, rec = p.value
        aig = E.aig
        e = G.edge_lits(A, n)
        P = G.pairs(n)
        M = arr(R.adj_matrix)
        c = [] if C is None else [[core.truth(x) for x in r] for r in C.el]
        dele = [0] * n
        if hasattr(R, "reduced_away"):
            ra = arr(R.reduced_away)
            dele = [aig.ORN([core.truth(x) for x in ra.el[i]]) for i in range(n)]
        obs = []
        left = {}
        for i, j in P:
            cov = aig.ORN([aig.AND(r[i], r[j]) for r in c])
            left[i, j] = aig.ANDN([e[i, j], cov ^ 1, dele[i] ^ 1, dele[j] ^ 1])
            for a, b in ((i, j), (j, i)):
                obs.append(Ob("remaining entry %d,%d" % (a, b), aig.XOR(core.truth(M.el[a, b]), left[i, j]) ^ 1))
            for r in c:
                obs.append(Ob("committed row is no clique", aig.OR(aig.AND(r[i], r[j]) ^ 1, e[i, j])))
        obs.append(Ob("budget", core.compare("==", R.k_num_cliques, k - len(c))))
        rem = {p: core.truth(M.el[p]) for p in P}
        obs.append(Ob("num_edges", core.compare("==", R.num_edges, core.count_true(list(rem.values())))))
        obs.append(Ob("num_vertices", core.compare("==", R.num_vertices, core.count_true([core.truth(M.el[i, i]) for i in range(n)]))))
        ext = arr(R.extant_edges_idx)
        for q in P:
            r = R.get_idx(q)
            t = core.count_true([core.blit(core.compare("==", x, r)) for x in ext.el.reshape(-1)])
            obs.append(Ob("extant index of %s" % (q,), core.compare("==", t, core.mk_union([(rem[q], 1), (rem[q] ^ 1, 0)]))))
        obs.append(Ob("number of extant indices", core.compare("==", ext.el.size, core.count_true(list(rem.values())))))
        if rec is not None:
            rc = arr(rec)
            if rc.el.ndim != 2 or rc.el.shape[1] != n:
                return obs + [Ob("reconstructed shape", False)]
            rr = [[core.truth(x) for x in r] for r in rc.el]
            for i, j in P:
                obs.append(Ob("reconstructed cover at %d,%d" % (i, j), aig.XOR(aig.ORN([aig.AND(r[i], r[j]) for r in rr]), e[i, j]) ^ 1))
        return obs
    return ctx.run(fn, prop, observe=lambda v: [v[1].adj_matrix, v[1].k_num_cliques])


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    g = rp.fresh("graph")
    A = inp["A"].astype(int)
    n, k = len(A), cfg["k"]
    P = G.pairs(n)
    U = g.UndirectedDependenceGraph(A.copy())
    v = rp.V()

    def run():
        U.make_aux()
        R = U.reducible_copy()
        R.reduzieren(k)
        C = None if R.the_cover is None else np.array(R.the_cover).copy()
        rec = R.reconstruct_cover(R.the_cover) if R.num_edges == 0 else None
        return R, C, rec
    try:
        R, C, rec = rp.limited(run)
    except Exception as e:
        return {"violations": ["raises: %r on %s k=%d" % (e, A.tolist(), k)]}
    M = np.asarray(R.adj_matrix)
    c = [] if C is None else C.astype(bool)
    dele = np.asarray(R.reduced_away).any(1) if hasattr(R, "reduced_away") else np.zeros(n, bool)
    for i, j in P:
        left = bool(A[i, j]) and not any(r[i] and r[j] for r in c) and not dele[i] and not dele[j]
        v.check(bool(M[i, j]) == left and bool(M[j, i]) == left, "remaining: edge %d,%d is %s, should be %s" % (i, j, bool(M[i, j]), left))
        for r in c:
            v.check(not (r[i] and r[j]) or A[i, j], "clique: committed row %s is no clique" % r.astype(int))
    v.check(int(R.k_num_cliques) == k - len(c), "budget: %s after %d cliques from %d" % (R.k_num_cliques, len(c), k))
    v.check(int(R.num_edges) == int(np.triu(M, 1).sum()), "num_edges: %s for %s" % (R.num_edges, M.tolist()))
    v.check(int(R.num_vertices) == int(np.trace(M)), "num_vertices: %s for %s" % (R.num_vertices, M.tolist()))
    v.check(sorted(int(x) for x in R.extant_edges_idx) == sorted(int(R.get_idx(p)) for p in P if M[p]), "extant_edges_idx: %s" % list(R.extant_edges_idx))
    if rec is not None:
        rec = np.asarray(rec).astype(bool)
        bad = [(i, j) for i, j in P if bool((rec[:, i] & rec[:, j]).any()) != bool(A[i, j])]
        v.check(not bad, "reconstruction: wrong at %s for %s" % (bad, A.tolist()))
    return {"violations": v, "output": [rp.enc(M), int(R.k_num_cliques)]}
