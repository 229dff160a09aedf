"""Auxiliary structure of UndirectedDependenceGraph, and add_edges/rm_edges."""
import itertools
from . import graphs as G

BOUNDS = {"quick": "make_aux: every graph with 2..5 vertices (edgeless ones excepted, there make_aux raises ValueError); edits: 3 or 4 vertices, any "
                   "graph, one add_edges and one rm_edges in either order, up to 2 arbitrary ordered pairs each"
                   "; 6 to 12 vertices with 5 free pairs (edits: 6 and 7 vertices with 3), the others fixed pseudo-randomly",
          "thorough": "make_aux: up to 6 vertices; edits: up to 5 vertices, three calls of up to 2 pairs"}
OUTSIDE = "larger graphs; self-loops in edge lists; longer edit histories"


def configs(tier):
    out = [dict(kind="aux", n=n, dt=t) for n in (2, 3) for t in ("int64", "bool")] + G.gconfigs([4], {4: 1}, kind="aux", dt="int64") + \
        G.gconfigs([4], {4: 1}, kind="aux", dt="bool") + G.gconfigs([5], {5: 5}, kind="aux", dt="int64")
    seqs = [("add", "rm"), ("rm", "add")]
    for n in (3, 4):
        for s in seqs:
            for m in (1, 2):
                out.append(dict(kind="edit", n=n, ops=list(s), m=m, weight=40, dt="int64"))
    out.append(dict(kind="edit", n=3, ops=["add"], m=2, dt="bool"))
    big = 5 if tier == "quick" else 9
    out += [dict(kind="aux", n=n, dt=t, sparse=big, spseed=s, density=p, samples=1, weight=2 ** big * n / 30) for n, t, s, p in (
        (6, "int64", 1, .6), (7, "bool", 2, .5), (8, "int64", 3, .8), (10, "int64", 4, .5), (12, "bool", 5, .3))]
    out += [dict(kind="edit", n=n, ops=list(s), m=1, weight=60, dt="int64", sparse=3, spseed=n, samples=1) for n, s in ((6, seqs[0]), (7, seqs[1]))]
    if tier == "thorough":
        out += G.gconfigs([6], {6: 8}, kind="aux", dt="int64") + G.gconfigs([5], {5: 4}, kind="aux", dt="bool")
        for s in (("add", "rm", "add"), ("rm", "add", "rm")):
            out += [dict(kind="edit", n=n, ops=list(s), m=m, weight=400, dt="int64") for n, m in ((3, 2), (4, 2), (5, 1))]
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, arr, SArray, np, IFF
    from symex import rng
    n = cfg["n"]

    def graph():
        return ctx.graph("A", n, cfg["dt"])

    def aux():
        g = ctx.world().load("medil.graph")
        A = graph()
        g.UndirectedDependenceGraph(snp.array([[1, 1, 0], [1, 1, 1], [0, 1, 1]])).make_aux()
        U = g.UndirectedDependenceGraph(A.copy())
        try:
            U.make_aux()
        except ValueError:
            # documented way of reporting a graph without edges
            return A, None
        return A, U

    def aux_prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        A, U = p.value
        e = G.edge_lits(A, n)
        aig = E.aig
        if U is None:
            return [Ob("make_aux raises ValueError on a graph with edges", aig.ANDN([e[i, j] ^ 1 for i, j in G.pairs(n)]))]
        obs = []
        cn, cnt = arr(U.common_neighbors), arr(U.nbrhood_edge_counts)
        P = G.pairs(n)
        if cn.el.shape != (len(P), n) or cnt.el.shape != (len(P),):
            return [Ob("shape", False)]
        ext = arr(U.extant_edges_idx)
        idx = {}
        for i, j in P:
            r = U.get_idx((i, j))
            idx[i, j] = r = int(r)
            back = U.get_edge(r)
            obs.append(Ob("get_edge(get_idx) of %d,%d" % (i, j), int(back[0]) == i and int(back[1]) == j and 0 <= r < len(P)))
        if len(set(idx.values())) != len(P):
            obs.append(Ob("get_idx not injective", False))
        for i, j in P:
            r = idx[i, j]
            com = [aig.ANDN([e[i, j], e[i, x] if x != i else 1, e[j, x] if x != j else 1]) for x in range(n)]
            for x in range(n):
                obs.append(Ob("common neighbour %d of %d,%d" % (x, i, j), core.compare("==", cn.el[r, x], core.mk_union([(com[x], 1), (com[x] ^ 1, 0)]))))
            inside = core.count_true([aig.ANDN([e[a, b], com[a], com[b]]) for a, b in P])
            obs.append(Ob("edge count of %d,%d" % (i, j), core.compare("==", cnt.el[r], inside)))
            times = core.count_true([core.blit(core.compare("==", x, r)) for x in ext.el.reshape(-1)])
            obs.append(Ob("extant index of %d,%d" % (i, j), core.compare("==", times, core.mk_union([(e[i, j], 1), (e[i, j] ^ 1, 0)]))))
        obs.append(Ob("number of extant indices", core.compare("==", ext.el.size, core.count_true([e[p] for p in P]))))
        obs.append(Ob("num_edges", core.compare("==", U.num_edges, core.count_true([e[p] for p in P]))))
        obs.append(Ob("num_vertices", core.compare("==", U.num_vertices, n)))
        m = arr(U.adj_matrix)
        for i in range(n):
            for j in range(n):
                obs.append(Ob("matrix changed", IFF(core.mkb(core.truth(m.el[i, j])), core.mkb(core.truth(A.el[i, j])))))
        return obs

    def edit():
        g = ctx.world().load("medil.graph")
        A = graph()
        U = g.UndirectedDependenceGraph(A.copy())
        ords = [(a, b) for a in range(n) for b in range(n) if a != b]
        log = []
        for t, op in enumerate(cfg["ops"]):
            hot = [rng.onehot("e%d.%d" % (t, q), len(ords)) for q in range(cfg["m"])]
            el = np.empty((cfg["m"], 2), object)
            for q in range(cfg["m"]):
                for s in (0, 1):
                    el[q, s] = core.mk_union([(hot[q][z], ords[z][s]) for z in range(len(ords))])
            edges = SArray(el, np.dtype(int))
            ctx.inputs["edges%d" % t] = edges.copy()
            (U.add_edges if op == "add" else U.rm_edges)(edges)
            log.append((op, hot))
        return A, U, log, ords

    def edit_prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        A, U, log, ords = p.value
        aig = E.aig
        e = G.edge_lits(A, n)
        cur = {q: e[q] for q in G.pairs(n)}
        for op, hot in log:
            for (i, j) in cur:
                sel = aig.ORN([h[ords.index(o)] for h in hot for o in ((i, j), (j, i))])
                cur[i, j] = aig.OR(cur[i, j], sel) if op == "add" else aig.AND(cur[i, j], sel ^ 1)
        M = arr(U.adj_matrix)
        obs = []
        for (i, j), l in cur.items():
            for a, b in ((i, j), (j, i)):
                obs.append(Ob("entry %d,%d" % (a, b), core.compare("==", M.el[a, b], core.mk_union([(l, 1), (l ^ 1, 0)]))))
        for i in range(n):
            obs.append(Ob("diagonal", core.compare("==", M.el[i, i], 1)))
        obs.append(Ob("num_edges", core.compare("==", U.num_edges, core.count_true(list(cur.values())))))
        return obs
    if cfg["kind"] == "aux":
        return ctx.run(aux, aux_prop, observe=lambda v: None if v[1] is None else [v[1].common_neighbors, v[1].nbrhood_edge_counts])
    return ctx.run(edit, edit_prop, observe=lambda v: [v[1].adj_matrix, v[1].num_edges])


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    g = rp.fresh("graph")
    A = inp["A"].astype(cfg["dt"])
    n = len(A)
    v = rp.V()
    P = G.pairs(n)
    if cfg["kind"] == "edit":
        U = g.UndirectedDependenceGraph(A.copy())
        M = A.astype(int).copy()
        for t, op in enumerate(cfg["ops"]):
            ed = inp["edges%d" % t].astype(int)
            try:
                (U.add_edges if op == "add" else U.rm_edges)(ed)
            except Exception as e:
                return {"violations": ["raises: %r" % e]}
            for a, b in ed:
                M[a, b] = M[b, a] = int(op == "add")
        v.check((np.asarray(U.adj_matrix).astype(int) == M).all(), "edit: %s instead of %s" % (np.asarray(U.adj_matrix).tolist(), M.tolist()))
        v.check(int(U.num_edges) == int(np.triu(M, 1).sum()), "num_edges: %s" % U.num_edges)
        return {"violations": v, "output": [rp.enc(np.asarray(U.adj_matrix).astype(int)), int(U.num_edges)]}
    g.UndirectedDependenceGraph(np.array([[1, 1, 0], [1, 1, 1], [0, 1, 1]])).make_aux()
    U = g.UndirectedDependenceGraph(A.copy())
    edges = [p for p in P if A[p]]
    try:
        U.make_aux()
    except ValueError as e:
        v.check(not edges, "make_aux raises %r on %s" % (e, A.astype(int).tolist()))
        return {"violations": v}
    except Exception as e:
        return {"violations": ["make_aux raises %r" % e]}
    cn, cnt = np.asarray(U.common_neighbors), np.asarray(U.nbrhood_edge_counts)
    idx = {p: int(U.get_idx(p)) for p in P}
    v.check(sorted(idx.values()) == list(range(len(P))), "get_idx: %s" % idx)
    Ab = A.astype(bool)
    for p in P:
        v.check(tuple(int(x) for x in U.get_edge(idx[p])) == p, "get_edge: of index %d" % idx[p])
        com = (Ab[p[0]] & Ab[p[1]]) if A[p] else np.zeros(n, bool)
        if not v.check(cn.shape == (len(P), n) and cnt.shape == (len(P),), "shape: %s %s" % (cn.shape, cnt.shape)):
            break
        v.check((cn[idx[p]] == com).all(), "common_neighbors: of %s: %s instead of %s" % (p, cn[idx[p]].tolist(), com.tolist()))
        inside = sum(1 for a, b in P if Ab[a, b] and com[a] and com[b])
        v.check(int(cnt[idx[p]]) == inside, "nbrhood_edge_counts: of %s: %s instead of %s" % (p, cnt[idx[p]], inside))
    v.check(sorted(int(x) for x in U.extant_edges_idx) == sorted(idx[p] for p in edges), "extant_edges_idx: %s" % list(U.extant_edges_idx))
    v.check(int(U.num_edges) == len(edges) and int(U.num_vertices) == n, "counts: num_edges %s num_vertices %s" % (U.num_edges, U.num_vertices))
    v.check((np.asarray(U.adj_matrix) == A).all(), "matrix: changed")
    return {"violations": v, "output": [rp.enc(cn), rp.enc(cnt)]}
