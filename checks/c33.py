"""Deterministic functions: the result depends on the arguments alone, not on earlier calls, on what the caller did with earlier
results, or on generators being consumed at the same time."""
from . import graphs as G

BOUNDS = {"quick": "every pair (argument of the call, argument of an earlier call) with graphs of 1..3 vertices, graphs of 4 vertices after a fixed different "
                   "call; structures up to 2x3, real matrices up to 2x2, samples up to 3x3 (vectors of 3 in three orders for xicorr); two max_cliques generators over graphs with up to 3 and 4 vertices advanced "
                   "alternately, one step each; each call repeated after its results were overwritten"
                   "; graphs of 6 to 8 vertices, structures 6x9 and samples 9x3 with a few free entries",
          "thorough": "graphs with 4 vertices in every pair with 3, 5 vertices after a fixed different call, structures up to 3x3"}
OUTSIDE = "larger arguments; histories of more than three calls; models (C18, C34)"

GF = ("find_clique_min_cover", "find_heuristic_1pc", "max_cliques", "make_aux")


def configs(tier):
    q = tier == "quick"
    out = []

    def add(f, x, y, weight=1, **k):
        out.append(dict(f=f, x=x, y=y, weight=weight, samples=1, **k))
    for f in GF:
        for n in (1, 2, 3):
            for n2 in (n, n % 3 + 1) + (() if q else (4,)):
                add(f, [("graph", n, "int64")], [("graph", n2, "int64")], weight=2 ** (n * n) + 2 ** (n2 * n2 // 2))
        for c in G.cubes(4, 1):
            add(f, [("graph", 4, "int64")], [("fixed", "K4")], weight=60, cube=c)
            add(f, [("graph", 4, "bool")], [("fixed", "C4")], weight=60, cube=c)
        if not q:
            for c in G.cubes(5, 5):
                add(f, [("graph", 5, "int64")], [("fixed", "C4")], weight=300, cube=c)
    for a, b in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
        add("interleave", [("graph", a, "int64")], [("graph", b, "int64")], weight=2 ** (a + b))
    for c in G.cubes(4, 1):
        add("interleave", [("graph", 4, "int64")], [("fixed", "C4")], weight=40, cube=c)
        add("interleave", [("graph", 4, "int64")], [("fixed", "K4")], weight=40, cube=c)
    for sh in ((1, 2), (2, 2), (2, 3)) + (() if q else ((3, 3),)):
        add("sfd", [("bit", sh, "bool"), ("bit", sh, "bool")], [("bit", sh, "bool"), ("bit", sh, "bool")])
        add("recover_ug", [("bit", sh, "bool")], [("bit", sh, "bool")])
        add("recover_ug", [("bit", sh, "int64")], [("bit", sh[::-1], "int64")])
        for f in ("get_dag_from_biadj", "show_obs_adj_mat", "show_dag"):
            if f == "get_dag_from_biadj":
                add(f, [("bit", sh, "bool")], [("bit", sh, "bool")])
    for f in ("min_perm_squared_l2_dist", "min_perm_squared_l2_dist_abs"):
        add(f, [("real", (2, 1)), ("real", (2, 1))], [("real", (2, 1)), ("real", (2, 1))], weight=10)
        add(f, [("real", (2, 1)), ("real", (1, 1))], [("real", (2, 1)), ("real", (2, 1))], weight=10)
        add(f, [("real", (2, 2)), ("real", (2, 2))], [("fixed", "W22"), ("fixed", "W12")], weight=10)
    for N, m in ((2, 1), (3, 2), (3, 3)):
        add("dcov", [("real", (N, m))], [("real", (N, m))], weight=N * m)
        add("dcov", [("real", (N, m))], [("real", (N + 1, m))], weight=N * m)
    add("xicorr", [("real", (2,)), ("real", (2,))], [("real", (2,)), ("real", (2,))], weight=5)
    for o1, o2 in (((0, 1, 2), (1, 0, 2)), ((2, 0, 1), (0, 1, 2)), ((1, 2, 0), (2, 1, 0))):
        add("xicorr", [("real", (3,)), ("real", (3,))], [("fixed", "v4"), ("fixed", "v4")], weight=30, order=[o1, o2])
    add("estimate_UDG", [("real", (2, 3)), ("real", (3, 3))], [("real", (2, 3)), ("real", (3, 3))], weight=5)
    for f in GF:
        add(f, [("graph", 7, "int64")], [("graph", 7, "int64")], weight=90, sparse=2, density=.6)
        add(f, [("graph", 6, "bool")], [("graph", 8, "int64")], weight=90, sparse=2, density=.7)
    add("recover_ug", [("bit", (6, 9), "int64")], [("bit", (6, 9), "int64")], sparse=5)
    add("get_dag_from_biadj", [("bit", (6, 9), "bool")], [("bit", (6, 9), "bool")], sparse=5)
    add("dcov", [("real", (9, 3))], [("real", (9, 3))], weight=30, sparse=1)
    add("estimate_UDG", [("real", (3, 2))], [("real", (3, 2))], weight=20)
    add("estimate_UDG", [("real", (3, 2))], [("real", (2, 3)), ("real", (3, 3))], weight=20)
    return out


FIXED = {"K4": [[1] * 4 for _ in range(4)], "C4": [[1, 1, 0, 1], [1, 1, 1, 0], [0, 1, 1, 1], [1, 0, 1, 1]], "W22": [[1.0, -2.0], [0.5, 3.0]], "W12": [[2.0, 1.0]],
         "v4": [1.0, 3.0, 2.0, 7.0]}


def call(f, a, load):
    if f in ("find_clique_min_cover", "find_heuristic_1pc"):
        return getattr(load("ecc_algorithms"), f)(a[0])
    if f == "max_cliques":
        return list(load("ecc_algorithms").max_cliques(a[0]))
    if f == "make_aux":
        g = load("graph").UndirectedDependenceGraph(a[0])
        try:
            g.make_aux()
        except ValueError:      # no edges
            return [g.adj_matrix, g.num_vertices, g.num_edges, g.max_num_verts]
        return [g.adj_matrix, g.num_vertices, g.num_edges, g.max_num_verts, g.common_neighbors, g.nbrhood_edge_counts]
    if f in ("sfd", "recover_ug", "min_perm_squared_l2_dist", "min_perm_squared_l2_dist_abs"):
        return getattr(load("evaluate"), f)(*a)
    if f in ("dcov", "xicorr"):
        r = getattr(load("independence_testing"), f)(*a)
        return [r[0], r[1]]
    if f == "estimate_UDG":
        it = load("independence_testing")
        return it.estimate_UDG(a[0], method=a[1]) if len(a) > 1 else it.estimate_UDG(a[0])
    return getattr(load("visualize"), f)(*a)


def pull(its):
    """advance the generators alternately; everything they yield"""
    got = [[] for _ in its]
    live = list(range(len(its)))
    while live:
        for k in list(live):
            try:
                got[k].append(next(its[k]))
            except StopIteration:
                live.remove(k)
    return got


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, close, S, same_array
    f = cfg["f"]

    def mk(pre, spec):
        out = []
        for j, s in enumerate(spec):
            nm = "%s%d" % (pre, j)
            if s[0] == "graph":
                out.append(ctx.graph(nm, s[1], s[2]))
            elif s[0] == "bit":
                out.append(ctx.bools(nm, s[1], s[2]))
            elif s[0] == "real":
                out.append(ctx.reals(nm, s[1]))
            else:
                out.append(ctx.const(nm, np.array(FIXED[s[1]])))
        if f in ("dcov", "estimate_UDG", "xicorr"):
            X = out[0]
            for c in range(X.el.shape[1] if X.el.ndim > 1 else 0):
                E.assume(core.compare("!=", X.el[0, c], X.el[1, c]))
            if f == "xicorr":
                E.cfg["float_sqrt"] = True
                for X, o in zip(out, cfg.get("order") or [None] * 2):
                    for i in range(1, len(X.el)):
                        if pre == "x" and o is not None:
                            E.assume(core.compare("<", X.el[o[i - 1]], X.el[o[i]]))
                        else:
                            E.assume(core.compare("!=", X.el[0], X.el[i]))
        return out

    def copy(a):
        return [x.copy() for x in a]

    def freeze(v):
        """an immutable picture of a result (arrays copied at once)"""
        if isinstance(v, S.SArray):
            return v.copy()
        if isinstance(v, dict):
            return ("dict", [(k, freeze(x)) for k, x in sorted(v.items())])
        if isinstance(v, (set, frozenset)):
            return ("set", sorted(v))
        if isinstance(v, (list, tuple)):
            return ("list", [freeze(x) for x in v])
        return v

    def spoil(v):
        if isinstance(v, S.SArray) and v.el.size and v.el.ndim:
            try:
                v[...] = 1
            except Exception:
                pass
        elif isinstance(v, dict):
            v.clear()
        elif isinstance(v, (set, list)):
            if isinstance(v, list):
                for x in v:
                    spoil(x)
            v.clear()
        elif isinstance(v, tuple):
            for x in v:
                spoil(x)

    def fn():
        x, y = mk("x", cfg["x"]), mk("y", cfg["y"])
        w1 = ctx.world()
        ld1 = lambda m: w1.load("medil." + m)
        if f == "interleave":
            e1 = ld1("ecc_algorithms")
            alone = [freeze(list(e1.max_cliques(a.copy()))) for a in (x[0], y[0])]
            w2 = ctx.world()
            e2 = w2.load("medil.ecc_algorithms")
            both = pull([e2.max_cliques(x[0].copy()), e2.max_cliques(y[0].copy())])
            return [("interleaved with another generator", alone[0], freeze(both[0])), ("second of two generators", alone[1], freeze(both[1]))]
        cold = freeze(call(f, copy(x), ld1))
        w2 = ctx.world()
        ld2 = lambda m: w2.load("medil." + m)
        spoil(call(f, copy(y), ld2))
        r = call(f, copy(x), ld2)
        warm = freeze(r)
        call(f, copy(y), ld2)
        later = freeze(r)
        spoil(r)
        again = freeze(call(f, copy(x), ld2))
        return [("after an earlier call", cold, warm), ("result overwritten by a later call", warm, later), ("repeated after the caller overwrote the result", cold, again)]

    def diff(nm, a, b, obs):
        if isinstance(a, S.SArray) and isinstance(b, S.SArray):
            obs += same_array(nm, a, b)
        elif isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] != b[0] or len(a[1]) != len(b[1]):
                obs.append(Ob("%s: %s entries instead of %s" % (nm, len(b[1]), len(a[1])), False))
                return
            for p, q in zip(a[1], b[1]):
                if isinstance(p, tuple) and len(p) == 2 and p[0] not in ("list", "set", "dict"):
                    if p[0] != q[0]:
                        obs.append(Ob(nm + ": keys", False))
                        return
                    p, q = p[1], q[1]
                diff(nm, p, q, obs)
        elif a is None or b is None or isinstance(a, str) or isinstance(b, str):
            obs.append(Ob(nm, a == b if type(a) is type(b) else False))
        else:
            obs.append(close(nm, a, b))

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        obs = []
        for nm, a, b in p.value:
            diff(nm, a, b, obs)
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    v = rp.V()
    f = cfg["f"]

    def mk(pre, spec):
        return [np.asarray(inp["%s%d" % (pre, j)]).astype(s[2] if s[0] in ("graph", "bit") else int if s[0] == "fixed" and s[1][0] in "KC" else float)
                for j, s in enumerate(spec)]
    x, y = mk("x", cfg["x"]), mk("y", cfg["y"])
    world = {}

    def ld(m):
        if m not in world:
            world[m] = rp.light(m)
        return world[m]

    def new():
        world.clear()
        rp.fresh("ecc_algorithms")

    def copy(a):
        return [z.copy() for z in a]

    def freeze(r):
        if isinstance(r, np.ndarray):
            return r.copy()
        if isinstance(r, dict):
            return {k: freeze(z) for k, z in r.items()}
        if isinstance(r, (set, frozenset)):
            return sorted(r)
        if isinstance(r, (list, tuple)):
            return [freeze(z) for z in r]
        return r

    def spoil(r):
        if isinstance(r, np.ndarray) and r.ndim:
            try:
                r[...] = 1
            except ValueError:
                pass
        elif isinstance(r, (list, tuple)):
            for z in r:
                spoil(z)
        if isinstance(r, (set, list, dict)):
            r.clear()

    def same(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            if a.dtype == object or b.dtype == object:
                return all(same(p, q) for p, q in zip(a.reshape(-1), b.reshape(-1)))
            return np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f") or (a.dtype.kind == "f" and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))
        if isinstance(a, dict):
            return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
        if isinstance(a, list):
            return isinstance(b, list) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
        return a == b or (a != a and b != b)
    try:
        new()
        if f == "interleave":
            e = ld("ecc_algorithms")
            alone = [freeze(list(e.max_cliques(a.copy()))) for a in (x[0], y[0])]
            new()
            e = ld("ecc_algorithms")
            both = rp.limited(pull, [e.max_cliques(x[0].copy()), e.max_cliques(y[0].copy())])
            for a, b in zip(alone, both):
                v.check(same(a, freeze(b)), "interleaved: %s instead of %s" % (b, a))
            return v
        cold = freeze(rp.limited(call, f, copy(x), ld))
        new()
        spoil(call(f, copy(y), ld))
        r = call(f, copy(x), ld)
        warm = freeze(r)
        call(f, copy(y), ld)
        later = freeze(r)
        spoil(r)
        again = freeze(call(f, copy(x), ld))
        v.check(same(cold, warm), "history: %s gives %s, after another call %s" % (f, cold, warm))
        v.check(same(warm, later), "history: the result %s of %s is %s after a later call" % (warm, f, later))
        v.check(same(cold, again), "history: %s gives %s, and %s once the caller has overwritten the result" % (f, cold, again))
    except rp.Mismatch:
        raise
    except Exception as e:
        v.check(False, "raises %r" % e)
    return v
