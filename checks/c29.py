"""Public functions leave every array the caller passes in exactly as it was (also when they raise)."""
import shutil, tempfile
from . import graphs as G

BOUNDS = {"quick": "every graph with 1..4 vertices (5 with sorted degrees), int64 and bool; all structures and real matrices up to 2x3, samples up to 3x2 / 3x3; every draw"
                   "; graphs with 7 and 9 vertices, structures up to 5x12, samples up to 12x4 with a few free entries",
          "thorough": "every graph with up to 5 vertices, structures up to 3x3, samples up to 5x2"}
OUTSIDE = "larger inputs; whether results share memory with arguments; array attributes other than shape, dtype and values"


def configs(tier):
    q = tier == "quick"
    out = []

    def add(f, args, weight=1, **k):
        out.append(dict(f=f, args=args, weight=weight, samples=1, **k))
    for n in (1, 2, 3, 4, 5):
        for dt in ("int64", "bool"):
            sp = {4: 2, 5: 5}
            for c in G.cubes(n, sp.get(n, 0)):
                for f in ("find_clique_min_cover", "max_cliques", "find_heuristic_1pc", "make_aux"):
                    if n == 5 and (f in ("max_cliques", "make_aux") or q and (dt == "bool" or f == "find_heuristic_1pc")):
                        continue
                    add(f, [("A", "graph", (n, n), dt)], weight=2 ** (n * (n - 1) // 2 - sp.get(n, 0)), cube=c, sort=int(q and n == 5))
    for dt in ("int64", "bool"):
        add("find_clique_min_cover", [("A", "graph", (6, 6), dt)], weight=64, fix=G.octahedra(free=[(4, 5), (0, 3), (1, 3)]))
        add("find_clique_min_cover", [("A", "graph", (6, 6), dt)], weight=64, fix=G.octahedra(free=[(0, 1), (2, 5), (0, 2)], perm=(0, 1, 2, 4, 5, 3)))
    for dt in ("bool", "int64", "float64"):
        for sh in ((1, 2), (2, 2), (2, 3)) + (() if q else ((3, 3),)):
            add("sfd", [("B1", "bit", sh, dt), ("B2", "bit", sh[:1] + sh[1:], dt)])
            add("recover_ug", [("B", "bit", sh, dt)])
            for f in ("get_dag_from_biadj", "show_dag", "show_obs_adj_mat"):
                add(f, [("B", "bit", sh, dt)])
            add("mcm", [("B", "bit", sh, dt)], weight=6)
    for f in ("min_perm_squared_l2_dist", "min_perm_squared_l2_dist_abs"):
        for d in ("real", "int"):
            add(f, [("P", d, (2, 2), None), ("T", d, (2, 2), None)], weight=5)
            add(f, [("P", d, (2, 1), None), ("T", d, (1, 1), None)])
        add(f, [("P", "real", (3, 1), None), ("T", "real", (2, 1), None)], weight=8)
    for N, m, d in ((2, 1, "real"), (3, 2, "real"), (3, 2, "int"), (2, 3, "real")) + (() if q else ((5, 2, "real"), (4, 3, "real"))):
        add("dcov", [("X", d, (N, m), None)], weight=N * m)
    add("xicorr", [("x", "real", (2,), None), ("y", "real", (2,), None)], weight=5)
    add("xicorr", [("x", "int", (2,), None), ("y", "int", (2,), None)], weight=5)
    if not q:
        add("xicorr", [("x", "real", (3,), None), ("y", "real", (3,), None)], weight=20)
    for meth in ("dcov_fast", "dcov_big"):
        add("estimate_UDG", [("X", "real", (3, 2), None)], weight=20, method=meth)
    add("estimate_UDG", [("X", "real", (2, 2), None)], weight=20, method="xicor")
    add("estimate_UDG", [("X", "real", (2, 3), None), ("P", "real", (3, 3), None)], weight=5, method="P")
    for sh, dt in (((1, 2), "bool"), ((2, 3), "int64"), ((2, 3), "bool"), ((1, 2), "float64")):
        add("fit", [("X", "real", (2, sh[1]), None), ("B", "bit", sh, dt)], weight=20)
        add("sample", [("B", "bit", sh, dt), ("W", "real", sh, None), ("mu", "real", sh[1:], None), ("v", "pos", sh[1:], None)], weight=6)
    for n, dt in ((2, "int64"), (3, "bool"), (3, "int64")):
        add("fit", [("X", "real", (2, n), None), ("A", "graph", (n, n), dt)], weight=20)
    add("fit", [("X", "real", (2, 2), None)], weight=20)
    for meth in ("mle", "lse"):
        add("dev", [("X", "real", (2, 2), None)], weight=200, method=meth)
        add("dev", [("X", "real", (2, 2), None), ("init_W", "real", (2, 2), None)], weight=200, method=meth)
    add("ncfa", [("X", "real", (4, 2), None), ("tr", "const", [0, 2, 3], "int64"), ("va", "const", [1], "int64")], weight=8)
    add("ncfa", [("X", "real", (4, 2), None)], weight=8)
    for f in ("find_clique_min_cover", "max_cliques", "find_heuristic_1pc", "make_aux"):
        for n, dt in ((7, "int64"), (9, "bool")):
            add(f, [("A", "graph", (n, n), dt)], weight=90, sparse=3, spseed=n, density=.6)
    for sh, dt in (((6, 9), "bool"), ((5, 12), "int64"), ((9, 7), "float64")):
        for f in ("recover_ug", "get_dag_from_biadj", "show_dag", "show_obs_adj_mat", "mcm"):
            add(f, [("B", "bit", sh, dt)], weight=40, sparse=3)
    add("sfd", [("B1", "bit", (4, 6), "int64"), ("B2", "bit", (3, 6), "bool")], weight=40, sparse=3)
    add("dcov", [("X", "real", (12, 4), None)], weight=40, sparse=1)
    add("min_perm_squared_l2_dist_abs", [("P", "real", (3, 5), None), ("T", "real", (3, 5), None)], weight=40, sparse=1)
    add("estimate_UDG", [("X", "real", (9, 8), None), ("P", "real", (8, 8), None)], weight=20, method="P", sparse=5)
    add("fit", [("X", "real", (9, 6), None), ("B", "bit", (4, 6), "int64")], weight=60, sparse=2)
    add("sample", [("B", "bit", (4, 6), "bool"), ("W", "real", (4, 6), None), ("mu", "real", (6,), None), ("v", "pos", (6,), None)], weight=40, sparse=3)
    add("ncfa", [("X", "real", (11, 3), None)], weight=40, sparse=2)
    for t in (0, 1):
        add("show_obs_dcor_mat", [("M", "real", (2, 2), None)], thresh=t)
    add("show_pairwise_plot", [("X", "real", (3, 2), None)])
    return out


def call(cfg, a, load, rng, path):
    """the call under test, in either world"""
    f = cfg["f"]
    if f in ("find_clique_min_cover", "find_heuristic_1pc"):
        return getattr(load("ecc_algorithms"), f)(a["A"])
    if f == "max_cliques":
        return list(load("ecc_algorithms").max_cliques(a["A"]))
    if f == "make_aux":
        return load("graph").UndirectedDependenceGraph(a["A"]).make_aux()
    if f in ("sfd", "recover_ug", "min_perm_squared_l2_dist", "min_perm_squared_l2_dist_abs"):
        return getattr(load("evaluate"), f)(*a.values())
    if f in ("dcov", "xicorr"):
        return getattr(load("independence_testing"), f)(*a.values())
    if f == "estimate_UDG":
        return load("independence_testing").estimate_UDG(a["X"], method=a["P"] if cfg["method"] == "P" else cfg["method"])
    if f == "mcm":
        return load("sample").mcm(rng=rng, biadj=a["B"])
    if f == "fit":
        md = load("models")
        kw = dict(biadj=a["B"]) if "B" in a else dict(udg=a["A"]) if "A" in a else {}
        return md.GaussianMCM(**kw).fit(a["X"])
    if f == "sample":
        m = load("models").GaussianMCM(biadj=a["B"], rng=rng)
        P = m.parameters
        P.biadj_weights, P.error_means, P.error_variances = a["W"], a["mu"], a["v"]
        m.sample(2)
        return m.sample(1)
    if f == "dev":
        m = load("models").DevMedil(rng=rng)
        if "init_W" in a:
            m.init_W = a["init_W"]
        m.fit(a["X"], method=cfg["method"])
        getattr(m, "validation_" + cfg["method"])(.1, .1, a["X"])
        return m.sample(2, cfg["method"])
    if f == "ncfa":
        m = load("models").NeuroCausalFactorAnalysis(path=path)
        m.hyperparams.update(batch_size=2, num_epochs=1)
        return m.fit(a["X"], *([(a["tr"], a["va"])] if "tr" in a else []))
    vz = load("visualize")
    if f == "show_obs_dcor_mat":
        return vz.show_obs_dcor_mat(a["M"], thresh=.5 if cfg["thresh"] else None, print_val=True)
    return getattr(vz, f)(*a.values())


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, unchanged
    from . import ncfa

    def fn():
        a = {}
        for nm, kind, sh, dt in cfg["args"]:
            if kind == "graph":
                v = ctx.graph(nm, sh[0], dt)
                if cfg.get("sort"):
                    n = sh[0]
                    degs = [core.count_true([core.truth(v.el[i, j]) for j in range(n) if j != i]) for i in range(n)]
                    for x, y in zip(degs, degs[1:]):
                        E.assume(core.compare(">=", x, y))
            elif kind == "bit":
                v = ctx.bools(nm, sh, dt if dt != "float64" else bool)
                if dt == "float64":
                    v = v.astype(float)
                    ctx.inputs[nm] = v.copy()
            elif kind == "const":
                v = ctx.const(nm, np.array(sh))
            else:
                v = ctx.ints(nm, sh, -1000, 1000) if kind == "int" else ctx.reals(nm, sh, 0 if kind == "pos" else None)
            a[nm] = v
        if "X" in a and cfg["f"] not in ("dcov", "show_pairwise_plot"):
            X = a["X"]
            for c in range(X.el.shape[1]):
                E.assume(core.compare("!=", X.el[0, c], X.el[1, c]))
        before = {k: v.copy() for k, v in a.items()}
        w = ctx.world()
        if cfg["f"] == "ncfa":
            ncfa.stub(w, w.load("medil.models"))
        try:
            call(cfg, a, lambda m: w.load("medil." + m), ctx.rng(), "out/")
            exc = None
        except core.EngineError:
            raise
        except Exception as e:
            exc = e
        return a, before, exc

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        a, before, exc = p.value
        if exc is not None:
            ctx.res["notes"].append("%s raised %s" % (cfg["f"], type(exc).__name__))
        obs = []
        for k in a:
            obs += unchanged("%s: changed" % k, a[k], before[k])
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    v = rp.V()
    a = {}
    for nm, kind, sh, dt in cfg["args"]:
        x = np.asarray(inp[nm])
        x = x.astype(dt or ("int64" if kind == "int" else "float64"))
        a[nm] = np.clip(x, -50, 50) if kind in ("real", "pos") else x
    before = {k: x.copy() for k, x in a.items()}
    d = tempfile.mkdtemp()
    if cfg["f"].startswith("show"):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        plt.close("all")
        if cfg["f"] == "show_pairwise_plot":
            vz = rp.light("visualize")
            vz.sns.pairplot = lambda *q, **k: None
    rng = rp.ScriptedRng(draws) if cfg["f"] == "mcm" else np.random.default_rng(3)
    try:
        call(cfg, a, rp.light, rng, d + "/")
    except rp.Mismatch:
        pass
    except Exception:
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if cfg["f"].startswith("show"):
            plt.close("all")
    for k, x in a.items():
        same = x.shape == before[k].shape and x.dtype == before[k].dtype and np.array_equal(x, before[k])
        v.check(same, "changed: argument %s of %s was %s and is %s" % (k, cfg["f"], before[k].tolist(), x.tolist()))
    return v
