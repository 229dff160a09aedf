"""Pictures: what is handed to networkx / matplotlib / seaborn is exactly the given structure."""
import re

BOUNDS = {"quick": "all binary biadjacency matrices up to 4 latents x 5 measurements (bool, int64, float64 where 0/1), all real n x n matrices and thresholds up to n=4, "
                   "samples of up to 3 columns with 1, 3, 1000 and 1001 rows"
                   "; up to 12 latents, 15 measurements and 12x12 matrices with 8..12 free entries",
          "thorough": "up to 6 x 8 and n=7"}
OUTSIDE = "larger matrices; colours, sizes and fonts; how matplotlib renders what it is given"
ASSUMES = ["nodes are told apart by their labels; ticks, limits and labels mean what matplotlib documents"]
DT = {"b": "bool", "i": "int64", "f": "float64"}


def configs(tier):
    sh = [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 4), (4, 5), (2, 6)] + ([(6, 8), (5, 5), (1, 8)] if tier == "thorough" else [])
    out = [dict(f=f, k=k, n=n, d=d, weight=k * n) for k, n in sh for d in "bif" for f in ("dag", "show_dag", "adj")]
    for n in (1, 2, 3, 4) + ((6, 7) if tier == "thorough" else ()):
        out += [dict(f="dcor", n=n, thresh=t, pv=p, weight=n * n) for t in (0, 1) for p in (0, 1)]
    out += [dict(f=f, k=k, n=n, d=d, sparse=8, spseed=k, weight=k * n) for f in ("dag", "show_dag", "adj") for k, n, d in ((11, 12, "b"), (3, 15, "i"), (12, 4, "f"))]
    out += [dict(f="dcor", n=n, thresh=t, pv=p, sparse=12, weight=n * n) for n, t, p in ((7, 1, 1), (11, 0, 1), (12, 1, 0))]
    out += [dict(f="pair", N=N, m=m, samples=1, weight=N) for N, m in ((1, 1), (3, 2), (3, 3), (1000, 1), (1001, 1), (1200, 2))]
    for c in out:
        c["limit"] = 30 if tier == "quick" else 600
    return out


# ------------------------------------------------------------------ shared analysis
def label_of(t):
    m = re.fullmatch(r"\$?([LM])_?\{?(\d+)\}?\$?", str(t))
    if m and str(t)[:1] == "$" and "_" in str(t) and "{" not in str(t) and len(m.group(2)) > 1:
        return None                 # in math mode only the first digit becomes the index
    return (m.group(1), int(m.group(2))) if m else None


def dag_facts(events, k, n, lims, check):
    """events: dicts with kind nodes/edges/labels.  Returns {(label, label): drawn literal} or None."""
    pos, lab, nodes, edges = {}, {}, [], {}

    def place(u, p):
        if not check(p is not None and u in p, "position: node %s has none" % (u,)):
            return
        xy = tuple(round(float(c), 9) for c in p[u])
        check(pos.setdefault(u, xy) == xy, "position: node %s drawn at %s and %s" % (u, pos[u], xy))
    for e in events:
        if e["kind"] == "nodes":
            for u in e["nodes"]:
                nodes.append(u)
                place(u, e["pos"])
        elif e["kind"] == "labels":
            for u, t in e["labels"].items():
                q = label_of(t)
                if check(q is not None, "label: %s of node %s" % (t, u)):
                    check(lab.setdefault(u, q) == q, "label: node %s is called %s and %s" % (u, lab[u], q))
                place(u, e["pos"])
        else:
            check(e["directed"], "direction: edges drawn without arrows")
            for (u, v), l in e["edges"].items():
                edges.setdefault((u, v), []).append(l)
                place(u, e["pos"])
                place(v, e["pos"])
    want = [("L", i) for i in range(k)] + [("M", j) for j in range(n)]
    if not check(sorted(lab.values()) == want, "label: nodes are called %s" % sorted(lab.values())):
        return None
    if not check(set(nodes) == set(lab), "nodes: drawn %s, labelled %s" % (sorted(set(map(str, nodes))), sorted(map(str, lab)))):
        return None
    if not check(all(u in pos for u in lab), "position: missing"):
        return None
    ys = {q: [pos[u][1] for u in lab if lab[u][0] == q] for q in "LM"}
    check(min(ys["L"]) > max(ys["M"]), "position: latents are not above the measurements")
    check(len(set(pos[u] for u in lab)) == k + n, "position: nodes coincide")
    for c in (0, 1):
        if lims[c] is not None:
            lo, hi = min(lims[c]), max(lims[c])
            check(all(lo <= pos[u][c] <= hi for u in lab), "position: outside the visible range")
    if not check(all(u in lab and v in lab for u, v in edges), "edges: between unlabelled nodes"):
        return None
    return {(lab[u], lab[v]): ls for (u, v), ls in edges.items()}


def tick_facts(axis, ticks, labels, n, check):
    if not check(ticks is not None and labels is not None, "ticks: %s axis has none" % axis):
        return
    check([float(t) for t in ticks] == list(range(n)), "ticks: %s axis at %s" % (axis, list(ticks)))
    got = [re.fullmatch(r"\D*(\d+)", str(l)) for l in labels]
    check(len(got) == n and all(m and int(m.group(1)) == i + 1 for i, m in enumerate(got)), "ticks: %s axis labelled %s" % (axis, list(labels)))


# ------------------------------------------------------------------ solver side
def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, close, SArray

    def fn():
        if cfg["f"] in ("dag", "show_dag", "adj"):
            B = ctx.bools("B", (cfg["k"], cfg["n"]), DT[cfg["d"]] if cfg["d"] != "f" else bool)
            B = B.astype(float) if cfg["d"] == "f" else B.copy()
            vz = ctx.world().load("medil.visualize")
            r = {"dag": vz.get_dag_from_biadj, "show_dag": vz.show_dag, "adj": vz.show_obs_adj_mat}[cfg["f"]](B)
            return r, list(E.cfg.get("plots", []))
        if cfg["f"] == "dcor":
            A = ctx.reals("A", (cfg["n"], cfg["n"]))
            t = ctx.real("thresh")
            vz = ctx.world().load("medil.visualize")
            r = vz.show_obs_dcor_mat(A.copy(), **(dict(thresh=t) if cfg["thresh"] else {}), **(dict(print_val=True) if cfg["pv"] else {}))
            return r, list(E.cfg.get("plots", []))
        X = ctx.reals("X", (cfg["N"], cfg["m"])) if cfg["N"] < 9 else ctx.const("X", (np.arange(cfg["N"] * cfg["m"]) % 97.5).reshape(cfg["N"], cfg["m"]))
        vz = ctx.world().load("medil.visualize")
        r = vz.show_pairwise_plot(X.copy())
        return r, list(E.cfg.get("plots", []))

    def last(log, name):
        for q, a, k in reversed(log):
            if q == name and (a or k):
                return a, k
        return None

    def axis(log, x):
        t = l = None
        for q, a, k in log:
            if q in ("set_%sticks" % x, x + "ticks"):
                t = a[0] if a else k.get("ticks", t)
                l = a[1] if len(a) > 1 else k.get("labels", l)
            elif q == "set_%sticklabels" % x:
                l = a[0] if a else k["labels"]
            elif q == "set":
                t, l = k.get(x + "ticks", t), k.get(x + "ticklabels", l)
        lst = lambda v: None if v is None else [z for z in (arr(v).el.reshape(-1) if isinstance(v, SArray) else v)]
        return lst(t), lst(l)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        out, log = p.value
        obs = []

        def check(ok, msg):
            obs.append(Ob(msg, bool(ok)))
            return ok
        I = ctx.inputs
        if cfg["f"] == "dag":
            k, n = cfg["k"], cfg["n"]
            D = arr(out)
            if not check(D.el.shape == (k + n, k + n), "shape: %s" % (D.el.shape,)):
                return obs
            for i, j in np.ndindex(k + n, k + n):
                want = core.truth(I["B"].el[i, j - k]) if i < k <= j else 0
                obs.append(Ob("edge: %d -> %d" % (i, j), E.aig.XOR(core.truth(D.el[i, j]), want) ^ 1))
            return obs
        check(any(q == "show" for q, a, k in log), "show: the picture is not shown")
        names = [q for q, a, k in log]
        drawn = [i for i, q in enumerate(names) if q.startswith(("nx.", "set_")) or q in ("imshow", "matshow", "text", "annotate", "xlim", "ylim", "xticks", "yticks", "pairplot", "PairGrid", "set")]
        if "show" in names and drawn:
            check(max(drawn) < max(i for i, q in enumerate(names) if q == "show"), "show: drawing goes on after the picture is shown")
        if cfg["f"] == "show_dag":
            k, n = cfg["k"], cfg["n"]
            events = []
            for q, a, kw in log:
                if not q.startswith("nx."):
                    continue
                G, pos = a[0], kw.get("pos")
                if q in ("nx.draw_networkx", "nx.draw_networkx_nodes", "nx.draw"):
                    nl = kw.get("nodelist")
                    events.append(dict(kind="nodes", nodes=list(G.n if nl is None else nl), pos=pos))
                if q in ("nx.draw_networkx", "nx.draw_networkx_edges", "nx.draw"):
                    el = kw.get("edgelist")
                    ed = dict(G.e) if el is None else {tuple(e): 1 for e in el}
                    events.append(dict(kind="edges", edges=ed, pos=pos, directed=G.directed and kw.get("arrows") in (None, True)))
                if q == "nx.draw_networkx_labels" or (q == "nx.draw_networkx" and kw.get("with_labels", True)) or (q == "nx.draw" and kw.get("with_labels", False)):
                    lb = kw.get("labels")
                    events.append(dict(kind="labels", labels={u: u for u in G.n} if lb is None else lb, pos=pos))
            lims = []
            for x in "xy":
                c = last(log, x + "lim") or last(log, "set_%slim" % x)
                v = None
                if c is not None:
                    v = list(c[0]) if len(c[0]) == 2 else (list(c[0][0]) if c[0] else None)
                lims.append(None if v is None else [float(q) for q in v])
            ed = dag_facts(events, k, n, lims, check)
            if ed is None:
                return obs
            nodes = [("L", i) for i in range(k)] + [("M", j) for j in range(n)]
            for u in nodes:
                for v in nodes:
                    got = E.aig.ORN(list(ed.get((u, v), [])))
                    want = core.truth(I["B"].el[u[1], v[1]]) if (u[0], v[0]) == ("L", "M") else 0
                    obs.append(Ob("edge: %s -> %s" % (u, v), E.aig.XOR(got, want) ^ 1))
            return obs
        if cfg["f"] == "pair":
            c = [(a, k) for q, a, k in log if q in ("pairplot", "PairGrid")]
            if not c:
                raise core.Unsupported("pairplot not called")
            a, k = c[-1]
            df = a[0] if a else k.get("data")
            want = I["X"].el[:1000]
            if not check(hasattr(df, "columns") and df.data.el.shape == want.shape, "data: shape"):
                return obs
            check(list(df.columns) == ["X%d" % (i + 1) for i in range(cfg["m"])], "columns: %s" % (df.columns,))
            return obs + [close("data%s" % (i,), df.data.el[i], want[i]) for i in np.ndindex(*want.shape)]
        im = [(a, k) for q, a, k in log if q in ("imshow", "matshow")]
        if not im:
            check(False, "image: none drawn")      # the replay tells whether something else shows the matrix
            return obs
        if len(im) != 1:
            raise core.Unsupported("%d images drawn" % len(im))
        D = arr(im[0][0][0] if im[0][0] else im[0][1]["X"])
        n = cfg["n"]
        if not check(D.el.shape == (n, n), "image: shape %s" % (D.el.shape,)):
            return obs
        for x in "xy":
            tick_facts(x, *axis(log, x), n, check)
        if cfg["f"] == "adj":
            for i, j in np.ndindex(n, n):
                if i != j:
                    s = E.aig.ORN([E.aig.AND(core.truth(r[i]), core.truth(r[j])) for r in I["B"].el])
                    obs.append(Ob("image: cell %d,%d" % (i, j), E.aig.XOR(core.truth(D.el[i, j]), s) ^ 1))
            return obs
        shown = {}
        for i, j in np.ndindex(n, n):
            v = I["A"].el[i, j]
            if cfg["thresh"]:
                v = core.merge(core.blit(core.compare(">", v, I["thresh"])), 1, 0)
            shown[i, j] = v
            obs.append(close("image: cell %d,%d" % (i, j), D.el[i, j], v))
        if cfg["pv"]:
            txt = {}
            for q, a, k in log:
                if q in ("text", "annotate"):
                    x, y, s = a[:3] if q == "text" else (*a[1], a[0])
                    txt.setdefault((int(y), int(x)), []).append(s)
            check(sorted(txt) == sorted(shown) and all(len(v) == 1 for v in txt.values()), "text: at %s" % sorted(txt))
            for ij, v in txt.items():
                if ij in shown:
                    d = core.absval(core.arith("-", core.arith("*", getattr(v[0], "value", v[0]) if not isinstance(v[0], str) or hasattr(v[0], "value") else core.to_frac(float(v[0])), 1000), core.arith("*", shown[ij], 1000)))
                    obs.append(Ob("text: of cell %s" % (ij,), core.compare("<=", d, 5)))
        return obs
    return ctx.run(fn, prop)


# ------------------------------------------------------------------ real side
def replay(cfg, inp, draws):
    import functools
    import numpy as np
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import networkx as nx
    import networkx.drawing.nx_pylab as nxp
    from . import rp
    vz = rp.light("visualize")
    v = rp.V()
    plt.close("all")
    shown = []
    old = plt.show, matplotlib.figure.Figure.show
    events, olds, pairs = [], {}, []

    def state():
        return (len(events), len(pairs), [(len(a.texts), len(a.images), a.get_xlim(), a.get_ylim(), [t.get_text() for t in a.get_xticklabels() + a.get_yticklabels()])
                                          for f in map(plt.figure, plt.get_fignums()) for a in f.axes])
    plt.show = lambda *a, **k: shown.append(state())
    matplotlib.figure.Figure.show = lambda self, *a, **k: shown.append(state())

    def patch(name, record):
        o = getattr(nxp, name)
        olds[name] = (o, getattr(nx, name))

        @functools.wraps(o)
        def f(G, pos=None, *a, **k):
            record(G, pos, *a, **k)
            return o(G, pos, *a, **k)
        setattr(nxp, name, f)
        setattr(nx, name, f)
    patch("draw_networkx_nodes", lambda G, pos, nodelist=None, *a, **k: events.append(
        dict(kind="nodes", nodes=list(G.nodes if nodelist is None else nodelist), pos=pos)))
    patch("draw_networkx_edges", lambda G, pos, edgelist=None, *a, **k: events.append(
        dict(kind="edges", edges={tuple(e[:2]): 1 for e in (G.edges if edgelist is None else edgelist)}, pos=pos,
             directed=G.is_directed() and k.get("arrows") in (None, True))))
    patch("draw_networkx_labels", lambda G, pos, labels=None, *a, **k: events.append(
        dict(kind="labels", labels=dict(labels) if labels is not None else {u: u for u in G.nodes}, pos=pos)))
    opp = vz.sns.pairplot
    vz.sns.pairplot = lambda *a, **k: pairs.append(a[0] if a else k.get("data"))
    try:
        try:
            if cfg["f"] in ("dag", "show_dag", "adj"):
                B = inp["B"].astype(DT[cfg["d"]])
                out = {"dag": vz.get_dag_from_biadj, "show_dag": vz.show_dag, "adj": vz.show_obs_adj_mat}[cfg["f"]](B.copy())
            elif cfg["f"] == "dcor":
                A = inp["A"].astype(float)
                out = vz.show_obs_dcor_mat(A.copy(), **(dict(thresh=inp["thresh"]) if cfg["thresh"] else {}), **(dict(print_val=True) if cfg["pv"] else {}))
            else:
                out = vz.show_pairwise_plot(inp["X"].copy())
        except rp.Mismatch:
            raise
        except Exception as e:
            return {"violations": ["raises: %r" % e]}
        finally:
            plt.show, matplotlib.figure.Figure.show = old
            vz.sns.pairplot = opp
            for nm, (a, b) in olds.items():
                setattr(nxp, nm, a)
                setattr(nx, nm, b)
        if cfg["f"] == "dag":
            k, n = B.shape
            want = np.zeros((k + n, k + n), bool)
            want[:k, k:] = B.astype(bool)
            D = np.asarray(out)
            v.check(D.shape == want.shape and ((D != 0) == want).all(), "dag: %s" % np.asarray(D, float).tolist())
            return v
        v.check(shown, "show: the picture is not shown")
        v.check(not shown or shown[-1] == state(), "show: drawing goes on after the picture is shown")
        if cfg["f"] == "pair":
            if not pairs:
                raise rp.Mismatch("pairplot not called")
            df, want = pairs[-1], inp["X"][:1000]
            v.check(df.shape == want.shape and np.array_equal(np.asarray(df, float), want), "data: not the (first 1000) given rows")
            v.check(list(df.columns) == ["X%d" % (i + 1) for i in range(cfg["m"])], "columns: %s" % list(df.columns))
            return v
        ax = plt.gcf().axes[0]
        if cfg["f"] == "show_dag":
            k, n = B.shape
            ed = dag_facts(events, k, n, [ax.get_xlim(), ax.get_ylim()], v.check)
            if ed is not None:
                want = sorted((("L", i), ("M", j)) for i in range(k) for j in range(n) if B[i, j])
                v.check(sorted(ed) == want, "edges: %s instead of %s" % (sorted(ed), want))
            return v
        n = cfg["n"]
        im = [i for a in plt.gcf().axes for i in a.images]
        if not im and not any(a.collections or a.lines or a.patches or a.tables for a in plt.gcf().axes):
            v.append("image: none drawn")
            return v
        if len(im) != 1:
            raise rp.Mismatch("%d images" % len(im))
        ax = im[0].axes
        D = np.asarray(im[0].get_array(), float)
        if not v.check(D.shape == (n, n), "image: shape %s" % (D.shape,)):
            return v
        for x in "xy":
            tick_facts(x, getattr(ax, "get_%sticks" % x)(), [t.get_text() for t in getattr(ax, "get_%sticklabels" % x)()], n, v.check)
        if cfg["f"] == "adj":
            L = B.astype(bool).astype(int)
            S = (L.T @ L) > 0
            off = ~np.eye(n, dtype=bool)
            v.check(((D != 0) == S)[off].all(), "image: %s" % D.tolist())
            return v
        want = (A > inp["thresh"]).astype(float) if cfg["thresh"] else A
        v.check(np.allclose(D, want), "image: %s instead of %s" % (D.tolist(), want.tolist()))
        if cfg["pv"]:
            txt = {}
            for t in ax.texts:
                x, y = t.get_position()
                txt.setdefault((int(y), int(x)), []).append(t.get_text())
            v.check(sorted(txt) == [(i, j) for i in range(n) for j in range(n)] and all(len(q) == 1 for q in txt.values()), "text: at %s" % sorted(txt))
            for ij, q in txt.items():
                if ij[0] < n and ij[1] < n:
                    v.check(abs(float(q[0]) - want[ij]) <= .005 + 1e-9, "text: of cell %s is %s for %s" % (ij, q[0], want[ij]))
        return v
    finally:
        plt.close("all")
