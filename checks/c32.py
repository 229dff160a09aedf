"""Random generation: every admissible structure, sign pattern and corner of the parameter ranges can be drawn.

Existential: for each target the solver looks for draws of the generator that produce it, over all paths of the real code.
A target that no path admits is a counterexample; the replay draws many times from the real generator and confirms that the
target never appears (its probability under the documented construction is far above the resolution of that many draws)."""
import itertools

BOUNDS = {"quick": "biadj(one_pure_child=True): 2..4 measurements, every number of latents (given or drawn), densities 0, 0.3, 0.5, 1, default and "
                   "drawn; 5 measurements with 2 and 3 latents; graphs: 3 and 4 measurements, every edge count, 5 with at most 2; parameters: given "
                   "structures with up to 4 links and 3 measurements, all sign patterns and every pair of parameters at low/high ends",
          "thorough": "5 measurements throughout, graphs with 5 measurements and every edge count up to 4, structures with up to 5 links"}
OUTSIDE = "larger sizes; how probable each outcome is"

DENS = (0.0, 0.3, 0.5, 1.0)
BS = [[[1, 1]], [[1, 0], [0, 1]], [[1, 1, 1]], [[1, 1, 0], [0, 1, 1]], [[1], [1]]]


def configs(tier):
    out = []
    top = 4 if tier == "quick" else 5
    for n in range(2, top + 1):
        for k in range(1, n + 1):
            for d in DENS + ("none",):
                if (n - k) * (k - 1) == 0 and d not in (0.3, "none"):
                    continue
                out.append(dict(kind="pure", n=n, k=k, d=d, weight=n ** 3 * k))
        for d in ("default", "none", 0.6):
            if n < 5:
                out.append(dict(kind="pure", n=n, k=0, d=d, weight=5 * n ** 3))
    if tier == "quick":
        out += [dict(kind="pure", n=5, k=k, d=d, weight=300 * k) for k, d in ((2, 0.3), (2, 0.7), (3, 0.5))]
    for n in (3, 4, 5):
        m = n * (n - 1) // 2
        for e in range(m + 1):
            if n < 5 or e <= (2 if tier == "quick" else 4):
                out.append(dict(kind="graph", n=n, d=(e + 0.1) / m if e < m else 1.0, weight=n ** 3))
    for b in BS + ([[[1, 1, 1], [0, 1, 1]]] if tier != "quick" else []):
        for dt in ("bool", "int64"):
            out.append(dict(kind="mcm", B=b, dt=dt, weight=60 * len(b[0])))
    return out


# ------------------------------------------------------------------ targets
def columns(k, n):
    return itertools.product([c for c in itertools.product((0, 1), repeat=k) if any(c)], repeat=n)


def pure_targets(n, k, d):
    import numpy as np
    out = []
    for K in ([k] if k else range(1, n)):
        m = (n - K) * (K - 1)
        count = None if d == "none" else n + int(np.round((0.2 if d == "default" else d) * m))
        for cols in columns(K, n):
            if all(any(sum(c) == 1 and c[l] for c in cols) for l in range(K)) and (count is None or sum(map(sum, cols)) == count):
                out.append([list(r) for r in zip(*cols)])
    return out


def graph_targets(n, d):
    import numpy as np
    m = n * (n - 1) // 2
    e = int(np.round(d * m))
    return [sorted(c) for c in itertools.combinations(range(m), e)]


def mcm_targets(B):
    links = [(i, j) for i, r in enumerate(B) for j, x in enumerate(r) if x]
    n = len(B[0])
    names = [("w", i) for i in range(len(links))] + [("m", j) for j in range(n)] + [("v", j) for j in range(n)]
    signed = [q for q in names if q[0] != "v"]
    out = [[(q, "+" if s else "-") for q, s in zip(signed, ss)] for ss in itertools.product((0, 1), repeat=len(signed))]
    for p, q in itertools.combinations(names, 2):
        out += [[(p, a), (q, b)] for a in ("lo", "hi") for b in ("lo", "hi")]
    out += [[(p, "+"), (p, a)] for p in signed for a in ("lo", "hi")] + [[(p, "-"), (p, a)] for p in signed for a in ("lo", "hi")]
    return links, out


ENDS = {"w": (0.7, 1.8), "m": (0.2, 1.8), "v": (0.7, 1.8)}


# ------------------------------------------------------------------ solver side
def symbolic(cfg, ctx):
    from symex.harness import E, core, arr, snp, np
    from symex.core import to_frac
    a = E.aig
    kind = cfg["kind"]
    if kind == "pure":
        targets = pure_targets(cfg["n"], cfg["k"], cfg["d"])
    elif kind == "graph":
        targets = graph_targets(cfg["n"], cfg["d"])
    else:
        links, targets = mcm_targets(cfg["B"])
    left = dict(enumerate(targets))
    queries = [0]

    def fn():
        s = ctx.world().load("medil.sample")
        if kind == "mcm":
            B = snp.array([[x for x in r] for r in cfg["B"]], cfg["dt"])
            return s.mcm(rng=ctx.rng(), biadj=B)
        kw = {}
        if cfg["d"] == "none":
            kw["density"] = None
        elif cfg["d"] != "default":
            kw["density"] = cfg["d"]
        if kind == "graph":
            return arr(s.biadj(cfg["n"], one_pure_child=False, rng=ctx.rng(), **kw))
        if cfg["k"]:
            kw["num_latent"] = cfg["k"]
        return arr(s.biadj(cfg["n"], rng=ctx.rng(), **kw))

    def lits(v):
        """target -> literal saying that this path produces it (None: cannot)"""
        if kind == "mcm":
            P = v.parameters
            W, V, M = arr(P.biadj_weights), arr(P.error_variances), arr(P.error_means)
            n = len(cfg["B"][0])
            if W.el.shape != (len(cfg["B"]), n) or V.el.shape != (n,) or M.el.shape != (n,):
                return lambda t: None
            val = {}
            for i, l in enumerate(links):
                val["w", i] = W.el[l]
            for j in range(n):
                val["m", j], val["v", j] = M.el[j], V.el[j]

            def of(t):
                out = []
                for q, c in t:
                    x = val[tuple(q)]
                    lo, hi = ENDS[q[0]]
                    if c in "+-":
                        out.append(core.blit(core.compare(">" if c == "+" else "<", x, 0)))
                    elif c == "lo":
                        out.append(core.blit(core.compare("<", core.absval(x), to_frac(lo))))
                    else:
                        out.append(core.blit(core.compare(">", core.absval(x), to_frac(hi))))
                return a.ANDN(out)
            return of
        B = v
        if B.ndim != 2 or B.el.shape[1] != cfg["n"]:
            return lambda t: None
        bit = [[core.truth(x) for x in r] for r in B.el]
        if kind == "pure":
            def of(t):
                if len(t) != len(bit):
                    return None
                return a.ANDN([l ^ (0 if x else 1) for r, q in zip(bit, t) for l, x in zip(r, q)])
            return of
        n = cfg["n"]
        share = [a.ORN([a.AND(r[i], r[j]) for r in bit]) for i in range(n) for j in range(i + 1, n)]
        return lambda t: a.ANDN([l ^ (0 if x in t else 1) for x, l in enumerate(share)])

    def prop(p):
        if p.exc is not None:
            return []
        of = lits(p.value)
        for i in list(left):
            l = of(left[i])
            if l is None or a.fold(l) == 0:
                continue
            queries[0] += 1
            if a.feasible(l):
                del left[i]
        return []
    res = ctx.run(fn, prop)
    res["obligations"] += len(targets)
    if left and not res["unsupported"] and not res["unknown"] and res["reached"]:
        show = [left[i] for i in list(left)[:: max(1, len(left) // 6)]][:6]
        res["cex"].append(dict(label="unreachable: %d of %d" % (len(left), len(targets)), cfg=dict(cfg, targets=show), inputs={}, draws=[]))
    return res


# ------------------------------------------------------------------ real code
def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    s = rp.light("sample")
    v = rp.V()
    want = cfg.get("targets")
    if want is None:
        return {"violations": v}
    kind = cfg["kind"]
    kw = {}
    if kind != "mcm":
        if cfg["d"] == "none":
            kw["density"] = None
        elif cfg["d"] != "default":
            kw["density"] = cfg["d"]
        if cfg.get("k"):
            kw["num_latent"] = cfg["k"]
        if kind == "graph":
            kw["one_pure_child"] = False
    import contextlib, io
    seen = [0] * len(want)
    N = {"pure": 20000, "graph": 5000, "mcm": 5000}[kind]
    rng = np.random.default_rng(2026)
    made = 0
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        for t in range(N):
            if t % 100 == 0:
                sink.seek(0)
                sink.truncate()
            try:
                if kind == "mcm":
                    m = s.mcm(rng=rng, biadj=np.array(cfg["B"], cfg["dt"]))
                else:
                    B = np.asarray(s.biadj(cfg["n"], rng=rng, **kw)).astype(int)
            except Exception:
                continue
            made += 1
            if kind == "pure":
                key = B.tolist()
                for i, w in enumerate(want):
                    seen[i] += key == w
            elif kind == "graph":
                g = (B.T @ B > 0)[np.triu_indices(cfg["n"], 1)]
                key = np.flatnonzero(g).tolist()
                for i, w in enumerate(want):
                    seen[i] += key == w
            else:
                L = np.array(cfg["B"], bool)
                P = m.parameters
                val = {"w": np.asarray(P.biadj_weights)[L], "m": np.asarray(P.error_means), "v": np.asarray(P.error_variances)}
                for i, w in enumerate(want):
                    ok = True
                    for (q, j), c in w:
                        x = val[q][j]
                        lo, hi = ENDS[q]
                        ok = ok and (x > 0 if c == "+" else x < 0 if c == "-" else abs(x) < lo if c == "lo" else abs(x) > hi)
                    seen[i] += ok
            if all(seen):
                break
    if made:
        for w, c in zip(want, seen):
            v.check(c, "unreachable: never in %d draws: %s" % (made, w))
    return {"violations": v}
