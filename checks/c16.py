"""biadj(one_pure_child=False): exact number of edges, valid minimum cover, ValueError."""
import itertools
from . import graphs as G

BOUNDS = {"quick": "composed with the real cover algorithm: every graph with n <= 5 measurements and every edge count (6 with at most 2 or at least 14 "
                   "edges), any real density for n <= 3; up to the call of find_clique_min_cover: n <= 7, any real density for n <= 4; every arrangement drawn"
                   "; the call of find_clique_min_cover for up to 15 measurements",
          "thorough": "composed: every graph with n <= 6; up to the call: n <= 9, any real density n <= 6"}
OUTSIDE = "larger graphs; the distribution over the graphs"


def _dens(n, k):
    m = n * (n - 1) // 2
    if m == 0:
        return [0.0, 0.7][k % 2]
    d = (k + (0.3 if (n + k) % 2 else -0.4)) / m
    return min(1.0, max(0.0, d))


def configs(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3, 4, 5, 6):
        m = n * (n - 1) // 2
        for k in range(m + 1):
            if n < 6 or not q or k <= 2 or k >= 14:
                from math import comb
                c = comb(m, k)
                if c > 130:
                    out += [dict(kind="full", n=n, d=_dens(n, k), pick=list(p), weight=c / 16) for p in itertools.product((0, 1), repeat=4)]
                else:
                    out.append(dict(kind="full", n=n, d=_dens(n, k), weight=c))
        if n <= 3:
            out.append(dict(kind="full", n=n, d="sym", weight=20))
    out += [dict(kind="full", n=n, d=d) for n in (2, 3, 4) for d in ("default", 0.5)]
    top = 7 if q else 9
    for n in range(2, top + 1):
        m = n * (n - 1) // 2
        out += [dict(kind="stub", n=n, d=_dens(n, k)) for k in sorted({0, 1, m // 3, m // 2, m - 1, m})]
        if n <= (4 if q else 6):
            out.append(dict(kind="stub", n=n, d="sym", weight=n * n))
    out += [dict(kind="stub", n=n, d=d, samples=1) for n, d in ((8, .5), (9, .3), (12, .1), (11, .9), (15, .5))]
    out += [dict(kind="error", n=n) for n in (1, 3)]
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, SArray, np, snp, AND
    n = cfg["n"]

    def fn():
        s = ctx.world().load("medil.sample")
        if cfg["kind"] == "error":
            k = ctx.ints("k", (), 1, 5).item()
            ctx.inputs["k"] = k
            try:
                r = s.biadj(n, one_pure_child=False, num_latent=k, rng=ctx.rng())
            except ValueError:
                return "ValueError"
            return "returned %r" % (r,)
        kw = {}
        d = cfg["d"]
        if d == "sym":
            d = ctx.real("density", 0, 1)
        if d != "default" if not core.is_sym(d) else True:
            kw["density"] = d
        else:
            d = 0.2
        args = []
        if cfg["kind"] == "stub":
            def cover(A):
                A = arr(A)
                args.append(A.copy())
                rows = [[(v in p) + 0 for v in range(n)] for p in G.pairs(n)] + [[1] + [0] * (n - 1)]
                return snp.array(rows)
            s.__dict__["find_clique_min_cover"] = cover
        if cfg.get("pick"):
            pass
        r = arr(s.biadj(n, one_pure_child=False, rng=ctx.rng(), **kw))
        if cfg["kind"] == "stub" and len(args) != 1:
            raise core.Unsupported("find_clique_min_cover not called once through the module")
        return r, d, args

    def edges_ob(lits, d):
        """number of edges is round(d * n(n-1)/2)"""
        m = n * (n - 1) // 2
        cnt = core.count_true(lits)
        if not core.is_sym(d):
            return [Ob("number of edges", core.compare("==", cnt, int(np.round(d * m))))]
        half = core.to_frac(0.5)
        e = core.absval(core.arith("-", cnt, core.arith("*", m, d)))
        obs = [Ob("number of edges", core.compare("<=", e, half), [core.compare(">", e, core.to_frac(0.6))])]
        for t in range(m):
            at = core.compare("==", core.arith("*", m, d), core.arith("+", t, half))
            obs.append(Ob("number of edges (half way)", E.aig.OR(core.blit(at) ^ 1, core.blit(core.compare("==", cnt, t + t % 2)))))
        return obs

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        if cfg["kind"] == "error":
            return [Ob(p.value, p.value == "ValueError")]
        B, d, args = p.value
        a = E.aig
        obs = [Ob("dtype %s" % B.dtype, B.dtype.kind == "b")]
        if B.ndim != 2 or B.el.shape[1] != n:
            return obs + [Ob("shape %s" % (B.el.shape,), False)]
        if cfg["kind"] == "stub":
            A = args[0]
            if A.el.shape != (n, n):
                return obs + [Ob("graph shape", False)]
            e = G.edge_lits(A, n)
            obs += [Ob("graph diagonal", e[i, i]) for i in range(n)]
            obs += [Ob("graph symmetric", a.XOR(e[i, j], e[j, i]) ^ 1) for i, j in G.pairs(n)]
            obs.append(Ob("graph entries", AND(*[core.compare("<=", core.as_number(x) if hasattr(core, "as_number") else x, 1) for x in A.el.reshape(-1)])))
            want = [[v in pr for v in range(n)] for pr in G.pairs(n)] + [[True] + [False] * (n - 1)]
            ok = B.el.shape == (len(want), n)
            obs.append(Ob("cover returned as biadjacency", ok and a.ANDN([core.truth(B.el[r, v]) ^ (0 if want[r][v] else 1) for r in range(len(want)) for v in range(n)])))
            return obs + edges_ob([e[p] for p in G.pairs(n)], d)
        b = [[core.truth(x) for x in row] for row in B.el]
        share = {(i, j): a.ORN([a.AND(r[i], r[j]) for r in b]) for i, j in G.pairs(n)}
        obs += edges_ob([share[p] for p in G.pairs(n)], d)
        obs += [Ob("measurement %d without parent" % i, a.ORN([r[i] for r in b])) for i in range(n)]
        sizes = [core.count_true(r) for r in b]
        k = core.count_true([core.blit(core.compare(">=", s, 2)) for s in sizes])
        m = int(core.conc(k)) if hasattr(core, "conc") else int(k)
        if m > 0:
            x = [[a.new_input("cover%d,%d" % (r, v)) for v in range(n)] for r in range(m - 1)]
            valid = a.ANDN([a.XOR(a.ORN([a.AND(r[i], r[j]) for r in x]), share[i, j]) ^ 1 for i, j in G.pairs(n)])
            obs.append(Ob("%d latents with several children but %d suffice" % (m, m - 1), valid ^ 1))
        for i in range(n):
            iso = a.ANDN([share[min(i, j), max(i, j)] ^ 1 for j in range(n) if j != i])
            rows = core.count_true([a.AND(r[i], core.blit(core.compare("<", s, 2))) for r, s in zip(b, sizes)])
            obs.append(Ob("latents with the single child %d" % i, core.compare("==", rows, core.mk_union([(iso, 1), (iso ^ 1, 0)]))))
        return obs
    if cfg.get("pick"):
        # restrict the first drawn positions (splits the work)
        def fn2(f=fn):
            names = ["caller.0.permutation~%d" % i for i in range(len(cfg["pick"]))]
            for nm, v in zip(names, cfg["pick"]):
                E.assume(core.mkb(E.aig.new_input(nm) ^ (0 if v else 1)))
            return f()
        return ctx.run(fn2, prop, observe=lambda v: v[0])
    return ctx.run(fn, prop, observe=(lambda v: v[0]) if cfg["kind"] == "full" else None)


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    s = rp.fresh("sample")
    v = rp.V()
    n = cfg["n"]
    if cfg["kind"] == "error":
        try:
            s.biadj(n, one_pure_child=False, num_latent=int(inp["k"]), rng=np.random.default_rng(0))
            v.check(False, "no ValueError for num_latent=%s" % inp["k"])
        except ValueError:
            pass
        except Exception as e:
            v.check(False, "raises: %r" % e)
        return {"violations": v}
    d = inp.get("density", cfg["d"])
    kw = {} if d == "default" else {"density": d}
    if d == "default":
        d = 0.2
    args = []
    if cfg["kind"] == "stub":
        def cover(A):
            args.append(np.array(A))
            return np.array([[int(x in p) for x in range(n)] for p in G.pairs(n)] + [[1] + [0] * (n - 1)])
        s.find_clique_min_cover = cover
    try:
        B = np.asarray(rp.limited(s.biadj, n, one_pure_child=False, rng=rp.ScriptedRng(draws), **kw))
    except rp.Mismatch:
        raise
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    v.check(B.dtype == bool, "dtype: %s" % B.dtype)
    if not v.check(B.ndim == 2 and B.shape[1] == n, "shape: %s" % (B.shape,)):
        return {"violations": v}
    m = n * (n - 1) // 2
    want = int(np.round(d * m))
    near = abs(d * m % 1 - .5) < 1e-9 and cfg["d"] == "sym"
    if cfg["kind"] == "stub":
        if len(args) != 1:
            raise rp.Mismatch("find_clique_min_cover")
        A = args[0]
        if v.check(A.shape == (n, n), "graph: shape"):
            v.check((A.astype(int) == A.astype(int).T).all() and (np.diag(A) != 0).all() and np.isin(A.astype(float), (0, 1)).all(), "graph: %s" % A.astype(int).tolist())
            k = int(np.triu(A.astype(bool), 1).sum())
            v.check(k == want or near and abs(k - d * m) <= .5 + 1e-9, "edges: %d instead of %d (density %s)" % (k, want, d))
            v.check(B.astype(int).tolist() == [[int(x in p) for x in range(n)] for p in G.pairs(n)] + [[1] + [0] * (n - 1)], "cover: not returned as is")
        return {"violations": v}
    b = B.astype(int)
    S = (b.T @ b > 0)
    k = int(np.triu(S, 1).sum())
    v.check(k == want or near and abs(k - d * m) <= .5 + 1e-9, "edges: %d instead of %d (density %s)" % (k, want, d))
    v.check(B.any(0).all(), "parent: measurement without parent: %s" % b.tolist())
    big = int((b.sum(1) > 1).sum())
    A = S.astype(int)
    mc = G.min_cover_size(A.tolist())
    v.check(big == mc, "minimum: %d latents with several children, %d suffice" % (big, mc))
    for i in range(n):
        iso = S[i].sum() <= 1
        v.check(int(((b.sum(1) <= 1) & (b[:, i] > 0)).sum()) == int(iso), "singleton latent of %d" % i)
    return {"violations": v, "output": rp.enc(B)}
