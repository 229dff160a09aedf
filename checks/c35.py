"""NCFA: which rows are trained and validated on, standardisation, the seed; its structure estimate."""
import shutil, tempfile
from . import ncfa

BOUNDS = {"quick": "1..2 measurements, 3..7 rows, batch sizes 1..4, with and without given indices (in any of several orders, with repetitions, lists and arrays), two "
                   "seeds, also after an earlier fit of the object to other data; arbitrary data and network outputs; structure: every graph with 2..4 measurements, arbitrary level, three methods"
                   "; 9 measurements, 12 rows with a few free entries",
          "thorough": "up to 3 measurements and 11 rows; graphs with 5 measurements"}
OUTSIDE = "larger data; constant columns; which of the equally likely random splits is drawn (sklearn's)"


def configs(tier):
    q = tier == "quick"
    out = []
    for m, N, b in [(1, 3, 1), (1, 4, 2), (2, 3, 4), (1, 5, 2), (1, 7, 3), (2, 4, 2)] + ([] if q else [(3, 5, 2), (1, 11, 4), (2, 10, 3)]):
        out.append(dict(kind="random", m=m, N=N, b=b, weight=m * N * N))
    for m, N, b, tr, va in [(1, 3, 1, [2, 0], [1]), (2, 4, 2, [3, 1, 0], [2]), (1, 5, 2, [4, 4, 1], [0, 2]), (2, 3, 2, [0], [0, 1, 2]), (1, 4, 4, [1, 2], [3, 0])]:
        for lists in (True, False):
            out.append(dict(kind="given", m=m, N=N, b=b, tr=tr, va=va, lists=lists, weight=m * N * 2))
    out.append(dict(kind="given", m=1, N=4, b=2, tr=[True, False, True, True], va=[False, True, False, False], lists=False, weight=8))
    for n in (2, 3, 4) + (() if q else (5,)):
        out.append(dict(kind="udg", n=n, weight=2 ** n))
        for meth in ("xicor", "dcov_fast", "dcov_big"):
            out.append(dict(kind="est", n=n, method=meth, weight=2 ** n))
    out += [dict(kind="random", m=1, N=4, b=2, again=True, weight=20), dict(kind="random", m=2, N=3, b=2, again=True, weight=20),
            dict(kind="given", m=1, N=4, b=2, tr=[3, 1, 0], va=[2], lists=True, again=True, weight=10)]
    out += [dict(kind="est", n=n, method=m, sparse=4, spseed=n, samples=1, weight=40) for n, m in ((7, "xicor"), (9, "dcov_fast"))] + [dict(kind="udg", n=8, sparse=5, samples=1, weight=40)]
    out += [dict(kind="given", m=3, N=9, b=4, tr=[8, 0, 3, 5, 5, 1], va=[2, 7], lists=True, sparse=2, samples=1, weight=40), dict(kind="random", m=1, N=12, b=5, sparse=2, samples=1, weight=40)]
    out.append(dict(kind="default", n=3, weight=8))
    return out


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, close, AND, OR
    ar = core.arith
    if cfg["kind"] in ("udg", "est", "default"):
        return struct(cfg, ctx)
    m, N, b = cfg["m"], cfg["N"], cfg["b"]

    def fn():
        X = ctx.reals("X", (N, m))
        for c in range(m):
            E.assume(core.compare("!=", X.el[0, c], X.el[1, c]))
        runs = []
        for seed, mix in ((0, 0), (0, 1), (1, 0)) if cfg["kind"] == "random" else ((0, 0),):
            w = ctx.world()
            md = w.load("medil.models")
            ncfa.stub(w, md)
            real = md.__dict__.get("train_test_split")
            n_call = []

            def split(*arrs, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
                n_call.append(random_state)
                r = (int(random_state) + 1 if isinstance(random_state, (int, np.integer)) else 5 + mix) if shuffle else 0
                n = len(arrs[0])
                order = [(i * (1 if r % 2 else n - 1) + r) % n for i in range(n)]
                out = []
                for A in arrs:
                    out += real(arr(A)[order], test_size=test_size, train_size=train_size, random_state=random_state, shuffle=False)
                return out
            if cfg["kind"] == "random":
                if real is None:
                    raise core.Unsupported("no train_test_split")
                md.__dict__["train_test_split"] = split
            M = md.NeuroCausalFactorAnalysis(path="out/", seed=seed)
            M.hyperparams.update(batch_size=b, num_epochs=1)
            if cfg.get("again"):
                M.fit(snp.array(ncfa._earlier(N + 2, m)), *([] if cfg["kind"] == "random" else [([4, 0], [2, 1])]))
                n_call.clear()
            ev0 = len(E.cfg.get("torch", []))
            if cfg["kind"] == "random":
                M.fit(X.copy())
                if not n_call:
                    raise core.Unsupported("train_test_split not called through the module")
            else:
                idx = (cfg["tr"], cfg["va"]) if cfg["lists"] else (snp.array(cfg["tr"]), snp.array(cfg["va"]))
                M.fit(X.copy(), idx)
            ev = [e[1] for e in E.cfg.get("torch", [])[ev0:] if e[0] == "vae"]
            runs.append(([list(r) for e in ev if e["training"] for r in arr(e["x"]).el], [list(r) for e in ev if not e["training"] for r in arr(e["x"]).el],
                         [arr(e["x"]).el.shape[0] for e in ev if e["training"]], [arr(e["x"]).el.shape[0] for e in ev if not e["training"]]))
        return X, runs

    def sizes(n):
        return [b] * (n // b) + ([n % b] if n % b else [])

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        X, runs = p.value
        obs = []
        if cfg["kind"] == "given":
            tr, va = [[i for i, t in enumerate(v) if t] if v and isinstance(v[0], bool) else v for v in (cfg["tr"], cfg["va"])]
            T, V, st, sv = runs[0]
            if len(T) != len(tr) or len(V) != len(va):
                return [Ob("%d training and %d validation rows" % (len(T), len(V)), False)]
            for nm, rows, idx in (("training", T, tr), ("validation", V, va)):
                for r, i in zip(rows, idx):
                    obs += [close("%s row" % nm, r[j], X.el[i, j]) for j in range(m)]
            return obs + [Ob("training batches %s" % st, st == sizes(len(tr))), Ob("validation batches %s" % sv, sv == sizes(len(va)))]
        # standardised data
        Z = np.empty((N, m), object)
        for j in range(m):
            mean = 0
            for i in range(N):
                mean = ar("+", mean, X.el[i, j])
            mean = ar("/", mean, N)
            var = 0
            for i in range(N):
                d = ar("-", X.el[i, j], mean)
                var = ar("+", var, ar("*", d, d))
            sd = core.sr_sqrt(ar("/", var, N))
            for i in range(N):
                Z[i, j] = ar("/", ar("-", X.el[i, j], mean), sd)
        k = int(0.7 * N)
        ids = []
        for T, V, st, sv in runs:
            if len(T) != k or len(V) != N - k:
                return [Ob("%d training and %d validation rows" % (len(T), len(V)), False)]
            obs += [Ob("training batches %s" % st, st == sizes(k)), Ob("validation batches %s" % sv, sv == sizes(N - k))]
            r = ncfa.row_ids(core, T + V, [list(z) for z in Z])
            if None in r:
                # not syntactically a standardised row: decided row by row under every assignment of rows
                for q, row in enumerate(T + V):
                    if r[q] is None:
                        obs.append(Ob("row %d is not a standardised row" % q, OR(*[AND(*[core.compare("==", row[j], Z[i, j]) for j in range(m)]) for i in range(N)])))
                return obs
            obs.append(Ob("rows used: %s" % r, sorted(r) == list(range(N))))
            ids.append((r[:k], r[k:]))
        obs.append(Ob("the split depends on more than the seed: %s, %s" % (ids[0], ids[1]), ids[0] == ids[1]))
        obs.append(Ob("the seed is ignored", ids[0] != ids[2]))
        return obs
    return ctx.run(fn, prop)


def struct(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np, close, same_array, S, IFF
    n = cfg["n"]

    def fn():
        A = ctx.graph("A", n, "bool")
        X = ctx.reals("X", (2, n))
        alpha = ctx.real("alpha", 0, 1)
        w = ctx.world()
        md, ec = w.load("medil.models"), w.load("medil.ecc_algorithms")
        ref = arr(ec.find_heuristic_1pc(A.copy()))
        calls = []
        if "estimate_UDG" not in md.__dict__:
            raise core.Unsupported("no estimate_UDG in models")

        def est(sample, method="dcov_fast", significance_level=0.05):
            calls.append((arr(sample).copy(), method, significance_level))
            return A.copy(), snp.array(np.zeros((n, n)))
        md.__dict__["estimate_UDG"] = est
        M = md.NeuroCausalFactorAnalysis(path="out/", **(dict(udg=A.copy()) if cfg["kind"] == "udg" else {}))
        if not hasattr(M, "_compute_biadj"):
            raise core.Unsupported("no _compute_biadj")
        M.dataset = X.copy()
        if cfg["kind"] == "est":
            M.hyperparams.update(method=cfg["method"], alpha=alpha)
        M._compute_biadj()
        if cfg["kind"] != "udg" and not calls:
            raise core.Unsupported("estimate_UDG not called through the module")
        return A, X, alpha, ref, calls, arr(M.udg), arr(M.biadj)

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        A, X, alpha, ref, calls, U, B = p.value
        obs = []
        if cfg["kind"] == "udg":
            obs.append(Ob("a given graph is estimated again", not calls))
        for s, meth, lev in calls:
            want = (cfg["method"], alpha) if cfg["kind"] == "est" else ("xicor", 0.05)
            obs += same_array("sample tested", s, X)
            obs.append(Ob("method %r" % (meth,), meth == want[0]))
            obs.append(close("level", lev, want[1]))
        if U.el.shape != (n, n) or B.el.shape != ref.el.shape:
            return obs + [Ob("shapes %s %s" % (U.el.shape, B.el.shape), False)]
        obs += [Ob("graph %s" % (i,), IFF(core.truth(U.el[i]), core.truth(A.el[i]))) for i in np.ndindex(n, n) if i[0] != i[1]]
        obs += [Ob("structure %s" % (i,), IFF(core.truth(B.el[i]), core.truth(ref.el[i]))) for i in np.ndindex(*ref.el.shape)]
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np, torch
    from . import rp
    v = rp.V()
    md = rp.light("models")
    d = tempfile.mkdtemp()
    try:
        if cfg["kind"] in ("udg", "est", "default"):
            n = cfg["n"]
            A = np.asarray(inp["A"]).astype(bool)
            X = np.asarray(inp["X"], float)
            ref = rp.light("ecc_algorithms").find_heuristic_1pc(A.copy())
            calls = []
            keep = md.estimate_UDG

            def est(sample, method="dcov_fast", significance_level=0.05):
                calls.append((np.array(sample), method, significance_level))
                return A.copy(), np.zeros((n, n))
            md.estimate_UDG = est
            try:
                M = md.NeuroCausalFactorAnalysis(path=d + "/", **(dict(udg=A.copy()) if cfg["kind"] == "udg" else {}))
                M.dataset = X.copy()
                want = ("xicor", 0.05)
                if cfg["kind"] == "est":
                    want = (cfg["method"], float(inp["alpha"]))
                    M.hyperparams.update(method=want[0], alpha=want[1])
                M._compute_biadj()
            except Exception as e:
                return {"violations": ["raises %r" % e]}
            finally:
                md.estimate_UDG = keep
            if cfg["kind"] == "udg":
                v.check(not calls, "graph: a given graph is estimated again")
            for s, meth, lev in calls:
                v.check(np.array_equal(s, X), "sample: another sample is tested")
                v.check(meth == want[0] and lev == want[1], "test: %s at %s instead of %s" % (meth, lev, want))
            U, B = np.asarray(M.udg), np.asarray(M.biadj)
            v.check(U.shape == (n, n) and (U.astype(bool) == A)[~np.eye(n, dtype=bool)].all(), "graph: %s instead of %s" % (U.tolist(), A.tolist()))
            v.check(B.shape == ref.shape and (B.astype(bool) == ref).all(), "structure: %s instead of %s" % (B.tolist(), ref.tolist()))
            return v
        X = np.asarray(inp["X"], float)
        N, m, b = cfg["N"], cfg["m"], cfg["b"]
        if max(abs(X).max(), 1) > 1e4 or len(np.unique(X.round(3), axis=0)) < N or (X.std(0) < 1e-3).any():
            X = np.random.default_rng(1).normal(size=(N, m))
        vae = rp.light("vae")
        cls = vae.VariationalAutoencoder
        old = cls.forward

        def run(seed, world, idx=None):
            ev = []

            def forward(self, x):
                ev.append((self.training, x.detach().clone().numpy().astype(float)))
                return old(self, x)
            np.random.seed(world)
            torch.manual_seed(world)
            M = md.NeuroCausalFactorAnalysis(path=d + "/", seed=seed)
            M.hyperparams.update(batch_size=b, num_epochs=1)
            if cfg.get("again"):
                M.fit(np.array(ncfa._earlier(N + 2, m)), *([] if idx is None else [([4, 0], [2, 1])]))
            cls.forward = forward
            try:
                M.fit(X.copy(), *([] if idx is None else [idx]))
            finally:
                cls.forward = old
            return [[e[1] for e in ev if e[0] == t] for t in (True, False)]

        def sizes(n):
            return [b] * (n // b) + ([n % b] if n % b else [])
        try:
            if cfg["kind"] == "given":
                idx = (cfg["tr"], cfg["va"]) if cfg["lists"] else (np.array(cfg["tr"]), np.array(cfg["va"]))
                T, V = run(0, 1, idx)
                for nm, got, i in (("training", T, idx[0]), ("validation", V, idx[1])):
                    want = X[np.asarray(i)]
                    rows = np.concatenate(got) if got else np.zeros((0, m))
                    v.check(rows.shape == want.shape and np.allclose(rows, want, rtol=1e-5, atol=1e-5), "%s rows: %s instead of %s" % (nm, rows.tolist(), want.tolist()))
                    v.check([len(g) for g in got] == sizes(len(want)), "%s batches: %s" % (nm, [len(g) for g in got]))
                return v
            Z = (X - X.mean(0)) / X.std(0)
            k = int(0.7 * N)

            def ids(seed, world):
                T, V = run(seed, world)
                v.check([len(g) for g in T] == sizes(k) and [len(g) for g in V] == sizes(N - k), "batches: %s training, %s validation" % ([len(g) for g in T], [len(g) for g in V]))
                rows = np.concatenate(T + V)
                dist = abs(rows[:, None, :] - Z[None]).max(2)
                if not v.check((dist.min(1) < 1e-4).all(), "rows: %s are not standardised rows of the data" % rows.tolist()):
                    return None
                r = dist.argmin(1).tolist()
                v.check(sorted(r) == list(range(N)), "rows: used are %s" % r)
                return r
            a = [ids(s, 1) for s in range(6)]
            bb = [ids(s, 2) for s in range(6)]
            v.check(a == bb, "split: %s, later %s" % (a, bb))
            v.check(len(set(map(str, a))) > 1 or None in a, "seed: every seed gives %s" % a[0])
        except Exception as e:
            v.check("finite" in str(e) or "singular" in str(e), "raises %r" % e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return v
