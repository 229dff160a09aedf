"""xicorr: Chatterjee's coefficient from ranks, its p-value, argument checks."""
import itertools, math

BOUNDS = {"quick": "every order type of (x, y), each for all reals of that order type: n <= 4 without ties, n <= 3 with ties (y not constant), plus a third "
                   "of the order types of x at n = 5 without ties; array sizes up to 3 for the argument checks",
          "thorough": "n <= 5 without ties, n <= 4 with ties, 1/20 of the order types of x at n = 6"}
OUTSIDE = "larger samples; constant y (coefficient undefined); the coefficient under ties; non-finite entries; rounding"


def configs(tier):
    out = [dict(kind="p", n=n, ties=t, weight=5) for n in (2, 3) for t in (True, False)]
    out += [dict(kind="p", n=4, ties=False, first=[k], weight=40) for k in range(4)]
    out += [dict(kind="args")]
    if tier == "quick":
        out += [dict(kind="p", n=5, ties=False, first=list(k), weight=100) for k in [(0, 1, 2), (1, 4, 0), (2, 0, 3), (3, 1, 4), (4, 3, 2), (0, 3, 1), (2, 4, 1), (3, 0, 2)]]
    if tier == "thorough":
        out += [dict(kind="p", n=4, ties=True, first=list(k), weight=200) for k in itertools.product(range(4), repeat=2)]
        out += [dict(kind="p", n=5, ties=False, first=list(k), weight=300) for k in itertools.permutations(range(5), 2)]
        out += [dict(kind="p", n=6, ties=False, first=list(k), weight=400) for k in list(itertools.permutations(range(6), 4))[::20]]
    return out


def theory_var(q, cu, n):
    """q: sorted F-ranks (floats or fractions), cu: mean G(1-G)"""
    ai = sum((2 * n - 2 * (i + 1) + 1) * q[i] * q[i] for i in range(n)) / n / n
    ci = sum((2 * n - 2 * (i + 1) + 1) * q[i] for i in range(n)) / n / n
    s, b = 0, 0
    for i in range(n):
        s += q[i]
        b += ((s + (n - i - 1) * q[i]) / n) ** 2
    return (ai - 2 * b / n + ci ** 2) / cu ** 2


def ranks(v, sign=1):
    """average ranks of concrete comparables given as a weak order (list of levels)"""
    n = len(v)
    return [1 + sum(sign * (v[j] - v[i]) < 0 for j in range(n)) + (sum(v[j] == v[i] for j in range(n)) - 1) / 2 for i in range(n)]


def pvalue(xi, ylev, simple):
    from scipy.stats import norm
    import numpy as np
    n = len(ylev)
    with np.errstate(all="ignore"):
        if simple:
            v = np.float64(2 / 5)
        else:
            fr = sorted(r / n for r in ranks(ylev))
            gr = [r / n for r in ranks(ylev, -1)]
            cu = np.float64(sum(g * (1 - g) for g in gr) / n)
            v = theory_var([np.float64(q) for q in fr], cu, n)
        return 1 - float(norm.cdf(math.sqrt(n) * xi / np.sqrt(v)))


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, snp, arr, close
    from fractions import Fraction
    E.cfg["float_sqrt"] = True
    lt = lambda a, b: core.compare("<", a, b)

    def order(v, lev):
        """the entries are in this weak order"""
        for i in range(len(v)):
            for j in range(len(v)):
                if i != j:
                    for op, t in (("<", lev[i] < lev[j]), ("==", lev[i] == lev[j])):
                        c = core.compare(op, v[i], v[j])
                        E.assume(c if t else core.b_not(c))

    cur = {}

    def fn():
        it = ctx.world().load("medil.independence_testing")
        if cfg["kind"] == "args":
            out = []
            for a, b in itertools.product(range(4), repeat=2):
                x = ctx.reals("x%d%d" % (a, b), (a,))
                y = ctx.reals("y%d%d" % (a, b), (b,))
                if a == b and a:
                    continue
                try:
                    r = it.xicorr(x, y)
                    out.append((a, b, "ok", r[0], r[1]))
                except ValueError:
                    out.append((a, b, "ValueError", None, None))
            # array_like, flattened
            x, y = ctx.reals("X", (2, 2)), ctx.reals("Y", (2, 2))
            order(list(x.el.reshape(-1)), cur["x"])
            order(list(y.el.reshape(-1)), cur["y"])
            r1 = it.xicorr(x, y)
            r2 = it.xicorr([x[0, 0], x[0, 1], x[1, 0], x[1, 1]], [y[0, 0], y[0, 1], y[1, 0], y[1, 1]])
            return out, r1, r2
        n = cfg["n"]
        x, y = ctx.reals("x", (n,)), ctx.reals("y", (n,))
        order(list(x.el), cur["x"])
        order(list(y.el), cur["y"])
        a = it.xicorr(x.copy(), y.copy())
        b = it.xicorr(x.copy(), y.copy(), ties=False)
        c = it.xicorr(x.copy(), y.copy(), True)
        return a, b, c, cur["x"], cur["y"]

    def nan(v):
        return isinstance(v, float) and v != v

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        if cfg["kind"] == "args":
            out, r1, r2 = p.value
            obs = []
            for a, b, k, v, w in out:
                if a != b:
                    obs.append(Ob("sizes %d,%d: %s" % (a, b, k), k == "ValueError"))
                else:
                    obs.append(Ob("empty: %s %s %s" % (k, v, w), k == "ok" and nan(v) and nan(w)))
            return obs + [close("array_like correlation", r1[0], r2[0]), close("array_like p-value", r1[1], r2[1])]
        n = cfg["n"]
        a, b, c, lx, ly = p.value
        obs = []
        for nm, r, simple in (("default", a, False), ("ties=False", b, True), ("ties=True", c, False)):
            if core.is_sym(r[0]) or core.is_sym(r[1]):
                raise core.Unsupported("coefficient not determined by the order type")
            obs.append(close("p-value (%s)" % nm, float(r[1]), pvalue(float(r[0]), ly, simple)))
            if len(set(lx)) == n and len(set(ly)) == n:
                perm = sorted(range(n), key=lambda i: lx[i])
                t = sum(abs(ly[i] - ly[j]) for i, j in zip(perm, perm[1:]))
                obs.append(close("correlation (%s)" % nm, r[0], 1 - Fraction(3 * t, n * n - 1)))
        return obs
    if cfg["kind"] == "args":
        for lx in ([0, 1, 2, 3], [2, 0, 3, 1], [1, 0, 1, 2]):
            for ly in ([0, 1, 2, 3], [3, 0, 2, 1], [0, 0, 1, 0]):
                cur.update(x=lx, y=ly)
                ctx.run(fn, prop)
        return ctx.res
    f = cfg.get("first")
    for lx in weak_orders(cfg["n"], cfg["ties"]):
        if f is not None and [lx[i] for i in range(len(f))] != f:
            continue
        for ly in weak_orders(cfg["n"], cfg["ties"]):
            if len(set(ly)) > 1:
                cur.update(x=lx, y=ly)
                ctx.run(fn, prop, observe=lambda v: [v[0][0], v[0][1], v[1][1]])
    return ctx.res


def weak_orders(n, ties):
    return [list(t) for t in itertools.product(range(n), repeat=n) if len(set(t)) == (max(t) + 1 if ties else n)]


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    it = rp.light("independence_testing")
    v = rp.V()
    try:
        if cfg["kind"] == "args":
            for a, b in itertools.product(range(4), repeat=2):
                x, y = inp["x%d%d" % (a, b)], inp["y%d%d" % (a, b)]
                if a == b and a:
                    continue
                try:
                    r = it.xicorr(x, y)
                    v.check(a == b and np.isnan(r[0]) and np.isnan(r[1]), "sizes %d,%d: %s" % (a, b, r))
                except ValueError:
                    v.check(a != b, "sizes: %d,%d raises ValueError" % (a, b))
            r1 = it.xicorr(inp["X"], inp["Y"])
            r2 = it.xicorr(inp["X"].ravel().tolist(), inp["Y"].ravel().tolist())
            v.check(np.allclose(r1, r2), "array_like: %s %s" % (r1, r2))
            return {"violations": v}
        x, y = inp["x"], inp["y"]
        n = len(x)
        r = it.xicorr(x.copy(), y.copy())
        s = it.xicorr(x.copy(), y.copy(), ties=False)
        if len(set(x)) == n and len(set(y)) == n:
            rk = y.argsort().argsort()[x.argsort()]
            want = 1 - 3 * np.abs(np.diff(rk)).sum() / (n * n - 1)
            for q in (r, s):
                v.check(abs(q[0] - want) < 1e-6, "correlation: %s instead of %s for x=%s y=%s" % (q[0], want, x, y))
        if len(set(y)) > 1:
            ly = [sum(b < a for b in y) for a in y]
            for nm, q, simple in (("default", r, False), ("ties=False", s, True)):
                w = pvalue(float(q[0]), ly, simple)
                v.check(abs(q[1] - w) < 1e-6 or (q[1] != q[1] and w != w), "p-value: (%s) %s instead of %s for x=%s y=%s" % (nm, q[1], w, x, y))
        return {"violations": v, "output": [float(r[0]), float(r[1]), float(s[1])]}
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
