"""Exact first and second moments of outputs that are affine in recorded normal draws.

Solver side: coefficients of the symbolic output; replay side: a generator that hands out unit vectors
instead of random numbers, so the real code's coefficients can be read off."""


# ------------------------------------------------------------------ solver side
def moment_obs(out, want_mean, want_cov, groups, own=None):
    """obligations that the entries of `out` (list of scalars) have these means and covariances.

    want_mean[i], want_cov(i, j): scalars;  own: label of the only stream allowed (None: any)"""
    import z3
    from symex.harness import Ob, E, core, close
    reg = E.cfg.get("normals", {})
    P = core.the_poly()
    obs = []
    rows = []
    for k, o in enumerate(out):
        z = core.real_z3(o)
        vs = _vars(z)
        ds = [v for v in vs if str(v) in reg]
        for v in vs:
            if str(v) in reg and own is not None and reg[str(v)][1] != own:
                return [Ob("draw from another generator (%s)" % reg[str(v)][1], False)]
            if "." in str(v) and str(v) not in reg and ("rng", str(v)) in E.defs:
                raise core.Unsupported("non-normal draw %s" % v)
        # affine in the draws?
        at = {P.atom(v) and list(P.atom(v))[0][0][0]: v for v in ds}
        poly = P.of(z)
        for m in poly:
            deg = sum(abs(e) for a, e in m if a in at)
            if deg > 1 or any(e < 0 for a, e in m if a in at):
                raise core.Unsupported("output not affine in the normal draws")
        zero = [(v, z3.RealVal(0)) for v in ds]
        c0 = z3.substitute(z, *zero) if ds else z
        co = {}
        for v in ds:
            one = [(w, z3.RealVal(1 if w is v or w.eq(v) else 0)) for w in ds]
            co[str(v)] = core.SR(z3.simplify(z3.substitute(z, *one) - c0))
        rows.append((core.SR(z3.simplify(c0)), co))

    def mean_of(nm):
        r = reg[nm]
        return 0 if r[0] == "std" else r[4].el[r[3]]

    def cov_of(a, b):
        p, q = reg[a], reg[b]
        if p[0] == "std" or q[0] == "std":
            return 1 if a == b else 0
        if p[2] != q[2]:
            return 0
        return p[5].el[p[3], q[3]]
    for k, (c0, co) in enumerate(rows):
        m = c0
        for nm, c in co.items():
            mu = mean_of(nm)
            if core.is_sym(mu) or mu != 0:
                m = core.arith("+", m, core.arith("*", c, mu))
        obs.append(close("mean of entry %s" % (groups[k],), m, want_mean[k]))
    for k in range(len(rows)):
        for l in range(k, len(rows)):
            t = 0
            for a, ca in rows[k][1].items():
                for b, cb in rows[l][1].items():
                    s = cov_of(a, b)
                    if core.is_sym(s) or s != 0:
                        t = core.arith("+", t, core.arith("*", core.arith("*", ca, cb), s))
            obs.append(close("covariance of entries %s and %s" % (groups[k], groups[l]), t, want_cov(groups[k], groups[l])))
    return obs


def _vars(z):
    import z3
    seen, out, todo = set(), [], [z]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        todo += t.children()
    return out


# ------------------------------------------------------------------ replay side
def probe_class():
    import numpy as np

    class Probe(np.random.Generator):
        """normal draws come from a prescribed vector; records mean and covariance of each draw"""

        def __new__(cls, *a):
            return np.random.Generator.__new__(cls)

        def __init__(self):
            super().__init__(np.random.PCG64(0))
            self.set(None)

        def set(self, unit):
            self.unit, self.n, self.specs = unit, 0, []

        def _take(self, cnt):
            v = np.zeros(cnt)
            if self.unit is not None and self.n <= self.unit < self.n + cnt:
                v[self.unit - self.n] = 1.0
            self.n += cnt
            return v

        def standard_normal(self, size=None, dtype=float, out=None):
            sh = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
            k = int(np.prod(sh)) if sh else 1
            self.specs += [("std", None)] * k
            r = self._take(k).reshape(sh)
            return r if sh else float(r)

        def normal(self, loc=0.0, scale=1.0, size=None):
            sh = np.broadcast_shapes(np.shape(loc), np.shape(scale)) if size is None else size
            z = np.asarray(self.standard_normal(sh if sh != () else None))
            r = np.asarray(loc) + np.asarray(scale) * z
            return r if r.ndim else float(r)

        def multivariate_normal(self, mean, cov, size=None, **k):
            mean, cov = np.asarray(mean, float), np.asarray(cov, float)
            sh = () if size is None else (size,) if np.ndim(size) == 0 else tuple(size)
            n = len(mean)
            cnt = int(np.prod(sh)) if sh else 1
            for _ in range(cnt):
                blk = object()
                self.specs += [("mvn", (blk, j, mean, cov)) for j in range(n)]
            # an affine stand-in: the draw itself (mean and covariance are kept in specs)
            return self._take(cnt * n).reshape(sh + (n,))
    return Probe


def probe(call, gen):
    """call() -> output array, driven by gen; (mean vector, covariance matrix) or a message"""
    import numpy as np
    gen.set(None)
    base = np.asarray(call(), float)
    specs, n = list(gen.specs), gen.n
    gen.set(None)
    if not np.allclose(base, np.asarray(call(), float)):
        return "another source of randomness"
    cols = []
    for k in range(n):
        gen.set(k)
        o = np.asarray(call(), float)
        if gen.n != n or o.shape != base.shape:
            return "number of draws varies"
        cols.append((o - base).ravel())
    J = np.array(cols).T.reshape(base.size, n)
    mu = np.zeros(n)
    S = np.zeros((n, n))
    for a, (t, x) in enumerate(specs):
        if t == "std":
            S[a, a] = 1
        else:
            mu[a] = x[2][x[1]]
            for b, (u, y) in enumerate(specs):
                if u == "mvn" and y[0] is x[0]:
                    S[a, b] = x[3][x[1], y[1]]
    return base, J @ mu + base.ravel(), J @ S @ J.T


def torch_probe(gen):
    """torch's normal draws come from gen while the context is active"""
    import contextlib, torch
    names = ("randn", "randn_like", "normal")

    @contextlib.contextmanager
    def cm():
        old = {n: getattr(torch, n) for n in names}
        oldm = torch.Tensor.normal_

        def t(x):
            return torch.as_tensor(x, dtype=torch.float64)

        def normal_(self, mean=0, std=1, generator=None):
            with torch.no_grad():
                return self.copy_(t(gen.standard_normal(tuple(self.shape))) * std + mean)

        def shp(s, size):
            return tuple(size if size is not None else s[0] if len(s) == 1 and not isinstance(s[0], int) else s)
        torch.Tensor.normal_ = normal_
        torch.randn = lambda *s, size=None, **k: t(gen.standard_normal(shp(s, size)))
        torch.randn_like = lambda x, **k: t(gen.standard_normal(tuple(x.shape)))

        def normal(mean=0.0, std=1.0, size=None, **k):
            s = tuple(size) if size is not None else tuple(torch.broadcast_shapes(t(mean).shape, t(std).shape))
            return t(gen.standard_normal(s)) * std + mean
        torch.normal = normal
        try:
            yield
        finally:
            torch.Tensor.normal_ = oldm
            for n in names:
                setattr(torch, n, old[n])
    return cm()
