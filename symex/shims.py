"""Symbolic stand-ins for the third-party and stdlib modules medil uses."""
import datetime as _dt, functools, itertools, math as _math, os as _os, types, warnings as _warnings
from fractions import Fraction
import numpy as _np
import z3
from .core import *
from .core import E
from . import core, sarray as S, snp, rng
from .sarray import SArray, to_arr, BOOL, INT, FLOAT


def mod(name, **d):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(d)
    return m


class Fallback(types.ModuleType):
    """module whose unmodelled names are inert (usable only as types/annotations)"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(self.__name__ + "." + n)


class Missing:
    def __init__(self, n):
        self.n = n

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(self.n + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported("call of unmodelled %s" % self.n)

    def __getitem__(self, i):
        return self

    def __or__(self, o):
        return self
    __ror__ = __or__

    def __mro_entries__(self, bases):
        return (object,)


def fmod(name, **d):
    m = Fallback(name)
    m.__path__ = []
    m.__dict__.update(d)
    return m


# ---------------------------------------------------------------------- math
def make_math():
    m = fmod("math")
    for n in dir(_math):
        if n.startswith("_"):
            continue
        f = getattr(_math, n)
        if callable(f):
            def g(*a, _f=f, _n=n):
                if any(isinstance(x, SArray) for x in a):
                    a = tuple(x.item() if isinstance(x, SArray) else x for x in a)
                if not any(is_sym(x) or isinstance(x, Fraction) for x in a):
                    return _f(*a)
                x = a[0]
                if _n == "sqrt":
                    return snp.sq(x)
                if _n == "log" and len(a) == 1:
                    return snp.lg(x)
                if _n == "exp":
                    return snp.ex(x)
                if _n == "floor":
                    return core.to_int_trunc(core.floor_(x))
                if _n == "ceil":
                    return core.to_int_trunc(core.ceil_(x))
                if _n == "trunc":
                    return core.to_int_trunc(x)
                if _n == "fabs":
                    return core.absval(x)
                if _n == "pow":
                    return arith("**", *a)
                if _n in ("isnan", "isinf"):
                    return False
                if _n == "isfinite":
                    return True
                if _n in ("comb", "factorial", "isqrt", "gcd", "perm"):
                    return _f(*[snp.conc_scalar(v) for v in a])
                raise Unsupported("math.%s of a symbolic value" % _n)
            g.__name__ = n
            m.__dict__[n] = g
        else:
            m.__dict__[n] = f
    return m


# --------------------------------------------------------------------- scipy
def pdist(X, metric="euclidean", **k):
    X = snp.concrete_pres(to_arr(X))
    n, d = X.el.shape
    out = []
    for i, j in itertools.combinations(range(n), 2):
        diffs = [arith("-", core.to_real(X.el[i, t]), core.to_real(X.el[j, t])) for t in range(d)]
        if metric in ("cityblock", "manhattan") or (d == 1 and metric in ("euclidean", "chebyshev", "minkowski")):
            v = 0
            for x in diffs:
                v = arith("+", v, core.absval(x))
        elif metric == "sqeuclidean":
            v = 0
            for x in diffs:
                v = arith("+", v, arith("*", x, x))
        elif metric == "euclidean":
            v = 0
            for x in diffs:
                v = arith("+", v, arith("*", x, x))
            v = snp.sq(v)
        else:
            raise Unsupported("pdist metric %r" % (metric,))
        out.append(v)
    el = _np.empty(len(out), object)
    el[:] = out
    return SArray(el, FLOAT)


def cdist(A, B, metric="euclidean", **k):
    A, B = snp.concrete_pres(to_arr(A)), snp.concrete_pres(to_arr(B))
    r = snp.zeros((A.el.shape[0], B.el.shape[0]))
    for i in range(A.el.shape[0]):
        for j in range(B.el.shape[0]):
            r.el[i, j] = pdist(snp.vstack([A[i:i + 1], B[j:j + 1]]), metric).el[0]
    return r


def squareform(X, force="no", checks=True):
    X = snp.concrete_pres(to_arr(X))
    if X.ndim == 1:
        m = X.el.shape[0]
        n = int(round((1 + _math.sqrt(1 + 8 * m)) / 2))
        if n * (n - 1) // 2 != m:
            raise ValueError("Incompatible vector size. It must be a binomial coefficient n choose 2 for some integer n >= 2.")
        r = snp.zeros((n, n), X.dtype)
        for t, (i, j) in enumerate(itertools.combinations(range(n), 2)):
            r.el[i, j] = r.el[j, i] = X.el[t]
        return r
    n = X.el.shape[0]
    el = _np.empty(n * (n - 1) // 2, object)
    for t, (i, j) in enumerate(itertools.combinations(range(n), 2)):
        el[t] = X.el[i, j]
    return SArray(el, X.dtype)


def rankdata(a, method="average", axis=None, **k):
    a = snp.concrete_pres(to_arr(a))
    if axis is not None:
        if a.ndim == 1:
            axis = None
        else:
            return snp._apply_along_axis(lambda v: rankdata(v, method), axis, a)
    v = list(a.el.reshape(-1))
    n = len(v)
    out = []
    for i in range(n):
        less = [compare("<", v[j], v[i]) for j in range(n) if j != i]
        eq = [compare("==", v[j], v[i]) for j in range(n) if j != i]
        L = core.count_true([core.blit(x) for x in less])
        Q = core.count_true([core.blit(x) for x in eq])
        if method == "average":
            r = arith("+", arith("+", L, 1), arith("/", Q, 2))
        elif method == "min":
            r = arith("+", L, 1)
        elif method == "max":
            r = arith("+", arith("+", L, 1), Q)
        elif method == "ordinal":
            Qb = core.count_true([core.blit(compare("==", v[j], v[i])) for j in range(i)])
            r = arith("+", arith("+", L, 1), Qb)
        elif method == "dense":
            raise Unsupported("rankdata dense")
        else:
            raise ValueError('unknown method "%s"' % method)
        out.append(r)
    el = _np.empty(n, object)
    el[:] = out
    return SArray(el, FLOAT if method == "average" else INT)


class Dist:
    def __init__(self, name, params=()):
        self.name, self.params = name, tuple(params)

    def __call__(self, *p, **k):
        return Dist(self.name, p + tuple(k.values()))

    def _f(self, fn, x, p):
        p = tuple(p) or self.params
        nm = self.name + "_" + fn
        if any(is_sym(q) for q in p):
            raise Unsupported("symbolic distribution parameter")
        args = "".join("_%s" % str(q).replace(".", "p").replace("-", "m") for q in p)

        def one(v):
            if not is_sym(v) and isinstance(v, (float, _np.floating)) and (v != v or abs(v) == float("inf")):
                import scipy.stats as st
                return float(getattr(getattr(st, self.name)(*p), fn)(float(v)))
            if E.cfg.get("float_sqrt") and not is_sym(v):
                import scipy.stats as st
                return float(getattr(getattr(st, self.name)(*p), fn)(float(v)))
            ax = {"cdf": lambda r, z: [r >= 0, r <= 1], "ppf": None}.get(fn)
            if fn == "ppf" and self.name == "chi2":
                ax = lambda r, z: [z3.Implies(z3.And(z > 0, z < 1), r > 0)]
            return core.uf(nm + args, [v], ax)
        if isinstance(x, SArray) or isinstance(x, (list, tuple)):
            x = to_arr(x)
            r = SArray(S.vec1(one, x.el), FLOAT, x.pres)
            return r if r.ndim else r.el[()]
        return one(x)

    def cdf(self, x, *p, **k):
        return self._f("cdf", x, p + tuple(k.values()))

    def sf(self, x, *p, **k):
        return S.binop("-", to_arr(1), self.cdf(x, *p)) if isinstance(x, SArray) else arith("-", 1, self.cdf(x, *p))

    def ppf(self, q, *p, **k):
        return self._f("ppf", q, p + tuple(k.values()))

    def isf(self, q, *p, **k):
        return self.ppf(S.binop("-", to_arr(1), q) if isinstance(q, SArray) else arith("-", 1, q), *p)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.name, n))


class OptimizeResult(dict):
    __getattr__ = dict.get

    def __setattr__(self, k, v):
        self[k] = v


def minimize(fun, x0, args=(), method=None, jac=None, tol=None, **kw):
    """Stand-in optimiser: reports an arbitrary point and an arbitrary success flag."""
    x0 = snp.concrete_pres(to_arr(x0))
    n = x0.el.size
    rec = E.cfg.setdefault("minimize", [])
    k = len(rec)
    el = _np.empty(n, object)
    for i in range(n):
        el[i] = SR(z3.Real("opt%d.x[%d]" % (k, i)))
    x = SArray(el, FLOAT)
    ok = SB(E.aig.new_input("opt%d.success" % k))
    f = fun if not args else (lambda v: fun(v, *args))
    rec.append(dict(fun=f, x0=x0.copy(), x=x.copy(), success=ok, method=method, kw=kw, jac=jac))
    if E.cfg.get("minimize_eval"):
        rec[-1]["value"] = f(x.copy())
    return OptimizeResult(x=x, success=ok, message="stub", fun=SR(z3.Real("opt%d.fun" % k)), nit=0, nfev=0, status=0)


def make_scipy():
    dist = fmod("scipy.spatial.distance", pdist=pdist, cdist=cdist, squareform=squareform,
                cityblock=lambda a, b: S.a_sum(abs(to_arr(a) - to_arr(b))))
    stats = fmod("scipy.stats", rankdata=rankdata, chi2=Dist("chi2"), norm=Dist("norm"))
    la = fmod("scipy.linalg", norm=snp.la_norm, inv=snp.linalg.inv, det=snp.linalg.det, block_diag=block_diag,
              solve=snp.linalg.solve, svdvals=lambda a: to_arr([snp.nuclear(a)]))
    opt = fmod("scipy.optimize", minimize=minimize, OptimizeResult=OptimizeResult)
    sp = fmod("scipy.spatial", distance=dist)
    return {"scipy": fmod("scipy", stats=stats, linalg=la, optimize=opt, spatial=sp), "scipy.stats": stats, "scipy.linalg": la,
            "scipy.optimize": opt, "scipy.spatial": sp, "scipy.spatial.distance": dist}


def block_diag(*bs):
    bs = [snp.concrete_pres(snp.atleast_2d(b)) for b in bs]
    r = snp.zeros((sum(b.el.shape[0] for b in bs), sum(b.el.shape[1] for b in bs)), _np.result_type(*[b.dtype for b in bs]))
    i = j = 0
    for b in bs:
        r.el[i:i + b.el.shape[0], j:j + b.el.shape[1]] = b.el
        i += b.el.shape[0]
        j += b.el.shape[1]
    return r


# --------------------------------------------------------------- sklearn etc.
class StandardScaler:
    def __init__(self, copy=True, with_mean=True, with_std=True):
        self.wm, self.ws = with_mean, with_std

    def fit(self, X, y=None):
        X = to_arr(X)
        self.mean_ = S.a_mean(X, 0)
        self.scale_ = snp.std(X, 0)
        return self

    def transform(self, X):
        X = to_arr(X).astype(float)
        if self.wm:
            X = X - self.mean_
        if self.ws:
            X = X / self.scale_
        return X

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)


def train_test_split(*arrs, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
    out = []
    n = arrs[0].el.shape[0]
    if train_size is not None:
        k = int(train_size * n) if isinstance(train_size, float) else train_size
        m = n - k
    else:
        m = _math.ceil((test_size or .25) * n)
        k = n - m
    nm = "split(%s)" % (random_state,)
    for a in arrs:
        p = rng.permute(nm, to_arr(a), 0) if shuffle else to_arr(a)
        out += [p[:k], p[k:k + m]]
    return out


def dcor_t_test(x, y, *a, **k):
    x, y = snp.concrete_pres(to_arr(x)), snp.concrete_pres(to_arr(y))
    E.cfg.setdefault("dcor_calls", []).append((x.copy(), y.copy()))
    p = core.uf("dcor_p", list(x.el.reshape(-1)) + list(y.el.reshape(-1)), lambda r, *z: [r >= 0, r <= 1])
    return types.SimpleNamespace(pvalue=p, statistic=core.uf("dcor_s", list(x.el.reshape(-1)) + list(y.el.reshape(-1))))


class Pool:
    def __init__(self, processes=None, *a, **k):
        if processes is not None and not is_sym(processes) and processes < 1:
            raise ValueError("Number of processes must be at least 1")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def imap(self, f, it, chunksize=1):
        return iter([f(x) for x in it])

    def map(self, f, it, chunksize=None):
        return [f(x) for x in it]

    def imap_unordered(self, f, it, chunksize=1):
        items = [f(x) for x in it]
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        # chunks arrive in any order: one solver-visible choice per adjacent swap
        for i in range(len(chunks) - 1):
            k = E.cfg["unord"] = E.cfg.get("unord", 0) + 1
            if core.fork_bool(E.aig.new_input("unordered%d" % k)):
                chunks[i], chunks[i + 1] = chunks[i + 1], chunks[i]
        return iter([x for c in chunks for x in c])

    def starmap(self, f, it, chunksize=None):
        return [f(*x) for x in it]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None):
        v = f(*args, **kwds)
        return types.SimpleNamespace(get=lambda *a: v)

    def close(self):
        pass

    def join(self):
        pass

    terminate = close


def make_mp():
    ctx = types.SimpleNamespace(Pool=Pool)
    return fmod("multiprocessing", Pool=Pool, cpu_count=lambda: 8, get_context=lambda *a: ctx,
                pool=fmod("multiprocessing.pool", Pool=Pool, ThreadPool=Pool))


# ------------------------------------------------------------------ assembly
def make_shims(extra=None):
    r = rng.make_random()
    nps = snp.make_numpy(r)
    d = {"numpy": nps, "numpy.random": r, "numpy.typing": nps.typing, "numpy.linalg": nps.linalg, "math": make_math()}
    d.update(make_scipy())
    d["sklearn"] = fmod("sklearn")
    d["sklearn.model_selection"] = fmod("sklearn.model_selection", train_test_split=train_test_split)
    d["sklearn.preprocessing"] = fmod("sklearn.preprocessing", StandardScaler=StandardScaler)
    d["sklearn"].model_selection = d["sklearn.model_selection"]
    d["sklearn"].preprocessing = d["sklearn.preprocessing"]
    d["dcor"] = fmod("dcor")
    d["dcor.independence"] = fmod("dcor.independence", distance_correlation_t_test=dcor_t_test)
    d["dcor"].independence = d["dcor.independence"]
    d["multiprocessing"] = make_mp()
    d["multiprocessing.pool"] = d["multiprocessing"].pool
    d["subprocess"] = fmod("subprocess")
    d["shutil"] = fmod("shutil")
    d.update(make_warnings())
    from . import tshim, fsshim, plotshim
    d.update(plotshim.make_plot())
    d.update(tshim.make_torch())
    d.update(fsshim.make_fs())
    if extra:
        d.update(extra)
    return d


def make_warnings():
    m = fmod("warnings")
    m.__dict__.update({k: v for k, v in vars(_warnings).items() if not k.startswith("__")})

    def warn(msg, *a, **k):
        E.warned.append(msg)
    m.warn = warn

    class catch_warnings:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return []

        def __exit__(self, *a):
            return False
    m.catch_warnings = catch_warnings
    m.simplefilter = m.filterwarnings = lambda *a, **k: None
    return {"warnings": m}
