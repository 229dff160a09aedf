"""numpy shim: the functions of numpy over SArray, with exact-real arithmetic for symbolic floats.

Functions that are not modelled here run in real numpy when their arguments are (or can be made,
by path forking on finite-domain values) concrete; otherwise Unsupported is raised.
"""
import builtins, itertools, math, types
from fractions import Fraction
import numpy as _np
import z3
from .core import *
from .core import E
from . import core
from . import sarray as S
from .sarray import SArray, to_arr, BOOL, INT, FLOAT, OBJ, as_dtype, cast, vec1


# --------------------------------------------------------------- conversion
def conc_scalar(v):
    """concrete Python/numpy number, forking on finite domains"""
    if isinstance(v, (SB, Union)):
        v = concretize(v)
        return conc_scalar(v) if is_sym(v) else v
    if isinstance(v, SR):
        z = z3.simplify(v.z)
        if z3.is_int_value(z):
            return z.as_long()
        if z3.is_rational_value(z):
            return float(z.as_fraction())
        if v.is_int:
            return concretize(Union(core.sr_int_alts(v)))
        raise Unsupported("symbolic real passed to a native numpy function")
    if isinstance(v, Fraction):
        return float(v) if v.denominator != 1 else float(v.numerator)
    return v


def concrete_pres(a):
    """fork until no axis has symbolic presence"""
    if a.pres is None:
        return a
    el = a.el
    for k, p in enumerate(a.pres):
        if p is None:
            continue
        keep = [i for i, l in enumerate(p.lits) if fork_bool(l)]
        el = _np.take(el, keep, axis=k)
    return SArray(el, a.dtype)


def concrete(v):
    """deep conversion to real numpy / Python objects"""
    if isinstance(v, SArray):
        v = concrete_pres(v)
        if v.dtype == OBJ:
            out = _np.empty(v.el.shape, object)
            for i in _np.ndindex(*v.el.shape):
                out[i] = concrete(v.el[i])
            return out
        out = _np.empty(v.el.shape, v.dtype)
        for i in _np.ndindex(*v.el.shape):
            out[i] = conc_scalar(v.el[i])
        return out
    if is_sym(v) or isinstance(v, Fraction):
        return conc_scalar(v)
    if type(v) is list:
        return [concrete(x) for x in v]
    if type(v) is tuple:
        return tuple(concrete(x) for x in v)
    if type(v) is dict:
        return {k: concrete(x) for k, x in v.items()}
    if isinstance(v, slice):
        return slice(concrete(v.start), concrete(v.stop), concrete(v.step))
    return v


def abstract(v):
    """real numpy results -> SArray"""
    if isinstance(v, _np.ndarray):
        return to_arr(v)
    if type(v) is tuple:
        return tuple(abstract(x) for x in v)
    if type(v) is list:
        return [abstract(x) for x in v]
    return v


def has_sym(v):
    if is_sym(v):
        return True
    if isinstance(v, SArray):
        if v.pres is not None:
            return True
        return any(is_sym(x) or isinstance(x, Fraction) for x in v.el.reshape(-1))
    if isinstance(v, (list, tuple)):
        return any(has_sym(x) for x in v)
    if isinstance(v, dict):
        return any(has_sym(x) for x in v.values())
    return False


def native(f, name=None):
    def g(*a, **k):
        return abstract(f(*concrete(tuple(a)), **concrete(dict(k))))
    g.__name__ = name or getattr(f, "__name__", "native")
    return g


def shape_of(s):
    if isinstance(s, SArray):
        s = s.tolist()
    if isinstance(s, (tuple, list)):
        return tuple(dim(x) for x in s)
    return (dim(s),)


def dim(x):
    if isinstance(x, SArray):
        x = x.item()
    if is_sym(x):
        x = concretize(x) if not isinstance(x, SR) else conc_scalar(x)
    if isinstance(x, (float, Fraction)) and not isinstance(x, int):
        raise TypeError("'float' object cannot be interpreted as an integer")
    x = int(x)
    if x < 0:
        raise ValueError("negative dimensions are not allowed")
    return x


def full_el(shape, v):
    el = _np.empty(shape, object)
    if el.ndim == 0:
        el[()] = v
    else:
        el.reshape(-1)[:] = [v] * el.size if el.size else []
    return el


# ------------------------------------------------------------------ creation
def zeros(shape, dtype=None, order="C", **k):
    dt = as_dtype(dtype)
    return SArray(full_el(shape_of(shape), False if dt.kind == "b" else 0), dt)


def ones(shape, dtype=None, order="C", **k):
    dt = as_dtype(dtype)
    return SArray(full_el(shape_of(shape), True if dt.kind == "b" else 1), dt)


def full(shape, v, dtype=None, **k):
    a = to_arr(v)
    dt = as_dtype(dtype) if dtype is not None else a.dtype
    r = zeros(shape, dt)
    r[...] = v
    return r


def _like(f):
    def g(a, dtype=None, order="K", subok=True, shape=None, **k):
        a = to_arr(a)
        if shape is None and a.pres is not None:
            dt = as_dtype(dtype) if dtype is not None else a.dtype
            return SArray(f(a.el.shape, dt).el, dt, a.pres)
        return f(a.el.shape if shape is None else shape, dtype if dtype is not None else a.dtype)
    return g


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = zeros_like


def full_like(a, v, dtype=None, **k):
    r = zeros_like(a, dtype)
    r[...] = v
    return r


def eye(n, m=None, k=0, dtype=float, **kw):
    return to_arr(_np.eye(dim(n), None if m is None else dim(m), int(k), dtype))


def array(v, dtype=None, copy=True, ndmin=0, **k):
    dt = None if dtype is None else as_dtype(dtype)
    if isinstance(v, SArray):
        r = v.astype(dt) if dt is not None and dt != v.dtype else (v.copy() if copy else v)
    else:
        if isinstance(v, (set, dict, frozenset)) or isinstance(v, types.GeneratorType):
            el = _np.empty((), object)
            el[()] = v
            r = SArray(el, OBJ)
        else:
            r = to_arr(v) if not isinstance(v, _np.ndarray) else to_arr(v)
        if dt is not None and r.dtype != dt:
            r = r.astype(dt)
    if r.ndim < ndmin:
        r = S.reshape(r, (1,) * (ndmin - r.ndim) + tuple(r.el.shape))
    return r


def asarray(v, dtype=None, **k):
    return array(v, dtype, copy=False)


def atleast_1d(a):
    a = to_arr(a)
    return a if a.ndim else S.reshape(a, (1,))


def atleast_2d(a):
    a = to_arr(a)
    if a.ndim >= 2:
        return a
    return SArray(a.el.reshape((1, -1)), a.dtype, [None, a.axpres(0)] if a.ndim else None, a.st)


def arange(*a, dtype=None, **k):
    a = [conc_scalar(x) if is_sym(x) else x for x in a]
    return to_arr(_np.arange(*a, dtype=dtype))


def linspace(*a, **k):
    return abstract(_np.linspace(*concrete(tuple(a)), **concrete(k)))


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype) if True else None


def copy(a, **k):
    return to_arr(a).copy()


def identity(n, dtype=None):
    return eye(n, dtype=dtype or float)


# --------------------------------------------------------------- structure
def triu(m, k=0):
    m = to_arr(m)
    out = m.copy()
    _tri_check(m)
    z = False if m.dtype.kind == "b" else 0
    for i in _np.ndindex(*m.el.shape):
        if i[-1] - i[-2] < k:
            out.el[i] = z
    return out


def tril(m, k=0):
    m = to_arr(m)
    out = m.copy()
    _tri_check(m)
    z = False if m.dtype.kind == "b" else 0
    for i in _np.ndindex(*m.el.shape):
        if i[-1] - i[-2] > k:
            out.el[i] = z
    return out


def _tri_check(m):
    if m.ndim < 2:
        raise Unsupported("triu of 1-d")
    if m.pres is not None:
        for p in m.pres[-2:]:
            if p is not None and not p.prefix:
                raise Unsupported("triu of a filtered array")


def triu_indices(n, k=0, m=None):
    n = n.item() if isinstance(n, SArray) else n
    if isinstance(n, (Union, SB)) and m is None:
        n = core.restrict(n, solve=True) if isinstance(n, Union) else n
    if is_sym(n):
        n = conc_scalar(n)
    return abstract(_np.triu_indices(int(n), int(k), m))


def tril_indices(n, k=0, m=None):
    return abstract(_np.tril_indices(dim(n), int(k), m))


def triu_indices_from(a, k=0):
    return triu_indices(to_arr(a).axlen(0), k, dim(to_arr(a).axlen(1)))


def tril_indices_from(a, k=0):
    return tril_indices(to_arr(a).axlen(0), k, dim(to_arr(a).axlen(1)))


def diag_indices(n, ndim=2):
    return abstract(_np.diag_indices(dim(n), ndim))


def diag_indices_from(a):
    return diag_indices(to_arr(a).axlen(0))


def _cat(arrs, axis):
    arrs = [to_arr(a) for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    ax = axis % nd
    dt = _np.result_type(*[a.dtype for a in arrs])
    for k in range(nd):
        if k == ax:
            continue
        ps = [a.axpres(k) for a in arrs]
        if all(p == ps[0] for p in ps):
            if ps[0] is None and len({a.el.shape[k] for a in arrs}) > 1:
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly, but along dimension %d, the arrays have sizes %s" % (k, [a.el.shape[k] for a in arrs]))
            continue
        arrs = [concrete_pres(a) for a in arrs]
        return _cat(arrs, axis)
    el = _np.concatenate([a.astype(dt).el if a.dtype != dt else a.el for a in arrs], axis=ax)
    lits = []
    if any(a.axpres(ax) is not None for a in arrs):
        for a in arrs:
            p = a.axpres(ax)
            lits.extend(p.lits if p is not None else [1] * a.el.shape[ax])
    pr = [arrs[0].axpres(k) for k in range(nd)]
    pr[ax] = S.Pres(lits) if lits else None
    return SArray(el, dt, pr)


def block(b):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    D = depth(b)

    def ndim(x):
        return builtins.max(ndim(y) for y in x) if isinstance(x, list) else to_arr(x).ndim
    nd = builtins.max(ndim(b), D)

    def rec(x, d):
        if not isinstance(x, list):
            a = to_arr(x)
            return a.reshape((1,) * (nd - a.ndim) + tuple(a.shape)) if a.ndim < nd else a
        return concatenate([rec(y, d - 1) for y in x], axis=-d)
    return rec(b, D)


def concatenate(arrs, axis=0, dtype=None, **k):
    arrs = list(arrs)
    if axis is None:
        arrs = [to_arr(a).ravel() for a in arrs]
        axis = 0
    r = _cat(arrs, axis)
    return r.astype(dtype) if dtype is not None else r


def vstack(arrs, dtype=None, **k):
    return concatenate([atleast_2d(a) for a in arrs], 0, dtype)


def hstack(arrs, dtype=None, **k):
    arrs = [atleast_1d(a) for a in arrs]
    return concatenate(arrs, 0 if arrs and arrs[0].ndim == 1 else 1, dtype)


def column_stack(arrs):
    out = []
    for a in arrs:
        a = to_arr(a)
        out.append(S.transpose(atleast_2d(a)) if a.ndim < 2 else a)
    return concatenate(out, 1)


def stack(arrs, axis=0, **k):
    arrs = [to_arr(a) for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to stack")
    if any(a.ndim != arrs[0].ndim for a in arrs):
        raise ValueError("all input arrays must have the same shape")
    nd = arrs[0].ndim + 1
    ax = axis % nd
    out = []
    for a in arrs:
        pr = list(a.pres) if a.pres else [None] * a.ndim
        pr.insert(ax, None)
        out.append(SArray(_np.expand_dims(a.el, ax), a.dtype, pr))
    return _cat(out, ax)


def append(a, v, axis=None):
    if axis is None:
        return concatenate([to_arr(a).ravel(), to_arr(v).ravel()])
    return concatenate([a, v], axis)


class _AxisConcat:
    """np.r_ / np.c_ (arrays, scalars, slices and the integer string directives)"""

    def __init__(self, axis=0, ndmin=1, trans1d=-1):
        self.spec = (axis, ndmin, trans1d)

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        axis, ndmin, trans1d = self.spec
        parts = []
        for i, k in enumerate(key):
            scalar = False
            if isinstance(k, slice):
                st, sp, step = (concrete(v) if v is not None else None for v in (k.start, k.stop, k.step))
                if isinstance(step, complex):
                    a = linspace(st, sp, int(abs(step)))
                else:
                    a = arange(st or 0, sp, 1 if step is None else step)
            elif isinstance(k, str):
                if i:
                    raise ValueError("special directives must be the first entry.")
                if k in ("r", "c"):
                    raise Unsupported("np.r_ matrix directive")
                v = [int(x) for x in k.split(",")]
                axis, ndmin, trans1d = (v + [axis, ndmin, trans1d][len(v):])[:3]
                continue
            elif not isinstance(k, SArray) and (is_num(k) or is_sym(k) or isinstance(k, (bool, _np.bool_))):
                a = to_arr([k])
                scalar = True
            else:
                a = to_arr(k)
            if a.ndim < ndmin:
                had = a.ndim
                pr = [None] * (ndmin - had) + [a.axpres(j) for j in range(had)]
                a = SArray(a.el.reshape((1,) * (ndmin - had) + a.el.shape), a.dtype, pr)
                if not scalar and trans1d != -1:
                    k2 = ndmin - had
                    t = trans1d if trans1d >= 0 else trans1d + k2 + 1
                    axes = list(range(ndmin))
                    a = S.transpose(a, tuple(axes[:t] + axes[k2:] + axes[t:k2])) if had else a
            parts.append(a)
        return _cat(parts, axis)

    def __len__(self):
        return 0


def tile(a, reps):
    a = to_arr(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = tuple(dim(r) for r in reps)
    a = concrete_pres(a)
    return SArray(_np.tile(a.el, reps), a.dtype)


def repeat(a, n, axis=None):
    a = concrete_pres(to_arr(a))
    return SArray(_np.repeat(a.el, concrete(n), axis), a.dtype)


def delete(a, idx, axis=None):
    a = to_arr(a)
    if axis is None:
        a = S.reshape(a, (-1,))
        axis = 0
    ax = axis % a.ndim
    a = concrete_pres(a) if a.axpres(ax) is not None else a
    n = a.el.shape[ax]
    if isinstance(idx, slice):
        keep = _np.delete(_np.arange(n), concrete(idx))
        return SArray(_np.take(a.el, keep, axis=ax), a.dtype, a.pres)
    ix = to_arr(idx) if not isinstance(idx, (int, _np.integer)) else to_arr([idx])
    if ix.el.size == 0:
        return a.copy()
    if ix.dtype.kind == "b":
        m = ~S.reshape(ix, (-1,))
    else:
        drop = [0] * n
        for i, g in S.cells(ix):
            for h, v in int_alts(ix.el[i]):
                if v >= n or v < -n:
                    E.raise_partial(E.aig.AND(g, h), IndexError("index %d is out of bounds for axis %d with size %d" % (v, ax, n)))
                    continue
                drop[v % n] = E.aig.OR(drop[v % n], E.aig.AND(g, h))
        m = SArray(_np.array([None] * n, object), BOOL)
        for i in range(n):
            m.el[i] = mkb(drop[i] ^ 1)
    return a[(slice(None),) * ax + (m,)]


def insert(a, i, v, axis=None):
    return native(_np.insert)(a, i, v, axis)


def transpose(a, axes=None):
    if isinstance(a, (tuple, list)):
        a = S.array_from_seq(list(a))
    return S.transpose(a, axes)


def fill_diagonal(a, v, wrap=False):
    if not isinstance(a, SArray):
        raise Unsupported("fill_diagonal on %r" % type(a))
    if a.ndim < 2:
        raise ValueError("array must be at least 2-d")
    if a.pres is not None:
        for p in a.pres:
            if p is not None and not p.prefix:
                raise Unsupported("fill_diagonal on filtered array")
    vv = to_arr(v)
    n = builtins.min(a.el.shape)
    for i in range(n):
        x = vv.el.reshape(-1)[i % vv.el.size]
        a.el[(i,) * a.ndim] = merge(E.rel(a.st.birth), cast(x, a.dtype), a.el[(i,) * a.ndim])


def diagonal(a, offset=0, axis1=0, axis2=1):
    a = concrete_pres(to_arr(a))
    return SArray(_np.diagonal(a.el, offset, axis1, axis2).copy(), a.dtype)


def trace(a, offset=0, **k):
    return S.a_sum(diagonal(a, offset))


def diag(v, k=0):
    v = concrete_pres(to_arr(v))
    if v.ndim == 1:
        n = v.el.shape[0] + builtins.abs(k)
        r = zeros((n, n), v.dtype)
        for i in range(v.el.shape[0]):
            r.el[(i, i + k) if k >= 0 else (i - k, i)] = v.el[i]
        return r
    if v.ndim == 2:
        return diagonal(v, k)
    raise ValueError("Input must be 1- or 2-d.")


def diagflat(v, k=0):
    return diag(to_arr(v).ravel(), k)


def ravel(a, order="C"):
    return to_arr(a).ravel()


def reshape(a, shape=None, order="C", newshape=None, **k):
    return S.reshape(to_arr(a), shape if shape is not None else newshape)


def squeeze(a, axis=None):
    return to_arr(a).squeeze(axis)


def expand_dims(a, axis):
    a = to_arr(a)
    if a.pres is not None:
        a = concrete_pres(a)
    return SArray(_np.expand_dims(a.el, axis), a.dtype)


def flip(a, axis=None):
    a = concrete_pres(to_arr(a))
    return SArray(_np.flip(a.el, axis), a.dtype)


def roll(a, n, axis=None):
    a = concrete_pres(to_arr(a))
    return SArray(_np.roll(a.el, n, axis), a.dtype)


def moveaxis(a, s, d):
    a = concrete_pres(to_arr(a))
    return SArray(_np.moveaxis(a.el, s, d), a.dtype)


def broadcast_to(a, shape):
    a = concrete_pres(to_arr(a))
    return SArray(_np.broadcast_to(a.el, shape_of(shape)).copy(), a.dtype)


def take(a, idx, axis=None, **k):
    a = to_arr(a)
    if axis is None:
        return a.ravel()[idx]
    ax = axis % a.ndim
    return a[(slice(None),) * ax + (idx,)]


def split(a, n, axis=0):
    a = concrete_pres(to_arr(a))
    return [SArray(x, a.dtype) for x in _np.split(a.el, concrete(n), axis)]


def array_split(a, n, axis=0):
    a = concrete_pres(to_arr(a))
    return [SArray(x, a.dtype) for x in _np.array_split(a.el, concrete(n), axis)]


def meshgrid(*a, **k):
    return native(_np.meshgrid)(*a, **k)


def ix_(*a):
    return native(_np.ix_)(*a)


def ndenumerate(a):
    a = concrete_pres(to_arr(a))
    for i in _np.ndindex(*a.el.shape):
        yield i, S.scalar_out(a.el[i], a.dtype)


def outer(a, b):
    a, b = to_arr(a).ravel(), to_arr(b).ravel()
    A = SArray(a.el.reshape(-1, 1), a.dtype, [a.axpres(0), None])
    B = SArray(b.el.reshape(1, -1), b.dtype, [None, b.axpres(0)])
    return S.binop("*", A, B)


def dot(a, b, out=None):
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return S.binop("*", a, b)
    return S.matmul(a, b)


def inner(a, b):
    a, b = to_arr(a), to_arr(b)
    return S.matmul(a, b.T if b.ndim > 1 else b)


def kron(a, b):
    a, b = concrete_pres(to_arr(a)), concrete_pres(to_arr(b))
    n, m = a.el.shape
    p, q = b.el.shape
    r = zeros((n * p, m * q), _np.result_type(a.dtype, b.dtype))
    for i, j, k_, l in itertools.product(range(n), range(m), range(p), range(q)):
        r.el[i * p + k_, j * q + l] = arith("*", a.el[i, j], b.el[k_, l])
    return r


# ---------------------------------------------------------------- elementwise
def un(f, dtf=None):
    def g(a, out=None, where=True, dtype=None, **k):
        if where is not True:
            raise Unsupported("ufunc where=")
        scalar = not isinstance(a, (SArray, _np.ndarray, list, tuple))
        A = to_arr(a)
        dt = dtf(A.dtype) if dtf else A.dtype
        r = SArray(vec1(f, A.el), dt, A.pres)
        if dtype is not None:
            r = r.astype(dtype)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            S.store_all(o, r)
            return o
        if scalar or r.ndim == 0:
            return S.scalar_out(r.el[()], dt)
        return r
    return g


def _tofloat(dt):
    return dt if dt.kind == "f" else FLOAT


def bi(op):
    def g(a, b, out=None, where=True, dtype=None, **k):
        if where is not True:
            raise Unsupported("ufunc where=")
        a_ = a if isinstance(a, SArray) else (to_arr(a) if isinstance(a, (list, tuple, _np.ndarray)) else a)
        b_ = b if isinstance(b, SArray) else (to_arr(b) if isinstance(b, (list, tuple, _np.ndarray)) else b)
        r = S.binop(op, a_, b_)
        if dtype is not None:
            r = to_arr(r).astype(dtype)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            S.store_all(o, to_arr(r))
            return o
        return r
    return Ufunc(g, op)


class Ufunc:
    """callable with .reduce/.at/.outer"""
    def __init__(self, f, op):
        self.f, self.op = f, op

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def outer(self, a, b):
        a, b = to_arr(a), to_arr(b)
        A = SArray(a.el.reshape(a.el.shape + (1,) * b.ndim), a.dtype)
        return self.f(A, b)

    def reduce(self, a, axis=0, **k):
        a = to_arr(a)
        red = {"+": S.a_sum, "*": S.a_prod, "|": S.a_any, "&": S.a_all, "or": S.a_any, "and": S.a_all, "max": S.a_max, "min": S.a_min}.get(self.op)
        if red is None or (self.op in "|&" and a.dtype.kind != "b"):
            raise Unsupported("reduce of %s" % self.op)
        if self.op in ("+", "*") and a.dtype.kind == "b":
            red = S.a_any if self.op == "+" else S.a_all
        return red(a, axis)

    def at(self, a, idx, v):
        it = concrete(idx)
        if not isinstance(it, tuple):
            it = (it,)
        bc = _np.broadcast(*[_np.asarray(x) for x in it])
        vv = to_arr(v)
        for n, ii in enumerate(bc):
            ii = tuple(int(x) for x in ii)
            a[ii] = self.f(a[ii], vv.el.reshape(-1)[n % vv.el.size])

    def accumulate(self, a, axis=0):
        if self.op == "+":
            return S.a_cumsum(a, axis)
        raise Unsupported("accumulate")


def cmpf(op):
    def g(a, b, out=None, **k):
        r = S.cmpop(op, a if isinstance(a, SArray) else to_arr(a), b)
        if out is not None:
            S.store_all(out, to_arr(r))
            return out
        return r
    return Ufunc(g, op)


def logical(f2):
    def g(a, b, out=None, **k):
        r = S.elementwise(lambda x, y: f2(mkb(truth(x)), mkb(truth(y))), [to_arr(a), to_arr(b)], BOOL)
        if out is not None:
            S.store_all(out, r)
            return out
        return S.unwrap0(r)
    return g


def logical_not(a, out=None, **k):
    A = to_arr(a)
    r = S.unwrap0(SArray(vec1(lambda x: mkb(truth(x) ^ 1), A.el), BOOL, A.pres))
    if out is not None:
        S.store_all(out, to_arr(r))
        return out
    return r


def scalar_fn(f, pyf):
    def g(v):
        v = norm_num(v)
        if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
            return pyf(v)
        if isinstance(v, SB):
            v = core.b2u(v)
        return f(v)
    return g


def _npf(f):
    def g(v):
        with _np.errstate(all="ignore"):
            return float(f(v))
    return g


def sq(v):
    v = norm_num(v)
    if not is_sym(v) and not isinstance(v, Fraction):
        if v != v or v < 0:
            return float("nan")
    return core.sr_sqrt(v) if is_sym(v) or isinstance(v, Fraction) else _concsqrt(v)


def _concsqrt(v):
    f = core.to_frac(v)
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d) if d != 1 else n
    if E.cfg.get("exact", True):
        return core.sr_sqrt(f)
    return math.sqrt(v)


def lg(v):
    v = norm_num(v)
    if not is_sym(v):
        if v == 0:
            return float("-inf")
        if v < 0:
            return float("nan")
        if v == 1:
            return 0
        if not E.cfg.get("exact", True):
            return math.log(v)
        return core.sr_log(v)
    return core.sr_log(v)


def ex(v):
    v = norm_num(v)
    if not is_sym(v):
        if v == 0:
            return 1
        if not E.cfg.get("exact", True):
            return math.exp(v)
    return core.sr_exp(v)


sqrt = un(scalar_fn(sq, _npf(_np.sqrt)), _tofloat)
log = un(scalar_fn(lg, _npf(_np.log)), _tofloat)
exp = un(scalar_fn(ex, _npf(_np.exp)), _tofloat)
log2 = un(scalar_fn(lambda v: arith("/", lg(v), lg(2)), _npf(_np.log2)), _tofloat)
log10 = un(scalar_fn(lambda v: arith("/", lg(v), lg(10)), _npf(_np.log10)), _tofloat)
log1p = un(scalar_fn(lambda v: lg(arith("+", 1, v)), _npf(_np.log1p)), _tofloat)
expm1 = un(scalar_fn(lambda v: arith("-", ex(v), 1), _npf(_np.expm1)), _tofloat)
absolute = un(core.absval)
negative = un(core.neg)
sign = un(lambda v: cond(compare(">", v, 0), 1, cond(compare("<", v, 0), -1, 0)))
floor = un(core.floor_)
ceil = un(core.ceil_)


def _sqr(v):
    return v if isinstance(v, (SB, bool)) else arith("*", v, v)


def square(a, **k):
    return S.binop("*", to_arr(a), to_arr(a)) if isinstance(a, (SArray, list, _np.ndarray)) else arith("*", a, a)


def round_(a, decimals=0, out=None):
    A = to_arr(a)
    if A.dtype.kind in "biu":
        return a
    if decimals:
        sc = 10 ** decimals
        r = SArray(vec1(lambda v: arith("/", core.round_even(arith("*", v, sc)), sc), A.el), A.dtype, A.pres)
    else:
        r = SArray(vec1(core.round_even, A.el), A.dtype, A.pres)
    if isinstance(a, SArray) and a.ndim:
        return r
    return FScalar.wrap(S.scalar_out(r.el[()], A.dtype))


class FScalar:
    """np.round(x).astype(int) on scalars: numpy scalars have astype"""
    @staticmethod
    def wrap(v):
        if isinstance(v, Fraction):
            return _np.float64(float(v)) if float(v) == v else v
        if isinstance(v, int) and not isinstance(v, bool):
            return _np.float64(v)
        return v


def isnan(a, **k):
    A = to_arr(a)
    return S.unwrap0(SArray(vec1(lambda v: isinstance(v, float) and v != v, A.el), BOOL, A.pres))


def isinf(a, **k):
    A = to_arr(a)
    return S.unwrap0(SArray(vec1(lambda v: isinstance(v, float) and v in (float("inf"), float("-inf")), A.el), BOOL, A.pres))


def isfinite(a, **k):
    A = to_arr(a)
    return S.unwrap0(SArray(vec1(lambda v: not (isinstance(v, float) and (v != v or v in (float("inf"), float("-inf")))), A.el), BOOL, A.pres))


def nan_to_num(a, copy=True, nan=0.0, **k):
    A = to_arr(a)
    return S.unwrap0(SArray(vec1(lambda v: nan if isinstance(v, float) and v != v else v, A.el), A.dtype, A.pres))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        return compare("<=", core.absval(arith("-", x, y)), arith("+", atol, arith("*", rtol, core.absval(y))))
    return S.unwrap0(S.elementwise(f, [to_arr(a), to_arr(b)], BOOL))


def allclose(a, b, **k):
    return S.a_all(isclose(a, b, **k))


def array_equal(a, b, **k):
    a, b = concrete_pres(to_arr(a)), concrete_pres(to_arr(b))
    if a.el.shape != b.el.shape:
        return False
    return S.a_all(S.cmpop("==", a, b))


def array_equiv(a, b):
    return S.a_all(S.cmpop("==", to_arr(a), to_arr(b)))


def power(a, b, **k):
    return S.binop("**", to_arr(a) if isinstance(a, (list, SArray, _np.ndarray)) else a, b)


def float_power(a, b):
    return power(to_arr(a).astype(float), b)


# ------------------------------------------------------------------ sorting
def sort_net(vals):
    """sorted list of scalars without forking (bubble network of min/max)"""
    v = list(vals)
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            c = compare("<=", v[j], v[j + 1])
            l = blit(c)
            v[j], v[j + 1] = merge(l, v[j], v[j + 1]), merge(l, v[j + 1], v[j])
    return v


def argsort_fork(vals):
    """stable ascending order (forks on the comparisons)"""
    import functools
    idx = []
    for i in range(len(vals)):
        k = len(idx)
        while k > 0 and core.fork_bool(blit(compare("<", vals[i], vals[idx[k - 1]]))):
            k -= 1
        idx.insert(k, i)
    return idx


def sort(a, axis=-1, kind=None, order=None, stable=None):
    a = concrete_pres(to_arr(a))
    if axis is None:
        a = a.ravel()
        axis = -1
    ax = axis % a.ndim
    el = _np.moveaxis(a.el, ax, -1)
    out = _np.empty(el.shape, object)
    for i in _np.ndindex(*el.shape[:-1]):
        out[i] = _asobj(sort_net(list(el[i])))
    return SArray(_np.moveaxis(out, -1, ax), a.dtype)


def _asobj(lst):
    o = _np.empty(len(lst), object)
    for i, x in enumerate(lst):
        o[i] = x
    return o


def argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = concrete_pres(to_arr(a))
    if axis is None:
        a = a.ravel()
        axis = -1
    ax = axis % a.ndim
    el = _np.moveaxis(a.el, ax, -1)
    out = _np.empty(el.shape, object)
    for i in _np.ndindex(*el.shape[:-1]):
        out[i] = _asobj(argsort_fork(list(el[i])))
    return SArray(_np.moveaxis(out, -1, ax), INT)


def sort_inplace(self, axis=-1, kind=None, order=None, stable=None):
    if self.ndim == 0:
        raise ValueError("cannot sort 0-d array")
    r = sort(self, axis)
    S.store_all(self, r)


SArray.sort = sort_inplace
SArray.argsort = argsort


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    return native(_np.unique)(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)


def diff(a, n=1, axis=-1, **k):
    a = concrete_pres(to_arr(a))
    for _ in range(n):
        ax = axis % a.ndim
        lo = (slice(None),) * ax + (slice(None, -1),)
        hi = (slice(None),) * ax + (slice(1, None),)
        if a.dtype.kind == "b":
            a = S.cmpop("!=", a[hi], a[lo])
        else:
            a = S.binop("-", a[hi], a[lo])
    return a


def count_nonzero(a, axis=None, keepdims=False):
    A = to_arr(a)
    return S.a_sum(SArray(vec1(lambda v: mkb(truth(v)), A.el), BOOL, A.pres), axis, keepdims=keepdims)


def ptp(a, axis=None):
    return S.binop("-", to_arr(S.a_max(a, axis)), to_arr(S.a_min(a, axis)))


# --------------------------------------------------------------- statistics
def var(a, axis=None, ddof=0, keepdims=False, **k):
    a = to_arr(a)
    m = S.a_mean(a, axis, keepdims=True)
    d = S.binop("-", a, m)
    s = S.a_sum(S.binop("*", d, d), axis, keepdims=keepdims)
    n = 1
    for ax in S.norm_axis(axis, a.ndim):
        n *= a.el.shape[ax]
    return S.binop("/", to_arr(s), n - ddof) if isinstance(s, SArray) else arith("/", s, n - ddof)


def std(a, axis=None, ddof=0, keepdims=False, **k):
    return sqrt(var(a, axis, ddof, keepdims))


def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return S.a_mean(a, axis, keepdims=keepdims)


SArray.var = var
SArray.std = std
SArray.ptp = ptp
SArray.round = lambda self, decimals=0: round_(self, decimals)
SArray.trace = trace
SArray.diagonal = diagonal
SArray.repeat = repeat
SArray.take = take
SArray.conj = lambda self: self


def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported("np.cov with weights")
    X = concrete_pres(to_arr(m)).astype(float)
    if X.ndim == 1:
        X = SArray(X.el.reshape(1, -1), FLOAT)
        one = True
    else:
        one = False
        if not rowvar and X.el.shape[0] != 1:
            X = X.T
        elif not rowvar:
            X = X.T
    n = X.el.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    mu = S.a_mean(X, 1, keepdims=True)
    D = S.binop("-", X, mu)
    C = S.matmul(D, D.T)
    C = S.binop("/", C, n - ddof)
    C = to_arr(C)
    if C.el.shape == (1, 1):
        el = _np.empty((), object)
        el[()] = C.el[0, 0]
        return SArray(el, FLOAT)
    return C


def corrcoef(x, y=None, rowvar=True, **k):
    c = cov(x, y, rowvar)
    if c.ndim == 0:
        return S.binop("/", c, c)
    d = [core.sr_sqrt(c.el[i, i]) if is_sym(c.el[i, i]) else sq(c.el[i, i]) for i in range(c.el.shape[0])]
    r = zeros_like(c)
    for i in range(c.el.shape[0]):
        for j in range(c.el.shape[1]):
            r.el[i, j] = 1 if i == j else S.np_div(c.el[i, j], arith("*", d[i], d[j]))
    return r


def median(a, axis=None, **k):
    return native(_np.median)(a, axis=axis)


def average(a, axis=None, weights=None, **k):
    if weights is not None:
        w = to_arr(weights)
        return S.binop("/", to_arr(S.a_sum(S.binop("*", to_arr(a), w), axis)), S.a_sum(w))
    return S.a_mean(a, axis)


def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    ops = [concrete_pres(to_arr(o)) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.el.shape):
            dims[c] = n
    if out is None:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    summed = [c for c in dims if c not in out]
    res = zeros(tuple(dims[c] for c in out) if out else (), _np.result_type(*[o.dtype for o in ops]))
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        acc = []
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = 1
            for s, o in zip(ins, ops):
                t = arith("*", t, o.el[tuple(env[c] for c in s)])
            acc.append((1, t))
        res.el[oi] = S.sum_scalars(acc, res.dtype)
    return res if out else S.scalar_out(res.el[()], res.dtype)


def interp(*a):
    return native(_np.interp)(*a)


# ------------------------------------------------------------------- linalg
def det_el(M):
    n = M.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return M[0, 0]
    r = 0
    for j in range(n):
        if not is_sym(M[0, j]) and M[0, j] == 0:
            continue
        minor = _np.delete(_np.delete(M, 0, 0), j, 1)
        t = arith("*", M[0, j], det_el(minor))
        r = arith("+", r, t) if j % 2 == 0 else arith("-", r, t)
    return r


def _invkey(a):
    """identifies a computed inverse by its entries (det and slogdet of an inverse come from the original)"""
    return ("inverse", a.el.shape) + tuple(x.z.get_id() if isinstance(x, SR) else repr(x) for x in a.el.reshape(-1))


class linalg:
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def det(a):
        a = concrete_pres(to_arr(a))
        d = E.defs.get(_invkey(a))
        if d is not None:
            return arith("/", 1, d[0])
        return det_el(a.el)

    @staticmethod
    def inv(a):
        a = concrete_pres(to_arr(a))
        n = a.el.shape[0]
        d = det_el(a.el)
        if not is_sym(d) and d == 0:
            raise _np.linalg.LinAlgError("Singular matrix")
        r = zeros((n, n), float)
        for i in range(n):
            for j in range(n):
                minor = _np.delete(_np.delete(a.el, j, 0), i, 1)
                c = det_el(minor)
                if (i + j) % 2:
                    c = core.neg(c)
                r.el[i, j] = arith("/", c, d)
        if is_sym(d):
            E.defs[_invkey(r)] = (d, r)
        return r

    pinv = None

    @staticmethod
    def slogdet(a):
        a = concrete_pres(to_arr(a))
        d = E.defs.get(_invkey(a))
        flip = d is not None
        d = d[0] if flip else det_el(a.el)
        s = cond(compare(">", d, 0), 1, cond(compare("<", d, 0), -1, 0))
        v = lg(core.absval(d))
        return SlogdetResult(s, core.neg(v) if flip else v)

    @staticmethod
    def solve(a, b):
        return S.matmul(linalg.inv(a), b)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        return la_norm(x, ord, axis, keepdims)

    @staticmethod
    def multi_dot(arrs):
        r = arrs[0]
        for x in arrs[1:]:
            r = S.matmul(r, x)
        return r

    @staticmethod
    def matrix_rank(a, *x, **k):
        return native(_np.linalg.matrix_rank)(a, *x, **k)

    @staticmethod
    def eigvalsh(a):
        return native(_np.linalg.eigvalsh)(a)

    @staticmethod
    def svd(a, *x, **k):
        if k.get("compute_uv") is False:
            return to_arr([nuclear(a)])     # sum of singular values only
        return native(_np.linalg.svd)(a, *x, **k)


from collections import namedtuple
SlogdetResult = namedtuple("SlogdetResult", "sign logabsdet")


def nuclear(x):
    """nuclear norm: an uninterpreted nonnegative function of the (canonicalised) entries"""
    x = concrete_pres(to_arr(x))
    if not has_sym(x):
        return Fraction(float(_np.linalg.norm(concrete(x).astype(float), "nuc"))).limit_denominator(10 ** 12)
    name = "nuc_%dx%d" % x.el.shape
    return core.uf(name, list(x.el.reshape(-1)), lambda r, *z: [r >= 0])


def la_norm(x, ord=None, axis=None, keepdims=False, check_finite=True):
    x = concrete_pres(to_arr(x))
    if axis is not None:
        if ord in (None, 2):
            return sqrt(S.a_sum(S.binop("*", x, x), axis, keepdims=keepdims))
        if ord == 1:
            return S.a_sum(absolute(x), axis, keepdims=keepdims)
        if ord in (float("inf"),):
            return S.a_max(absolute(x), axis, keepdims=keepdims)
        raise Unsupported("norm with axis and ord %r" % (ord,))
    if ord is None or ord == "fro" or (ord == 2 and x.ndim == 1):
        return sq(S.a_sum(S.binop("*", x, x)))
    if ord == "nuc":
        return nuclear(x)
    if x.ndim == 1 and ord == 1:
        return S.a_sum(absolute(x))
    if x.ndim == 1 and ord == float("inf"):
        return S.a_max(absolute(x))
    if x.ndim == 2 and ord == 1:
        return S.a_max(S.a_sum(absolute(x), 0))
    if x.ndim == 2 and ord == 2:
        return core.uf("specnorm_%dx%d" % x.el.shape, list(x.el.reshape(-1)), lambda r, *z: [r >= 0])
    raise Unsupported("norm ord %r" % (ord,))


# --------------------------------------------------------------- namespace
class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(_np, name)        # AttributeError if numpy lacks it too
        if isinstance(v, type) or not callable(v):
            return v
        E.notes.append("native numpy.%s" % name)
        return native(v, name)


def make_numpy(random_shim=None):
    m = NumpyShim()
    d = dict(
        ndarray=SArray, zeros=zeros, ones=ones, full=full, empty=zeros, zeros_like=zeros_like, ones_like=ones_like,
        empty_like=empty_like, full_like=full_like, eye=eye, identity=identity, array=array, asarray=asarray,
        ascontiguousarray=asarray, asanyarray=asarray, arange=arange, linspace=linspace, fromiter=fromiter, copy=copy,
        triu=triu, tril=tril, triu_indices=triu_indices, tril_indices=tril_indices, triu_indices_from=triu_indices_from,
        tril_indices_from=tril_indices_from, diag_indices=diag_indices, diag_indices_from=diag_indices_from,
        concatenate=concatenate, concat=concatenate, vstack=vstack, hstack=hstack, column_stack=column_stack, stack=stack, append=append,
        row_stack=vstack, tile=tile, repeat=repeat, delete=delete, insert=insert, transpose=transpose, permute_dims=transpose, matrix_transpose=transpose,
        fill_diagonal=fill_diagonal, diagonal=diagonal, trace=trace, diag=diag, diagflat=diagflat, ravel=ravel, reshape=reshape,
        squeeze=squeeze, expand_dims=expand_dims, flip=flip, roll=roll, moveaxis=moveaxis, broadcast_to=broadcast_to, take=take,
        block=block, split=split, array_split=array_split, meshgrid=meshgrid, ix_=ix_, ndenumerate=ndenumerate, outer=outer, dot=dot,
        inner=inner, vdot=inner, matmul=S.matmul, kron=kron, einsum=einsum, sqrt=sqrt, log=log, exp=exp, log2=log2, log10=log10, log1p=log1p,
        expm1=expm1, abs=absolute, absolute=absolute, fabs=absolute, negative=negative, sign=sign, floor=floor, ceil=ceil,
        square=square, round=round_, around=round_, rint=round_, isnan=isnan, isinf=isinf, isfinite=isfinite, nan_to_num=nan_to_num,
        isclose=isclose, allclose=allclose, array_equal=array_equal, array_equiv=array_equiv, power=power, pow=power, float_power=float_power,
        add=bi("+"), subtract=bi("-"), multiply=bi("*"), divide=bi("/"), true_divide=bi("/"), floor_divide=bi("//"), mod=bi("%"),
        remainder=bi("%"), bitwise_and=bi("&"), bitwise_or=bi("|"), bitwise_xor=bi("^"),
        equal=cmpf("=="), not_equal=cmpf("!="), less=cmpf("<"), less_equal=cmpf("<="), greater=cmpf(">"), greater_equal=cmpf(">="),
        logical_and=Ufunc(logical(core.b_and), "and"), logical_or=Ufunc(logical(core.b_or), "or"), logical_xor=Ufunc(logical(core.b_xor), "xor"),
        logical_not=logical_not, invert=S.invert, bitwise_not=S.invert, bitwise_invert=S.invert,
        maximum=Ufunc(S.maximum, "max"), minimum=Ufunc(S.minimum, "min"), fmax=Ufunc(S.maximum, "max"), fmin=Ufunc(S.minimum, "min"),
        sort=sort, argsort=argsort, unique=unique, diff=diff, count_nonzero=count_nonzero, ptp=ptp,
        var=var, std=std, mean=_mean, cov=cov, corrcoef=corrcoef, median=median, average=average,
        sum=S.a_sum, prod=S.a_prod, any=S.a_any, all=S.a_all, min=S.a_min, max=S.a_max, amin=S.a_min, amax=S.a_max,
        argmin=S.a_argmin, argmax=S.a_argmax, cumsum=S.a_cumsum, where=S.a_where, clip=S.a_clip, nonzero=S.nonzero,
        flatnonzero=S.flatnonzero, argwhere=S.argwhere, linalg=linalg, atleast_1d=atleast_1d, atleast_2d=atleast_2d,
        nansum=S.a_sum, shape=lambda a: to_arr(a).shape, size=lambda a, axis=None: to_arr(a).size if axis is None else to_arr(a).axlen(axis), ndim=lambda a: to_arr(a).ndim,
        isscalar=lambda v: not isinstance(v, SArray) and (is_sym(v) or _np.isscalar(v)),
        array2string=lambda a, **k: "array", array_repr=lambda a, **k: "array", errstate=_np.errstate, may_share_memory=lambda a, b: a.st is b.st,
        shares_memory=lambda a, b: a.st is b.st, copyto=lambda dst, src, **k: dst.__setitem__(Ellipsis, src), put=None,
        testing=types.SimpleNamespace(), swapaxes=lambda a, i, j: to_arr(a).swapaxes(i, j), result_type=_rt, isin=_isin, in1d=_isin,
        vectorize=_vectorize, apply_along_axis=_apply_along_axis, set_printoptions=lambda *a, **k: None,
        bincount=native(_np.bincount), setdiff1d=native(_np.setdiff1d), union1d=native(_np.union1d), intersect1d=native(_np.intersect1d),
        lexsort=native(_np.lexsort), searchsorted=native(_np.searchsorted), histogram=native(_np.histogram), packbits=native(_np.packbits),
        fliplr=lambda a: flip(a, 1), flipud=lambda a: flip(a, 0), rot90=native(_np.rot90), putmask=_putmask, place=_putmask,
        c_=_AxisConcat(-1, 2, 0), r_=_AxisConcat(), nanmean=_mean, tensordot=_tensordot, select=_select, choose=None,
    )
    for k, v in d.items():
        if v is not None:
            setattr(m, k, v)
    m.typing = types.ModuleType("numpy.typing")
    import numpy.typing as npt
    for n in ("NDArray", "ArrayLike", "DTypeLike"):
        setattr(m.typing, n, getattr(npt, n))
    if random_shim is not None:
        m.random = random_shim
    return m


def _tensordot(a, b, axes=2):
    if axes == 1:
        return S.matmul(a, b)
    raise Unsupported("tensordot")


def _select(conds, vals, default=0):
    r = to_arr(default)
    for c, v in reversed(list(zip(conds, vals))):
        r = S.a_where(c, v, r)
    return r


def _putmask(a, mask, v):
    a[to_arr(mask).astype(bool)] = v


def _rt(*a):
    return _np.result_type(*[x.dtype if isinstance(x, SArray) else x for x in a])


def _isin(a, b, invert=False, **k):
    A = to_arr(a)
    B = to_arr(list(b) if isinstance(b, (set, frozenset)) else b)
    r = SArray(vec1(lambda v: S.contains(B, v), A.el), BOOL, A.pres)
    if invert:
        r = ~r
    return S.unwrap0(r)


def _vectorize(f, *a, **k):
    def g(*xs):
        xs = [to_arr(x) for x in xs]
        els, shp, pres = S.bshape(xs)
        vals = [f(*[e[i] for e in els]) for i in _np.ndindex(*shp)]
        out = _np.empty(shp, object)
        out.reshape(-1)[:] = vals
        return SArray(out, _np.result_type(*[S.scalar_dtype(v) for v in vals]) if vals else FLOAT, pres)
    return g


def _apply_along_axis(f, axis, a, *args, **k):
    a = concrete_pres(to_arr(a))
    ax = axis % a.ndim
    el = _np.moveaxis(a.el, ax, -1)
    res = []
    for i in _np.ndindex(*el.shape[:-1]):
        res.append(to_arr(f(SArray(el[i].copy(), a.dtype), *args, **k)))
    base = stack(res, 0) if res[0].ndim else S.array_from_seq(res)
    b = SArray(base.el.reshape(el.shape[:-1] + base.el.shape[1:]), base.dtype)
    if res[0].ndim:
        b = SArray(_np.moveaxis(b.el, -1, ax), b.dtype)
    return b
