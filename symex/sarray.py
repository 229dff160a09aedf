"""Symbolic numpy arrays.

An SArray is an object ndarray of scalars (concrete, SB, SR, Union) with a numpy dtype and, per
axis, an optional presence vector: slot i of the axis belongs to the array only under the
literal pres.lits[i].  The logical array is the compression of the present slots, so results of
nonzero/boolean-mask/filter operations with input-dependent length stay one object.
"""
from fractions import Fraction
import itertools
import numpy as np
import z3
from .core import *
from .core import E, _unbool
from . import core

BOOL = np.dtype(bool)
INT = np.dtype(np.int64)
FLOAT = np.dtype(np.float64)
OBJ = np.dtype(object)


class Pres:
    """Presence of the slots of an axis."""
    __slots__ = ("lits", "prefix")

    def __init__(self, lits, prefix=False):
        self.lits = tuple(lits)
        self.prefix = prefix

    def __eq__(self, o):
        return self is o or (isinstance(o, Pres) and self.lits == o.lits)

    def __hash__(self):
        return hash(self.lits)

    def __len__(self):
        return len(self.lits)


class Storage:
    __slots__ = ("birth", "ver")

    def __init__(self):
        self.birth = E.pc
        self.ver = 0


def is_arr(v):
    return isinstance(v, SArray)


def cast(v, dt):
    """convert a scalar to an element of dtype dt"""
    k = dt.kind
    v = norm_num(v)
    if k == "b":
        if isinstance(v, (bool, SB)):
            return v
        if isinstance(v, float) and v != v:
            return True
        return mkb(truth(v))
    if k in "iu":
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int) or isinstance(v, SB):
            r = v
        elif isinstance(v, (Union, SR)):
            r = to_int_trunc(v) if not (isinstance(v, SR) and v.is_int) else v
        elif v is None:
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
        elif isinstance(v, str):
            r = int(v)
        elif isinstance(v, float) and v != v:
            return -2 ** 63
        else:
            r = int(v)
        if dt.itemsize < 8 and not isinstance(r, SB):
            r = wrap_int(r, dt)
        elif k == "u" and not isinstance(r, SB):
            r = wrap_int(r, dt)
        return r
    if k == "f":
        if isinstance(v, bool):
            return int(v)
        if v is None:
            return float("nan")
        if isinstance(v, SArray):
            return v.item()
        if isinstance(v, str):
            return float(v)
        return v
    return v


def wrap_int(v, dt):
    bits = dt.itemsize * 8
    lo = 0 if dt.kind == "u" else -(1 << (bits - 1))
    n = 1 << bits

    def w(x):
        x = int(x)
        return (x - lo) % n + lo
    if isinstance(v, SR):
        return SR((v.z - lo) % n + lo)
    if isinstance(v, Union):
        return core.lift_guarded(lambda x: wrap_int(x, dt), v)
    return w(v)


class SArray:
    __symarray__ = True
    __array_priority__ = 2000
    __array_ufunc__ = None
    __slots__ = ("el", "dtype", "pres", "st", "__weakref__")

    def __init__(self, el, dtype, pres=None, st=None):
        self.el = el
        self.dtype = np.dtype(dtype)
        if pres is not None and all(p is None for p in pres):
            pres = None
        self.pres = tuple(pres) if pres is not None else None
        self.st = st or Storage()

    # ---------------------------------------------------------- structure
    def axpres(self, k):
        return self.pres[k] if self.pres is not None else None

    @property
    def ndim(self):
        return self.el.ndim

    def axlen(self, k):
        p = self.axpres(k)
        if p is None:
            return self.el.shape[k]
        return count_true(p.lits)

    @property
    def shape(self):
        return tuple(self.axlen(k) for k in range(self.ndim))

    @shape.setter
    def shape(self, s):
        self.el = reshape(self, s).el

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = arith("*", n, s)
        return n

    def __len__(self):
        n = self.axlen(0)
        if isinstance(n, Union):
            return concretize(n)
        return n

    def symlen(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.axlen(0)

    @property
    def T(self):
        return transpose(self)

    def __repr__(self):
        return "SArray(shape=%s, %s%s)" % (self.el.shape, self.dtype, ", pres" if self.pres else "")

    def __symtruth__(self):
        if self.pres is None:
            if self.el.size == 1:
                return truth(self.el.flat[0])
            if self.el.size == 0:
                raise ValueError("The truth value of an empty array is ambiguous. Use `array.size > 0` to check that an array is not empty.")
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        n = self.size
        A = int_alts(n)
        bad = E.aig.ORN([g for g, k in A if k != 1])
        E.raise_partial(bad, ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"))
        r = 0
        for idx, g in cells(self):
            r = E.aig.OR(r, E.aig.AND(g, truth(self.el[idx])))
        return r

    def __bool__(self):
        return core.fork_bool(self.__symtruth__())

    def __float__(self):
        v = self.item()
        return float(v) if not is_sym(v) else v

    def __int__(self):
        return int(concretize(self.item()))

    def __index__(self):
        if self.ndim != 0 or self.dtype.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(concretize(self.item()))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        p = self.axpres(0)
        for i in range(self.el.shape[0]):
            if p is None or core.fork_bool(p.lits[i]):
                yield self._slot(i)

    def iter_guarded(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        p = self.axpres(0)
        out = []
        for i in range(self.el.shape[0]):
            g = 1 if p is None else p.lits[i]
            if g:
                out.append((g, self._slot(i)))
        return out

    def _slot(self, i):
        """physical slot i of axis 0"""
        if self.ndim == 1:
            return scalar_out(self.el[i], self.dtype)
        return SArray(self.el[i], self.dtype, self.pres[1:] if self.pres else None, self.st)

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __contains__(self, v):
        r = contains(self, v)
        return core.fork_bool(blit(r))

    # ------------------------------------------------------------ indexing
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, v):
        setitem(self, idx, v)

    # ------------------------------------------------------------- methods
    def copy(self, order=None):
        return SArray(self.el.copy(), self.dtype, self.pres)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True, **k):
        dt = as_dtype(dt)
        if dt == self.dtype:
            return self.copy() if copy else self
        return SArray(vec1(lambda x: cast(x, dt), self.el), dt, self.pres)

    def item(self, *idx):
        if idx:
            return getitem(self, idx if len(idx) > 1 else idx[0])
        if self.pres is None:
            if self.el.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return self.el.flat[0]
        n = self.size
        E.raise_partial(truth(compare("!=", n, 1)), ValueError("can only convert an array of size 1 to a Python scalar"))
        return mk_union([(g, self.el[i]) for i, g in cells(self)])

    def fill(self, v):
        setitem(self, Ellipsis, v)

    def tolist(self):
        if self.pres is not None:
            return [x.tolist() if isinstance(x, SArray) else norm_num(x) for x in self]
        def conv(x):
            return [conv(y) for y in x] if isinstance(x, np.ndarray) and x.ndim else (x.item() if isinstance(x, np.ndarray) else x)
        if self.ndim == 0:
            return self.el[()]
        return [conv(x) for x in self.el]

    def nonzero(self):
        return nonzero(self)

    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return reshape(self, s)

    def ravel(self, order="C"):
        return reshape(self, (-1,))

    def flatten(self, order="C"):
        return reshape(self, (-1,)).copy()

    def squeeze(self, axis=None):
        if self.pres is not None:
            raise Unsupported("squeeze with presence")
        return SArray(np.squeeze(self.el, axis), self.dtype, None, self.st)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(self, tuple(ax))

    @property
    def flat(self):
        return reshape(self, (-1,))

    @property
    def nbytes(self):
        return arith("*", self.size, self.dtype.itemsize)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def view(self, *a):
        if a and isinstance(a[0], (type, np.dtype, str)) and a[0] is not SArray and as_dtype(a[0]) != self.dtype:
            raise Unsupported("view with another dtype")
        return SArray(self.el, self.dtype, self.pres, self.st)

    def __neg__(self):
        if self.dtype.kind == "b":
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported, use the `~` operator or the logical_not function instead.")
        return SArray(vec1(core.neg, self.el), self.dtype, self.pres)

    def __pos__(self):
        return self.copy()

    def __invert__(self):
        return invert(self)

    def __abs__(self):
        return SArray(vec1(core.absval, self.el), self.dtype, self.pres)

    @property
    def real(self):
        return self


def as_dtype(dt):
    if dt is None:
        return FLOAT
    if dt is bool:
        return BOOL
    if dt is int:
        return INT
    if dt is float:
        return FLOAT
    if isinstance(dt, Fraction):
        return FLOAT
    return np.dtype(dt)


def vec1(f, el):
    out = np.empty(el.shape, object)
    of, ef = out.reshape(-1), el.reshape(-1)
    for i in range(ef.shape[0]):
        of[i] = f(ef[i])
    return out


def cells(a):
    """(physical index tuple, presence literal) of all slots"""
    shp = a.el.shape
    if a.pres is None:
        return [(i, 1) for i in np.ndindex(*shp)]
    out = []
    for i in np.ndindex(*shp):
        g = 1
        for k, p in enumerate(a.pres):
            if p is not None:
                g = E.aig.AND(g, p.lits[i[k]])
                if g == 0:
                    break
        if g:
            out.append((i, g))
    return out


class NPBool(SB):
    pass


def scalar_out(v, dtype):
    """element leaving an array: numpy scalars keep numpy semantics where it matters"""
    if not is_sym(v) and isinstance(v, (bool, int, float, Fraction)):
        if dtype.kind == "b":
            return np.bool_(bool(v))
        if dtype.kind in "iu" and not isinstance(v, Fraction):
            return dtype.type(int(v))
        if dtype.kind == "f" and isinstance(v, (float, int)):
            return np.float64(v)
        if isinstance(v, Fraction):
            return core.QF(v)
    return v


def drop_trivial(pres):
    return None if pres is None or all(p is None for p in pres) else pres


def simp_axis(a, k):
    """Remove slots that can never be present; drop presence if all slots always are."""
    p = a.axpres(k)
    if p is None:
        return a
    lits = p.lits
    if all(l == 1 for l in lits):
        pr = list(a.pres)
        pr[k] = None
        return SArray(a.el, a.dtype, pr, a.st)
    if any(l == 0 for l in lits):
        keep = [i for i, l in enumerate(lits) if l != 0]
        pr = list(a.pres)
        nl = [lits[i] for i in keep]
        pr[k] = None if all(l == 1 for l in nl) else Pres(nl, p.prefix)
        return SArray(np.take(a.el, keep, axis=k), a.dtype, pr, a.st)
    return a


def compact(a, k=0):
    """Prefix form of axis k: slot j holds the j-th present element."""
    p = a.axpres(k)
    if p is None or p.prefix:
        return a
    aig = E.aig
    lits = p.lits
    cnt = prefix_counts(lits)
    n = len(lits)
    el = np.moveaxis(a.el, k, 0)
    out = np.empty(el.shape, object)
    pl = []
    for j in range(n):
        sel = [(aig.AND(cnt[i][j], lits[i]) if j < len(cnt[i]) else 0) for i in range(n)]
        g = aig.ORN(sel)
        pl.append(g)
        for idx in np.ndindex(*el.shape[1:]):
            alts = [(sel[i], el[(i,) + idx]) for i in range(n) if sel[i]]
            out[(j,) + idx] = mk_union(alts) if alts else 0
    pr = list(a.pres)
    pr[k] = Pres(pl, True)
    r = SArray(np.moveaxis(out, 0, k), a.dtype, pr)
    return simp_axis(r, k)


def densify(a):
    """Array without presence if the presence is semantically constant, else None."""
    return None


def to_arr(v, dtype=None):
    """anything array-like -> SArray"""
    if isinstance(v, SArray):
        return v
    if isinstance(v, np.ndarray):
        dt = v.dtype
        el = np.empty(v.shape, object)
        ef = el.reshape(-1)
        for i, x in enumerate(v.reshape(-1).tolist()):
            ef[i] = x
        return SArray(el, dt if dt.kind in "biuf" else dt)
    if isinstance(v, (list, tuple)) or hasattr(v, "__symseq__"):
        return array_from_seq(v, dtype)
    if isinstance(v, range):
        return array_from_seq(list(v), dtype)
    el = np.empty((), object)
    if isinstance(v, Union) and any(isinstance(x, SArray) for _, x in v.alts):
        m = merge_view(v)
        if isinstance(m, SArray):
            return m
        raise Unsupported("union of arrays of different shapes as array")
    el[()] = norm_num(v)
    return SArray(el, scalar_dtype(v))


def scalar_dtype(v):
    if isinstance(v, np.generic):
        return v.dtype
    if isinstance(v, (bool, SB)):
        return BOOL
    if isinstance(v, int):
        return INT
    if isinstance(v, (float, Fraction)):
        return FLOAT
    if isinstance(v, SR):
        return INT if v.is_int else FLOAT
    if isinstance(v, Union):
        ks = {scalar_dtype(x).kind for _, x in v.alts}
        if ks <= set("b"):
            return BOOL
        if ks <= set("biu"):
            return INT
        if ks <= set("biuf"):
            return FLOAT
        return OBJ
    return OBJ


def array_from_seq(v, dtype=None):
    if hasattr(v, "__symseq__"):
        items = v.guarded_items()
    else:
        items = [(1, x) for x in v]
    allg = all(g == 1 for g, _ in items)
    conv = []
    for g, x in items:
        if isinstance(x, Union) and any(isinstance(y, SArray) for _, y in x.alts):
            x = merge_view(x)
        if isinstance(x, (list, tuple, SArray, np.ndarray, range)) or hasattr(x, "__symseq__"):
            x = to_arr(x)
        conv.append(x)
    pr0 = None if allg else Pres([g for g, _ in items], getattr(v, "prefix", False))
    if not conv:
        return SArray(np.empty((0,), object), dtype or FLOAT)
    if any(isinstance(x, SArray) and x.ndim > 0 for x in conv):
        conv = [x if isinstance(x, SArray) else to_arr(x) for x in conv]
        shp = conv[0].el.shape
        if any(x.el.shape != shp for x in conv) or len({x.pres for x in conv}) != 1:
            # unify padded first axis
            if all(x.ndim == 1 for x in conv):
                conv = unify_ragged(conv, items)
                shp = conv[0].el.shape
            else:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.")
        dt = dtype or np.result_type(*[x.dtype for x in conv])
        el = np.empty((len(conv),) + shp, object)
        for i, x in enumerate(conv):
            el[i] = x.el
        sub = conv[0].pres
        pres = [pr0] + (list(sub) if sub else [None] * len(shp))
        r = SArray(el, np.result_type(*[x.dtype for x in conv]), pres)
        return r.astype(dt) if dt != r.dtype else r
    vals = [x.el[()] if isinstance(x, SArray) else x for x in conv]
    dts = [x.dtype if isinstance(x, SArray) else scalar_dtype(x) for x in conv]
    dt = dtype or (OBJ if any(d == OBJ for d in dts) else np.result_type(*dts))
    el = np.empty((len(vals),), object)
    for i, x in enumerate(vals):
        el[i] = cast(x, dt) if dt != OBJ else x
    return SArray(el, dt, [pr0])


def unify_ragged(conv, items):
    """1-d arrays of different symbolic lengths stacked: numpy needs equal lengths."""
    conv = [compact(x) for x in conv]
    n = max(x.el.shape[0] for x in conv)
    lens = [x.axlen(0) for x in conv]
    for (g, _), l in zip(items, lens):
        bad = truth(compare("!=", l, lens[0]))
        E.raise_partial(E.aig.AND(bad, E.aig.AND(g, items[0][0])), ValueError("inhomogeneous shape"))
    m = min(conv, key=lambda x: x.el.shape[0])
    k = m.el.shape[0]
    return [SArray(x.el[:k].copy(), x.dtype, m.pres) for x in conv]


# ------------------------------------------------------------------ broadcasting
def align(arrs):
    """Give arrays (already same ndim after padding) a common presence per axis."""
    return arrs


def bshape(arrs):
    """Broadcast arrays; returns (list of broadcast element arrays, shape, presence)."""
    nd = max(a.ndim for a in arrs)
    axes = []
    work = list(arrs)
    # pad dims
    els = []
    press = []
    for a in work:
        pad = nd - a.ndim
        els.append(a.el.reshape((1,) * pad + a.el.shape))
        press.append([None] * pad + (list(a.pres) if a.pres else [None] * a.ndim))
    for k in range(nd):
        ps = [(i, press[i][k]) for i in range(len(work)) if press[i][k] is not None]
        if not ps:
            continue
        same = all(p == ps[0][1] for _, p in ps)
        others = [i for i in range(len(work)) if press[i][k] is None and els[i].shape[k] != 1]
        if same and not others:
            continue
        # misaligned: bring everything to prefix form on this axis
        lens = []
        for i in range(len(work)):
            a = SArray(els[i], work[i].dtype, press[i])
            if press[i][k] is not None:
                a = compact(a, k)
                els[i] = a.el
                press[i] = list(a.pres) if a.pres else [None] * nd
            if not (press[i][k] is None and els[i].shape[k] == 1):
                lens.append((i, a.axlen(k)))
        i0, l0 = lens[0]
        for i, l in lens[1:]:
            ok = E.aig.OR(truth(compare("==", l, l0)), E.aig.OR(truth(compare("==", l, 1)), truth(compare("==", l0, 1))))
            E.raise_partial(ok ^ 1, ValueError("operands could not be broadcast together"))
            # length-1 broadcasting of symbolic length arrays is only supported when impossible
            diff = E.aig.AND(E.pc, truth(compare("!=", l, l0)))
            if E.aig.feasible(diff):
                raise Unsupported("symbolic length-1 broadcasting")
        n = min(els[i].shape[k] for i, _ in lens)
        pp = None
        for i, _ in lens:
            if press[i][k] is not None:
                pp = Pres(press[i][k].lits[:n], True)
        for i, _ in lens:
            els[i] = np.take(els[i], range(n), axis=k)
            press[i][k] = pp
    try:
        shp = np.broadcast_shapes(*[e.shape for e in els])
    except ValueError:
        raise ValueError("operands could not be broadcast together with shapes " + " ".join(str(a.el.shape) for a in arrs))
    pres = []
    for k in range(nd):
        p = None
        for i in range(len(work)):
            if press[i][k] is not None:
                p = press[i][k]
        # an axis of physical length 1 with presence broadcast against longer one
        if p is not None and shp[k] != len(p.lits):
            raise Unsupported("broadcast of a symbolic-length axis")
        pres.append(p)
    return [np.broadcast_to(e, shp) for e in els], shp, drop_trivial(pres)


def elementwise(f, arrs, dtype):
    els, shp, pres = bshape(arrs)
    out = np.empty(shp, object)
    of = out.reshape(-1)
    its = [e.reshape(-1) for e in els]
    if len(its) == 2:
        x, y = its
        for i in range(of.shape[0]):
            of[i] = f(x[i], y[i])
    elif len(its) == 1:
        x = its[0]
        for i in range(of.shape[0]):
            of[i] = f(x[i])
    else:
        for i in range(of.shape[0]):
            of[i] = f(*[t[i] for t in its])
    return SArray(out, dtype, pres)


_DT_CACHE = {}
_OPF = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide, "//": np.floor_divide,
        "%": np.remainder, "**": np.power, "&": np.bitwise_and, "|": np.bitwise_or, "^": np.bitwise_xor,
        "<<": np.left_shift, ">>": np.right_shift}


def weak(v):
    """stand-in operand for numpy's result type rules"""
    if isinstance(v, SArray):
        if v.dtype == OBJ:
            return np.ones(1, object)
        return np.ones((1,), v.dtype)
    if isinstance(v, np.generic):
        return v.dtype.type(1)
    if isinstance(v, (bool, SB)):
        return True
    if isinstance(v, int):
        return 1
    if isinstance(v, (float, Fraction)):
        return 1.0
    if isinstance(v, SR):
        return 1 if v.is_int else 1.0
    if isinstance(v, Union):
        d = scalar_dtype(v)
        return {"b": True, "i": 1, "f": 1.0}.get(d.kind, None)
    return None


def op_dtype(op, a, b):
    wa, wb = weak(a), weak(b)
    if wa is None or wb is None:
        return OBJ
    key = (op, type(wa), getattr(wa, "dtype", None), type(wb), getattr(wb, "dtype", None))
    if key not in _DT_CACHE:
        try:
            _DT_CACHE[key] = _OPF[op](wa, wb).dtype
        except TypeError as e:
            _DT_CACHE[key] = e
    r = _DT_CACHE[key]
    if isinstance(r, Exception):
        raise TypeError(str(r))
    return r


def np_div(x, y):
    """elementwise true division with numpy semantics for concrete zero divisors"""
    if not is_sym(y) and to_frac_safe(y) == 0:
        if is_sym(x):
            if isinstance(x, Union) or isinstance(x, SB):
                return mk_union([(g, np_div(v, y)) for g, v in alts_of(x)])
            raise Unsupported("symbolic value divided by zero")
        fx = float(x)
        if fx != fx or fx == 0:
            return float("nan")
        return float("inf") if fx > 0 else float("-inf")
    if isinstance(y, (Union, SB)) and not isinstance(x, SR):
        ya = alts_of(y)
        if all(is_num(v) for _, v in ya):
            return mk_union([(g, np_div(x, v)) for g, v in ya])
    if isinstance(x, (Union, SB)) and is_num(y):
        return mk_union([(g, np_div(v, y)) for g, v in alts_of(x)])
    return arith("/", x, y)


def to_frac_safe(v):
    try:
        return to_frac(v)
    except Unsupported:
        return None


def scalar_op(op, dt, both_bool):
    if both_bool:
        if op in ("+", "|"):
            return core.b_or
        if op in ("*", "&"):
            return core.b_and
        if op == "^":
            return core.b_xor
    if op == "/":
        f = np_div
    elif op == "//":
        def f(x, y):
            if not is_sym(y) and to_frac_safe(y) == 0:
                return 0 if dt.kind in "iu" else float("nan")
            return arith("//", x, y)
    elif op == "*" and dt.kind in "iu":
        def f(x, y):
            # 0/1 bits multiply as conjunction
            if isinstance(x, (SB, bool)) and isinstance(y, (SB, bool)):
                return core.b_and(x, y)
            if isinstance(x, SB) and is_num(y):
                return cond(x, y, 0)
            if isinstance(y, SB) and is_num(x):
                return cond(y, x, 0)
            return arith("*", x, y)
    elif op in ("&", "|", "^"):
        def f(x, y):
            if isinstance(x, (SB, bool)) and isinstance(y, (SB, bool)):
                return {"&": core.b_and, "|": core.b_or, "^": core.b_xor}[op](x, y)
            if isinstance(x, SB):
                x = core.b2u(x)
            if isinstance(y, SB):
                y = core.b2u(y)
            return arith(op, x, y)
    else:
        def f(x, y):
            return arith(op, x, y)
    if dt.kind in "iu" and (dt.itemsize < 8 or dt.kind == "u"):
        return lambda x, y: wrap_int(f(x, y), dt)
    return f


def binop(op, a, b):
    """numpy binary operator on SArray / scalars"""
    for x in (a, b):
        if not (isinstance(x, (SArray, np.ndarray, list, tuple, np.generic)) or is_num(x) or is_sym(x) or hasattr(x, "__symseq__")):
            if x is None:
                raise TypeError("unsupported operand type(s) for %s" % op)
            return NotImplemented
    if isinstance(a, (np.ndarray, list, tuple)) or hasattr(a, "__symseq__"):
        a = to_arr(a)
    if isinstance(b, (np.ndarray, list, tuple)) or hasattr(b, "__symseq__"):
        b = to_arr(b)
    dt = op_dtype(op, a, b)
    da = a.dtype if isinstance(a, SArray) else scalar_dtype(a)
    db = b.dtype if isinstance(b, SArray) else scalar_dtype(b)
    if op == "**" and not isinstance(b, SArray) and is_num(b) and b == 2 and da.kind != "b":
        r = elementwise(scalar_op("*", dt, False), [to_arr(a), to_arr(a)], dt)
        return unwrap0(r, a, b)
    f = scalar_op(op, dt, da.kind == "b" and db.kind == "b")
    r = elementwise(f, [to_arr(a), to_arr(b)], dt)
    return unwrap0(r, a, b)


def unwrap0(r, *args):
    if r.ndim == 0:
        return scalar_out(r.el[()], r.dtype)
    return r


def cmpop(op, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        arr = a if isinstance(a, SArray) else b
        return SArray(vec1(lambda x: op == "!=", arr.el), BOOL, arr.pres)
    r = elementwise(lambda x, y: compare(op, x, y), [to_arr(a), to_arr(b)], BOOL)
    return unwrap0(r)


def invert(a):
    if not isinstance(a, SArray):
        a = to_arr(a)
    if a.dtype.kind == "b":
        return SArray(vec1(core.b_not, a.el), BOOL, a.pres)
    if a.dtype.kind in "iu":
        def f(x):
            if isinstance(x, SB):
                x = core.b2u(x)
            return arith("-", core.neg(x), 1)
        return SArray(vec1(f, a.el), a.dtype, a.pres)
    raise TypeError("ufunc 'invert' not supported for the input types")


def _mkops():
    def mk(op, rev):
        def f(self, o):
            return binop(op, o, self) if rev else binop(op, self, o)
        return f

    def mki(op):
        def f(self, o):
            r = binop(op, self, o)
            if r is NotImplemented:
                return r
            ra = to_arr(r)
            if ra.el.shape != self.el.shape:
                raise ValueError("non-broadcastable output operand")
            if not np.can_cast(ra.dtype, self.dtype, casting="same_kind"):
                raise TypeError("Cannot cast ufunc output from dtype('%s') to dtype('%s') with casting rule 'same_kind'" % (ra.dtype, self.dtype))
            store_all(self, ra)
            return self
        return f

    def mkc(op):
        def f(self, o):
            return cmpop(op, self, o)
        return f
    for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"),
                   ("pow", "**"), ("and", "&"), ("or", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>")):
        setattr(SArray, "__%s__" % nm, mk(op, False))
        setattr(SArray, "__r%s__" % nm, mk(op, True))
        setattr(SArray, "__i%s__" % nm, mki(op))
    for nm, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        setattr(SArray, "__%s__" % nm, mkc(op))
    SArray.__matmul__ = lambda self, o: matmul(self, o)
    SArray.__rmatmul__ = lambda self, o: matmul(o, self)

    def imm(self, o):
        store_all(self, matmul(self, o))
        return self
    SArray.__imatmul__ = imm


_mkops()


def store_all(a, ra):
    """in-place overwrite of all of a's slots with ra's (same physical shape)"""
    g = E.rel(a.st.birth)
    a.st.ver += 1
    if a.pres is None or ra.pres == a.pres or ra.pres is None:
        if ra.pres is not None and a.pres is None:
            ra = compact(ra)
        for i in np.ndindex(*a.el.shape):
            a.el[i] = merge(g, cast(ra.el[i], a.dtype), a.el[i])
        return
    setitem(a, Ellipsis, ra)


# -------------------------------------------------------------------- sums
def sum_scalars(vals, dt):
    """sum of (guard, scalar) pairs; dt is the dtype of the elements"""
    lits = []
    rest = []
    const = 0
    aig = E.aig
    for g, v in vals:
        if isinstance(v, (bool, SB)):
            lits.append(aig.AND(g, blit(v)))
        elif g == 1 and is_num(v):
            const = arith("+", const, v)
        elif g == 1:
            rest.append(v)
        elif is_num(v) and v == 1 and not isinstance(v, (float, Fraction)):
            lits.append(g)
        else:
            rest.append(merge(g, v, 0))
    r = count_true(lits) if lits else 0
    if rest and all(isinstance(x, SR) for x in rest):
        zs = [to_z3(x) for x in rest]
        if any(z.is_real() for z in zs):
            zs = [z3.ToReal(z) if z.is_int() else z for z in zs]
        r2 = SR(z3.Sum(zs) if len(zs) > 1 else zs[0])
        r = r2 if not is_sym(r) and r == 0 else arith("+", r, r2)
    else:
        for x in rest:
            r = arith("+", r, x)
    if not (not is_sym(const) and const == 0):
        r = arith("+", r, const)
    return r


def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(int(x) % nd for x in axis)
    axis = int(axis)
    if axis >= nd or axis < -nd:
        raise np.exceptions.AxisError(axis, nd)
    return (axis % nd,)


def reduce_axis(a, axis, f, dtype, keepdims=False):
    """f(list of (guard, value)) -> scalar, reducing the axes"""
    axes = norm_axis(axis, a.ndim)
    rest = [k for k in range(a.ndim) if k not in axes]
    el = np.transpose(a.el, rest + list(axes))
    rshape = tuple(a.el.shape[k] for k in rest)
    out = np.empty(rshape, object)
    sub = [a.axpres(k) for k in axes]
    axshape = tuple(a.el.shape[k] for k in axes)
    gs = []
    for idx in np.ndindex(*axshape):
        g = 1
        for k, p in enumerate(sub):
            if p is not None:
                g = E.aig.AND(g, p.lits[idx[k]])
        gs.append((idx, g))
    for i in np.ndindex(*rshape):
        out[i] = f([(g, el[i + idx]) for idx, g in gs if g])
    pres = [a.axpres(k) for k in rest]
    r = SArray(out, dtype, pres)
    if keepdims:
        shp = tuple(1 if k in axes else a.el.shape[k] for k in range(a.ndim))
        pr = [None if k in axes else a.axpres(k) for k in range(a.ndim)]
        return SArray(out.reshape(shp), dtype, pr)
    if r.ndim == 0:
        return scalar_out(r.el[()], r.dtype)
    return r


def a_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=None):
    a = to_arr(a)
    if where is not None and where is not True:
        a = a_where(where, a, 0)
    dt = a.dtype
    if dtype is not None:
        a = a.astype(as_dtype(dtype))
        odt = as_dtype(dtype)
        if odt.kind == "b":
            return reduce_axis(a, axis, lambda vs: mkb(E.aig.ORN([E.aig.AND(g, truth(v)) for g, v in vs])), BOOL, keepdims)
    else:
        odt = INT if dt.kind in "b" or (dt.kind == "i" and dt.itemsize < 8) else dt
        if dt.kind == "u":
            odt = np.dtype(np.uint64)
    r = reduce_axis(a, axis, lambda vs: sum_scalars(vs, dt), odt, keepdims)
    if odt.kind in "iu" and odt.itemsize < 8:
        r = to_arr(r).astype(odt) if isinstance(r, SArray) else wrap_int(r, odt)
    if not (is_num(initial) and initial == 0):
        r = binop("+", r, initial) if isinstance(r, SArray) else arith("+", r, initial)
    return r


def prod_scalars(vals):
    r = 1
    for g, v in vals:
        r = arith("*", r, v if g == 1 else merge(g, v, 1))
    return r


def a_prod(a, axis=None, dtype=None, keepdims=False, **k):
    a = to_arr(a)
    return reduce_axis(a, axis, prod_scalars, INT if a.dtype.kind in "bi" else a.dtype, keepdims)


def a_any(a, axis=None, out=None, keepdims=False, **k):
    a = to_arr(a)
    return reduce_axis(a, axis, lambda vs: mkb(E.aig.ORN([E.aig.AND(g, truth(v)) for g, v in vs])), BOOL, keepdims)


def a_all(a, axis=None, out=None, keepdims=False, **k):
    a = to_arr(a)
    return reduce_axis(a, axis, lambda vs: mkb(E.aig.ORN([E.aig.AND(g, truth(v) ^ 1) for g, v in vs]) ^ 1), BOOL, keepdims)


def a_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = to_arr(a)
    axes = norm_axis(axis, a.ndim)
    s = a_sum(a, axis, keepdims=keepdims)
    n = 1
    for ax in axes:
        n = arith("*", n, a.axlen(ax))
    if isinstance(s, SArray):
        r = binop("/", s, n)
        return r
    if not is_sym(n) and n == 0:
        return float("nan")
    return np_div(norm_num(s), n)


def pick_extreme(vals, op):
    best = None
    bg = 0
    aig = E.aig
    for g, v in vals:
        if best is None:
            best, bg = v, g
            continue
        better = blit(compare(op, v, best))
        take = aig.AND(g, aig.OR(bg ^ 1, better))
        best = merge(take, v, best)
        bg = aig.OR(bg, g)
    return best, bg


def a_minmax(op, name):
    def f(a, axis=None, out=None, keepdims=False, initial=None, **k):
        a = to_arr(a)
        if a.dtype.kind == "b":
            if op == "<":
                return a_all(a, axis, keepdims=keepdims)
            return a_any(a, axis, keepdims=keepdims)

        def red(vs):
            if initial is not None:
                vs = [(1, initial)] + list(vs)
            best, bg = pick_extreme(vs, op) if vs else (None, 0)
            E.raise_partial(bg ^ 1, ValueError("zero-size array to reduction operation %s which has no identity" % name))
            return best
        return reduce_axis(a, axis, red, a.dtype, keepdims)
    return f


a_min = a_minmax("<", "minimum")
a_max = a_minmax(">", "maximum")


def a_arg(op, name):
    def f(a, axis=None, out=None, keepdims=False):
        a = to_arr(a)
        if axis is None:
            if a.ndim != 1:
                if a.pres is not None:
                    raise Unsupported("argmin of n-d array with presence")
                a = reshape(a, (-1,))
            axis = 0
        ax = norm_axis(axis, a.ndim)[0]
        p = a.axpres(ax)
        if p is not None and not p.prefix:
            cnt = prefix_counts(p.lits)
        else:
            cnt = None

        def red(vs):
            # vs in physical slot order; logical index = number of present slots before
            best = bi = None
            bg = 0
            aig = E.aig
            j = -1
            for g, v in vs:
                j += 1
                i = slots[j]
                if cnt is None:
                    li = i
                else:
                    alts = [(c, k) for k, c in enumerate(cnt[i]) if c]
                    li = mk_union(alts) if alts else 0
                if best is None:
                    best, bi, bg = v, li, g
                    continue
                better = blit(compare(op, v, best))
                take = aig.AND(g, aig.OR(bg ^ 1, better))
                best = merge(take, v, best)
                bi = merge(take, li, bi)
                bg = aig.OR(bg, g)
            if best is None:
                bg = 0
            E.raise_partial(bg ^ 1, ValueError("attempt to get %s of an empty sequence" % name))
            return bi
        slots = [i for i in range(a.el.shape[ax]) if p is None or p.lits[i]]
        return reduce_axis(a, ax, red, INT, keepdims)
    return f


a_argmin = a_arg("<", "argmin")
a_argmax = a_arg(">", "argmax")


def a_cumsum(a, axis=None, dtype=None, out=None):
    a = to_arr(a)
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    ax = norm_axis(axis, a.ndim)[0]
    el = np.moveaxis(a.el, ax, 0)
    o = np.empty(el.shape, object)
    p = a.axpres(ax)
    for i in range(el.shape[0]):
        for idx in np.ndindex(*el.shape[1:]):
            v = el[(i,) + idx]
            if p is not None:
                v = merge(p.lits[i], v, 0)
            if i == 0:
                o[(i,) + idx] = to_int_trunc(v) if isinstance(v, bool) else v
            else:
                o[(i,) + idx] = arith("+", o[(i - 1,) + idx], v)
    return SArray(np.moveaxis(o, 0, ax), INT if a.dtype.kind in "bi" else a.dtype, a.pres)


def a_where(c, x=None, y=None):
    if x is None:
        return nonzero(to_arr(c))
    X, Y = to_arr(x), to_arr(y)
    wx, wy = weak(x if not isinstance(x, (list, tuple)) else X), weak(y if not isinstance(y, (list, tuple)) else Y)
    dt = np.where(np.ones(1, bool), wx, wy).dtype if wx is not None and wy is not None else OBJ
    r = elementwise(lambda c, a, b: merge(truth(c), a, b), [to_arr(c), X, Y], dt)
    return unwrap0(r)


def a_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = to_arr(a)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        store_all(out, to_arr(r))
        return out
    return r


def maximum(a, b):
    dt = np.result_type(to_arr(a).dtype if isinstance(a, SArray) else weak(a), to_arr(b).dtype if isinstance(b, SArray) else weak(b))
    return unwrap0(elementwise(lambda x, y: merge(blit(compare(">=", x, y)), x, y), [to_arr(a), to_arr(b)], dt))


def minimum(a, b):
    dt = np.result_type(to_arr(a).dtype if isinstance(a, SArray) else weak(a), to_arr(b).dtype if isinstance(b, SArray) else weak(b))
    return unwrap0(elementwise(lambda x, y: merge(blit(compare("<=", x, y)), x, y), [to_arr(a), to_arr(b)], dt))


# ---------------------------------------------------------------- structure
def transpose(a, axes=None):
    a = to_arr(a)
    pr = None
    if a.pres is not None:
        ax = tuple(reversed(range(a.ndim))) if axes is None else axes
        pr = [a.pres[k] for k in ax]
    return SArray(np.transpose(a.el, axes), a.dtype, pr, a.st)


def reshape(a, s):
    a = to_arr(a)
    if not isinstance(s, (tuple, list)):
        s = (s,)
    s = tuple(x for x in s)
    s = tuple(norm_num(x) for x in s)
    if any(is_sym(x) for x in s):
        s2 = []
        for x in s:
            x = restrict(x, solve=True) if isinstance(x, Union) else x
            if is_sym(x):
                # symbolic extent must match a presence axis
                for k in range(a.ndim):
                    if a.axpres(k) is not None and not E.feasible(truth(compare("!=", a.axlen(k), x))):
                        x = ("pres", k)
                        break
                else:
                    raise Unsupported("reshape to symbolic shape")
            s2.append(x)
        s = tuple(s2)
    if a.pres is None:
        try:
            return SArray(a.el.reshape(tuple(int(x) for x in s)), a.dtype, None, a.st)
        except ValueError as e:
            raise ValueError(str(e))
    pax = [k for k in range(a.ndim) if a.axpres(k) is not None]
    if len(pax) == 1:
        k = pax[0]
        # keep the presence axis, reshape around it: match by position of (-1 | pres | equal len)
        inner = int(np.prod(a.el.shape[k + 1:], dtype=int))
        outer = int(np.prod(a.el.shape[:k], dtype=int))
        for j, x in enumerate(s):
            if x == -1 or (isinstance(x, tuple) and x[1] == k):
                o2 = int(np.prod([int(y) for y in s[:j] if not isinstance(y, tuple)], dtype=int))
                i2 = int(np.prod([int(y) for y in s[j + 1:] if not isinstance(y, tuple)], dtype=int))
                if o2 == outer and i2 == inner:
                    ns = [int(y) if not isinstance(y, tuple) and y != -1 else a.el.shape[k] for y in s]
                    pr = [None] * len(s)
                    pr[j] = a.axpres(k)
                    return SArray(a.el.reshape(ns), a.dtype, pr, a.st)
        if len(s) == 1 and s[0] == -1:
            lits = [g for _, g in cells_all(a)]
            return SArray(a.el.reshape(-1), a.dtype, [Pres(lits)], a.st)
    elif len(s) == 1 and s[0] == -1:
        lits = [g for _, g in cells_all(a)]
        return SArray(a.el.reshape(-1), a.dtype, [Pres(lits)], a.st)
    raise Unsupported("reshape of symbolic-length array")


def cells_all(a):
    out = []
    for i in np.ndindex(*a.el.shape):
        g = 1
        if a.pres is not None:
            for k, p in enumerate(a.pres):
                if p is not None:
                    g = E.aig.AND(g, p.lits[i[k]])
        out.append((i, g))
    return out


def nonzero(a):
    a = to_arr(a)
    if a.ndim == 0:
        raise ValueError("Calling nonzero on 0d arrays is not allowed.")
    lits = []
    phys = []
    for i, g in cells_all(a):
        lits.append(E.aig.AND(g, truth(a.el[i])))
        phys.append(i)
    keep = [j for j, l in enumerate(lits) if l]
    lits = [lits[j] for j in keep]
    p = None if all(l == 1 for l in lits) else Pres(lits)
    # logical indices
    res = []
    for k in range(a.ndim):
        ap = a.axpres(k)
        el = np.empty(len(keep), object)
        if ap is None or ap.prefix:
            for t, j in enumerate(keep):
                el[t] = phys[j][k]
        else:
            cnt = prefix_counts(ap.lits)
            for t, j in enumerate(keep):
                i = phys[j][k]
                el[t] = mk_union([(c, m) for m, c in enumerate(cnt[i]) if c])
        res.append(SArray(el, INT, [p]))
    return tuple(res)


def flatnonzero(a):
    a = to_arr(a)
    return nonzero(reshape(a, (-1,)))[0]


def argwhere(a):
    a = to_arr(a)
    if a.ndim == 0:
        a = reshape(a, (1,))
    nz = nonzero(a)
    el = np.stack([x.el for x in nz], axis=1) if len(nz[0].el) else np.empty((0, a.ndim), object)
    return SArray(el, INT, [nz[0].axpres(0), None])


def matmul(a, b):
    a = to_arr(a)
    b = to_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    va = a.ndim == 1
    vb = b.ndim == 1
    A = SArray(a.el.reshape(1, -1), a.dtype, [None, a.axpres(0)]) if va else a
    B = SArray(b.el.reshape(-1, 1), b.dtype, [b.axpres(0), None]) if vb else b
    if A.ndim != 2 or B.ndim != 2:
        raise Unsupported("matmul of >2-d arrays")
    pa, pb = A.axpres(1), B.axpres(0)
    if pa is None and pb is None:
        if A.el.shape[1] != B.el.shape[0]:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)" % (B.el.shape[0], A.el.shape[1]))
    elif not (pa == pb):
        A = compact(A, 1)
        B = compact(B, 0)
        E.raise_partial(truth(compare("!=", A.axlen(1), B.axlen(0))), ValueError("matmul: mismatch in core dimension"))
        n = min(A.el.shape[1], B.el.shape[0])
        pp = A.axpres(1) or B.axpres(0)
        A = SArray(A.el[:, :n], A.dtype, [A.axpres(0), Pres(pp.lits[:n], True)])
        B = SArray(B.el[:n], B.dtype, [Pres(pp.lits[:n], True), B.axpres(1)])
    ps = A.axpres(1)
    dt = np.result_type(A.dtype, B.dtype)
    n, m, K = A.el.shape[0], B.el.shape[1], A.el.shape[1]
    out = np.empty((n, m), object)
    bb = dt.kind == "b"
    for i in range(n):
        for j in range(m):
            if bb:
                out[i, j] = mkb(E.aig.ORN([E.aig.ANDN([blit(A.el[i, k]), blit(B.el[k, j])] + ([ps.lits[k]] if ps else [])) for k in range(K)]))
            else:
                out[i, j] = dotsum([(1 if ps is None else ps.lits[k], A.el[i, k], B.el[k, j]) for k in range(K)], dt)
    pr = [A.axpres(0), B.axpres(1)]
    r = SArray(out, dt, pr)
    if va and vb:
        return scalar_out(r.el[0, 0], dt)
    if va:
        return SArray(r.el[0], dt, [pr[1]])
    if vb:
        return SArray(r.el[:, 0], dt, [pr[0]])
    return r


def dotsum(terms, dt):
    f = scalar_op("*", INT if dt.kind in "iu" else FLOAT, False)
    vals = []
    for g, x, y in terms:
        if not is_sym(x) and x == 0 or not is_sym(y) and y == 0:
            continue
        if isinstance(x, (SB, bool)) and isinstance(y, (SB, bool)):
            vals.append((g, core.b_and(x, y)))
        elif isinstance(x, SB) and (is_num(y) or isinstance(y, SR)):
            vals.append((g, cond(x, y, 0)))
        elif isinstance(y, SB) and (is_num(x) or isinstance(x, SR)):
            vals.append((g, cond(y, x, 0)))
        else:
            vals.append((g, f(x, y)))
    r = sum_scalars(vals, dt)
    if dt.kind in "iu" and dt.itemsize < 8:
        r = wrap_int(r, dt)
    return r


def merge_view(u):
    """Union of arrays -> one (fresh) array if shapes/presence can be reconciled, else None"""
    alts = [(g, x) for g, x in u.alts]
    if not all(isinstance(x, SArray) for _, x in alts):
        return None
    key = tuple((g, id(x), x.st.ver) for g, x in alts)
    if u._merged is not None and u._merged[0] == key:
        return u._merged[1]
    r = merge_arrays(alts)
    u._merged = (key, r)
    return r


def merge_arrays(alts):
    alts = [(g, x) for g, x in alts if g]
    if len(alts) == 1:
        return alts[0][1]
    nd = {x.ndim for _, x in alts}
    if len(nd) != 1:
        return None
    nd = nd.pop()
    aig = E.aig
    if len({x.dtype for _, x in alts}) != 1:
        if {x.dtype.kind for _, x in alts} - set("biuf"):
            return None
        # dtypes differ: semantics may differ; only bool vs int 0/1 of identical use is unsafe
        return None
    dt = alts[0][1].dtype
    # axes that differ must become presence axes in prefix form
    cur = list(alts)
    for k in range(nd):
        ps = [x.axpres(k) for _, x in cur]
        ls = [x.el.shape[k] for _, x in cur]
        if all(p is None for p in ps) and len(set(ls)) == 1:
            continue
        if all(p is not None and p == ps[0] for p in ps) and len(set(ls)) == 1:
            continue
        same_phys = len(set(ls)) == 1
        cur = [(g, compact(x, k)) for g, x in cur]
        n = max(x.el.shape[k] for _, x in cur)
        new = []
        lits = []
        for j in range(n):
            lits.append(aig.ORN([aig.AND(g, (x.axpres(k).lits[j] if x.axpres(k) is not None else 1) if j < x.el.shape[k] else 0) for g, x in cur]))
        P = None if all(l == 1 for l in lits) else Pres(lits, True)
        for g, x in cur:
            el = x.el
            if el.shape[k] < n:
                pad = np.empty(el.shape[:k] + (n - el.shape[k],) + el.shape[k + 1:], object)
                pad[...] = _Pad
                el = np.concatenate([el, pad], axis=k)
            pr = list(x.pres) if x.pres else [None] * nd
            pr[k] = P
            new.append((g, SArray(el, dt, pr)))
        cur = new
    shp = cur[0][1].el.shape
    if any(x.el.shape != shp for _, x in cur):
        return None
    out = np.empty(shp, object)
    for i in np.ndindex(*shp):
        al = [(g, x.el[i]) for g, x in cur if x.el[i] is not _Pad]
        if not al:
            out[i] = 0
            continue
        first = key_of(al[0][1])
        if len(al) == 1 or all(key_of(v) == first for _, v in al[1:]):
            out[i] = al[0][1]
        else:
            out[i] = mk_union(al)
    return SArray(out, dt, cur[0][1].pres)


class _PadT:
    pass


_Pad = _PadT()


# ------------------------------------------------------------------- index
def is_int_scalar(v):
    return (isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_))) or isinstance(v, (Union, SR)) or isinstance(v, SB)


def norm_index(a, idx):
    """Normalise an index into a list with one entry per consumed axis."""
    if not isinstance(idx, tuple):
        idx = (idx,)
    out = []
    for x in idx:
        if isinstance(x, Union):
            x = restrict(x)
        if isinstance(x, Union) and any(isinstance(y, SArray) for _, y in x.alts):
            m = merge_view(x)
            if m is None:
                raise Unsupported("index is a union of incompatible arrays")
            x = m
        if isinstance(x, (list, np.ndarray, range)) or hasattr(x, "__symseq__"):
            x = to_arr(x)
            if x.el.size == 0 and x.dtype.kind == "f":
                x = x.astype(INT)
        elif isinstance(x, tuple):
            x = to_arr(list(x))
        if isinstance(x, SArray) and x.ndim == 0 and x.dtype.kind != "b":
            x = x.el[()]
        if isinstance(x, np.bool_):
            x = bool(x)
        if isinstance(x, np.integer):
            x = int(x)
        out.append(x)
    # ellipsis
    consumed = 0
    for x in out:
        if x is Ellipsis or x is None:
            continue
        if isinstance(x, SArray) and x.dtype.kind == "b":
            consumed += x.ndim
        elif isinstance(x, (bool, SB)):
            pass
        else:
            consumed += 1
    res = []
    ell = False
    for x in out:
        if x is Ellipsis:
            if ell:
                raise IndexError("an index can only have a single ellipsis")
            ell = True
            res.extend([slice(None)] * (a.ndim - consumed))
        else:
            res.append(x)
    if not ell:
        if consumed > a.ndim:
            raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (a.ndim, consumed))
        res.extend([slice(None)] * (a.ndim - consumed))
    return res


def slice_bounds(s):
    return any(is_sym(t) or isinstance(t, SArray) for t in (s.start, s.stop, s.step))


def _iv(t):
    if isinstance(t, SArray):
        t = t.item()
    if isinstance(t, np.integer):
        return int(t)
    if t is not None and not is_sym(t) and not isinstance(t, (int, np.integer)) and not hasattr(t, "__index__"):
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    return t


def apply_slice(a, k, s):
    """basic slice on axis k; returns view"""
    start, stop, step = _iv(s.start), _iv(s.stop), _iv(s.step)
    if isinstance(start, Union):
        start = restrict(start, solve=True)
    if isinstance(stop, Union):
        stop = restrict(stop, solve=True)
    p = a.axpres(k)
    full = start is None and stop is None and step in (None, 1)
    if full:
        return a
    pr = list(a.pres) if a.pres else [None] * a.ndim
    if not is_sym(start) and not is_sym(stop) and not is_sym(step):
        if p is None:
            ix = [slice(None)] * a.ndim
            ix[k] = slice(start, stop, step)
            return SArray(a.el[tuple(ix)], a.dtype, a.pres, a.st)
        a = compact(a, k)
        p = a.axpres(k)
        if p is None:
            return apply_slice(a, k, s)
        pr = list(a.pres)
        lits = p.lits
        n = len(lits)
        if step == -1 and start is None and stop is None:
            # reverse: physical reversal keeps order reversed, presence no longer prefix
            ix = [slice(None)] * a.ndim
            ix[k] = slice(None, None, -1)
            pr[k] = Pres(lits[::-1])
            return SArray(a.el[tuple(ix)], a.dtype, pr, a.st)
        if step not in (None, 1):
            raise Unsupported("strided slice of symbolic-length axis")
        # present slot i has logical index i; length L: lits[i] <=> i < L
        aig = E.aig

        def ge_from_end(m):
            # literal: i <= L-1-m  i.e. i < L-m  <=> lits[i+m]
            return [lits[i + m] if i + m < n else 0 for i in range(n)]
        keep = list(lits)
        if start is not None:
            if start >= 0:
                keep = [0 if i < start else keep[i] for i in range(n)]
            else:
                lt = ge_from_end(-start)       # i < L-m
                keep = [aig.AND(keep[i], lt[i] ^ 1) for i in range(n)]
        if stop is not None:
            if stop >= 0:
                keep = [keep[i] if i < stop else 0 for i in range(n)]
            else:
                lt = ge_from_end(-stop)
                keep = [aig.AND(keep[i], lt[i]) for i in range(n)]
        pr[k] = Pres(keep, start is None or start == 0)
        return simp_axis(SArray(a.el, a.dtype, pr, a.st), k)
    # symbolic bounds
    if step not in (None, 1):
        raise Unsupported("symbolic slice with step")
    if p is not None:
        a = compact(a, k)
        p = a.axpres(k)
        pr = list(a.pres) if a.pres else [None] * a.ndim
    n = a.el.shape[k]
    L = a.axlen(k)
    aig = E.aig

    def bound(t, default):
        if t is None:
            return default
        lt0 = compare("<", t, 0)
        return cond(lt0, maximum_s(arith("+", t, L), 0), t) if blit(lt0) else t
    lo = bound(start, 0)
    hi = bound(stop, L)
    lits = []
    for i in range(n):
        g = aig.AND(blit(compare("<=", lo, i)), blit(compare("<", i, hi)))
        if p is not None:
            g = aig.AND(g, p.lits[i])
        lits.append(g)
    pr[k] = Pres(lits, start is None or (not is_sym(start) and start == 0))
    return SArray(a.el, a.dtype, pr, a.st)


def maximum_s(a, b):
    return cond(compare(">=", a, b), a, b)


def getitem(a, idx):
    ix = norm_index(a, idx)
    # pure basic indexing?
    if not any(isinstance(x, SArray) or isinstance(x, (bool, SB)) for x in ix) and not any(
            isinstance(x, (Union, SR)) for x in ix):
        return basic_get(a, ix)
    if any(isinstance(x, (Union, SR)) for x in ix):
        # symbolic scalar index: distribute
        j = next(i for i, x in enumerate(ix) if isinstance(x, (Union, SR)))
        alts = int_alts(ix[j]) if isinstance(ix[j], SR) else ix[j].alts
        res = []
        lost = 0
        for g, v in alts:
            k = E.aig.AND(E.pc, g)
            if k == 0:
                continue
            if not (is_num(v) and not isinstance(v, (float, Fraction, bool))):
                if E.aig.feasible(k):
                    if isinstance(v, (SArray, slice)) or v is None:
                        raise Unsupported("union index of kind %r" % type(v))
                    E.raise_partial(g, IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices"))
                continue
            jx = list(ix)
            jx[j] = v
            ax = axis_of(ix, j)
            n = a.el.shape[ax]
            if v >= n or v < -n:
                E.raise_partial(g, IndexError("index %d is out of bounds for axis %d with size %d" % (v, ax, n)))
                continue
            res.append((g, getitem(a, tuple(jx))))
        if not res:
            raise PathDead()
        if any(isinstance(r, SArray) for _, r in res):
            m = merge_arrays(res)
            if m is None:
                return mk_union(res)
            return m
        return mk_union(res)
    return adv_get(a, ix)


def axis_of(ix, j):
    ax = 0
    for x in ix[:j]:
        if x is None or isinstance(x, (bool, SB)):
            continue
        ax += x.ndim if isinstance(x, SArray) and x.dtype.kind == "b" else 1
    return ax


def basic_get(a, ix):
    cur = a
    k = 0
    for x in ix:
        if x is None:
            pr = list(cur.pres) if cur.pres else [None] * cur.ndim
            pr.insert(k, None)
            cur = SArray(np.expand_dims(cur.el, k), cur.dtype, pr, cur.st)
            k += 1
        elif isinstance(x, slice):
            cur = apply_slice(cur, k, x)
            k += 1
        elif isinstance(x, int):
            cur = take_int(cur, k, x)
        elif hasattr(x, "__index__"):
            cur = take_int(cur, k, x.__index__())
        else:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if cur.ndim == 0:
        return scalar_out(cur.el[()], cur.dtype)
    return cur


def take_int(a, k, i):
    """logical index i on axis k (view)"""
    p = a.axpres(k)
    n = a.el.shape[k]
    pr = list(a.pres) if a.pres else [None] * a.ndim
    del pr[k]
    if p is None:
        if i >= n or i < -n:
            raise IndexError("index %d is out of bounds for axis %d with size %d" % (i, k, n))
        ix = [slice(None)] * a.ndim
        ix[k] = i
        r = a.el[tuple(ix)]
        if not isinstance(r, np.ndarray) or a.ndim == 1:
            z = np.empty((), object)
            z[()] = r
            r = z if a.ndim == 1 else r
        return SArray(r, a.dtype, pr, a.st)
    a = compact(a, k)
    p = a.axpres(k)
    if p is None:
        return take_int(a, k, i)
    n = a.el.shape[k]
    lits = p.lits
    if i >= 0:
        if i >= n:
            raise IndexError("index %d is out of bounds" % i)
        E.raise_partial(lits[i] ^ 1, IndexError("index %d is out of bounds" % i))
        j = i
        el = np.take(a.el, j, axis=k)
    else:
        # logical L+i
        sel = []
        for L in range(1, n + 1):
            g = E.aig.AND(lits[L - 1], (lits[L] ^ 1) if L < n else 1)
            if L + i >= 0:
                sel.append((g, L + i))
        ok = E.aig.ORN([g for g, _ in sel])
        E.raise_partial(ok ^ 1, IndexError("index %d is out of bounds" % i))
        m = np.moveaxis(a.el, k, 0)
        el = np.empty(m.shape[1:], object)
        for idx in np.ndindex(*m.shape[1:]):
            el[idx] = mk_union([(g, m[(j,) + idx]) for g, j in sel if g])
    if not isinstance(el, np.ndarray):
        z = np.empty((), object)
        z[()] = el
        el = z
    return SArray(el, a.dtype, pr)


def expand_bool(a, ix):
    """Replace boolean arrays by index arrays (with presence)."""
    out = []
    ax = 0
    for x in ix:
        if isinstance(x, SArray) and x.dtype.kind == "b":
            for d in range(x.ndim):
                if x.axpres(d) is None and a.axpres(ax + d) is None and x.el.shape[d] != a.el.shape[ax + d]:
                    raise IndexError("boolean index did not match indexed array along axis %d; size of axis is %d but size of corresponding boolean axis is %d" % (ax + d, a.el.shape[ax + d], x.el.shape[d]))
            out.append(("mask", x))
            ax += x.ndim
        elif isinstance(x, SArray):
            if x.dtype.kind not in "iu":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            out.append(x)
            ax += 1
        elif x is None:
            out.append(x)
        elif isinstance(x, (bool, SB)):
            raise Unsupported("boolean scalar index")
        else:
            out.append(x)
            ax += 1
    return out


def adv_get(a, ix):
    # 1) apply slices/newaxis/ints first on their axes (keeping order), then advanced
    ix = expand_bool(a, ix)
    # resolve masks to index arrays over physical slots
    adv = []           # (axis, index array (phys or logical), logical?)
    cur = a
    k = 0
    pos = []
    for x in ix:
        if x is None:
            pr = list(cur.pres) if cur.pres else [None] * cur.ndim
            pr.insert(k, None)
            cur = SArray(np.expand_dims(cur.el, k), cur.dtype, pr, cur.st)
            k += 1
        elif isinstance(x, slice):
            cur = apply_slice(cur, k, x)
            k += 1
        elif isinstance(x, tuple) and x[0] == "mask":
            m = x[1]
            # align presence of the mask with the array
            lits = []
            phys = []
            mm = m
            for d in range(m.ndim):
                if not (mm.axpres(d) == cur.axpres(k + d) or (mm.axpres(d) is None and cur.axpres(k + d) is None)):
                    mm = compact(mm, d)
                    cur = compact(cur, k + d)
                    E.raise_partial(truth(compare("!=", mm.axlen(d), cur.axlen(k + d))), IndexError("boolean index did not match indexed array"))
            shp = tuple(min(mm.el.shape[d], cur.el.shape[k + d]) for d in range(m.ndim))
            for i in np.ndindex(*shp):
                g = blit(mm.el[i])
                for d in range(m.ndim):
                    p = cur.axpres(k + d) or mm.axpres(d)
                    if p is not None:
                        g = E.aig.AND(g, p.lits[i[d]])
                if g:
                    lits.append(g)
                    phys.append(i)
            P = None if all(l == 1 for l in lits) else Pres(lits)
            for d in range(m.ndim):
                el = np.empty(len(phys), object)
                for t, i in enumerate(phys):
                    el[t] = i[d]
                adv.append((k, SArray(el, INT, [P]), False))
                pos.append(k)
                k += 1
        elif isinstance(x, SArray):
            adv.append((k, x, True))
            k += 1
        else:
            v = x if isinstance(x, int) else x.__index__()
            el = np.empty((), object)
            el[()] = v
            adv.append((k, SArray(el, INT), True))
            k += 1
    return adv_take(cur, adv)


def adv_take(cur, adv):
    axes = [ax for ax, _, _ in adv]
    # arrays indexed logically need prefix axes
    for ax, x, logical in adv:
        if logical and cur.axpres(ax) is not None:
            cur = compact(cur, ax)
    ids = [x for _, x, _ in adv]
    els, shp, ipres = bshape(ids)
    contiguous = all(axes[i] + 1 == axes[i + 1] for i in range(len(axes) - 1))
    rest = [k for k in range(cur.ndim) if k not in axes]
    ins = axes[0] - sum(1 for k in axes if k < axes[0]) if contiguous else 0
    if contiguous:
        ins = len([k for k in rest if k < axes[0]])
    # move adv axes to front of cur
    el = np.transpose(cur.el, axes + rest)
    rshape = tuple(cur.el.shape[k] for k in rest)
    out = np.empty(tuple(shp) + rshape, object)
    concrete = all(isinstance(v, (int, np.integer)) for e in els for v in e.reshape(-1))
    for i in np.ndindex(*shp):
        g = 1
        if ipres is not None:
            for d, p in enumerate(ipres):
                if p is not None:
                    g = E.aig.AND(g, p.lits[i[d]])
        out[i] = pick(el, [e[i] for e in els], cur, axes, g, rshape, [lg for _, _, lg in adv])
    ipr = list(ipres) if ipres else [None] * len(shp)
    rpr = [cur.axpres(k) for k in rest]
    nd_i = len(shp)
    if ins:
        # move index dims to position ins
        out = np.moveaxis(out, list(range(nd_i)), list(range(ins, ins + nd_i)))
    pr = rpr[:ins] + ipr + rpr[ins:]
    if out.ndim == 0:
        return scalar_out(out[()], cur.dtype)
    return SArray(out, cur.dtype, pr)


def pick(el, idxs, cur, axes, g, rshape, logical):
    """el[idxs] with symbolic idxs; g: guard under which this slot exists"""
    if all(isinstance(v, (int, np.integer)) for v in idxs):
        ix = []
        for v, ax, lg in zip(idxs, axes, logical):
            n = cur.el.shape[ax]
            if v >= n or v < -n:
                E.raise_partial(g, IndexError("index %d is out of bounds for axis %d with size %d" % (v, ax, n)))
                v = 0
                if n == 0:
                    return _zeros(rshape)
            p = cur.axpres(ax)
            if p is not None and lg:
                if v < 0:
                    raise Unsupported("negative index array into symbolic-length axis")
                E.raise_partial(E.aig.AND(g, p.lits[v] ^ 1), IndexError("index %d is out of bounds" % v))
            ix.append(int(v))
        return el[tuple(ix)]
    j = next(i for i, v in enumerate(idxs) if not isinstance(v, (int, np.integer)))
    alts = int_alts(idxs[j])
    res = []
    for h, v in alts:
        if not E.aig.AND(g, h):
            continue
        if not isinstance(v, (int, np.integer)):
            continue
        n = cur.el.shape[axes[j]]
        if v >= n or v < -n:
            E.raise_partial(E.aig.AND(g, h), IndexError("index %d is out of bounds for axis %d with size %d" % (v, axes[j], n)))
            continue
        ii = list(idxs)
        ii[j] = v
        res.append((h, pick(el, ii, cur, axes, E.aig.AND(g, h), rshape, logical)))
    if not rshape:
        return mk_union(res) if res else 0
    out = np.empty(rshape, object)
    for i in np.ndindex(*rshape):
        out[i] = mk_union([(h, r[i]) for h, r in res]) if res else 0
    return out


def _zeros(shape):
    if not shape:
        return 0
    o = np.empty(shape, object)
    o[...] = 0
    return o


def setitem(a, idx, v):
    ix = norm_index(a, idx)
    a.st.ver += 1
    if isinstance(v, Union):
        v = restrict(v)
    if isinstance(v, Union) and any(isinstance(x, SArray) for _, x in v.alts):
        m = merge_view(v)
        if m is None:
            pc0 = E.pc
            for g, x in v.alts:
                k = E.aig.AND(pc0, g)
                if k and E.aig.feasible(k):
                    E.pc = k
                    setitem(a, idx, x)
            E.pc = pc0
            return
        v = m
    if isinstance(v, (list, tuple, np.ndarray, range)) or hasattr(v, "__symseq__"):
        v = to_arr(v)
    g0 = E.rel(a.st.birth)
    if any(isinstance(x, (Union, SR)) for x in ix):
        j = next(i for i, x in enumerate(ix) if isinstance(x, (Union, SR)))
        alts = int_alts(ix[j])
        pc0 = E.pc
        for g, val in alts:
            k = E.aig.AND(pc0, g)
            if k == 0 or not E.aig.feasible(k):
                continue
            if not isinstance(val, (int, np.integer)) or isinstance(val, bool):
                E.pc = k
                if val is None or isinstance(val, (SArray, slice)):
                    raise Unsupported("union index kind in assignment")
                E.pc = pc0
                E.raise_partial(g, IndexError("bad index"))
                continue
            n = a.el.shape[axis_of(ix, j)]
            if val >= n or val < -n:
                E.pc = pc0
                E.raise_partial(g, IndexError("index %d is out of bounds" % val))
                continue
            jx = list(ix)
            jx[j] = val
            E.pc = k
            setitem(a, tuple(jx), v)
        E.pc = pc0
        if pc0 == 0 or not E.aig.feasible(pc0):
            E.pc = 0
            raise PathDead()
        return
    if not any(isinstance(x, SArray) for x in ix):
        # basic: view + elementwise store
        cur = a
        k = 0
        for x in ix:
            if x is None:
                pr = list(cur.pres) if cur.pres else [None] * cur.ndim
                pr.insert(k, None)
                cur = SArray(np.expand_dims(cur.el, k), cur.dtype, pr, cur.st)
                k += 1
            elif isinstance(x, slice):
                cur = apply_slice_w(cur, k, x)
                k += 1
            else:
                xi = x if isinstance(x, int) else x.__index__()
                if cur.axpres(k) is not None:
                    raise Unsupported("integer store into symbolic-length axis")
                n = cur.el.shape[k]
                if xi >= n or xi < -n:
                    raise IndexError("index %d is out of bounds for axis %d with size %d" % (xi, k, n))
                ii = [slice(None)] * cur.ndim
                ii[k] = slice(xi, xi + 1 if xi != -1 else None)
                pr = list(cur.pres) if cur.pres else [None] * cur.ndim
                del pr[k]
                sub = cur.el[tuple(ii)]
                sub = sub.reshape(sub.shape[:k] + sub.shape[k + 1:]) if sub.flags.c_contiguous else np.squeeze(sub, axis=k)
                cur = SArray(np.squeeze(cur.el[tuple(ii)], axis=k), cur.dtype, pr, cur.st)
        store_view(cur, v, g0)
        return
    adv_set(a, ix, v, g0)


def apply_slice_w(cur, k, s):
    """slice for writing: must be a true view (no compaction copies)"""
    if cur.axpres(k) is None:
        return apply_slice(cur, k, s)
    if s.start is None and s.stop is None and s.step in (None, 1):
        return cur
    if cur.axpres(k).prefix:
        return apply_slice(cur, k, s)
    raise Unsupported("slice store into filtered axis")


def store_view(cur, v, g0):
    """cur: view; write v (scalar or array) broadcast into it under g0"""
    if isinstance(v, SArray) and v.ndim > 0:
        V = v
        # strip leading 1s
        while V.ndim > cur.ndim and V.el.shape[0] == 1 and V.axpres(0) is None:
            V = SArray(V.el[0], V.dtype, V.pres[1:] if V.pres else None)
        if V.ndim > cur.ndim:
            raise ValueError("could not broadcast input array from shape %s into shape %s" % (v.el.shape, cur.el.shape))
        # align presence
        pad = cur.ndim - V.ndim
        vel = V.el.reshape((1,) * pad + V.el.shape)
        vpr = [None] * pad + (list(V.pres) if V.pres else [None] * V.ndim)
        VV = SArray(vel, V.dtype, vpr)
        ranks = {}
        for k in range(cur.ndim):
            cp, vp = cur.axpres(k), VV.axpres(k)
            if cp is None and vp is None:
                if VV.el.shape[k] not in (1, cur.el.shape[k]):
                    raise ValueError("could not broadcast input array from shape %s into shape %s" % (v.el.shape, cur.el.shape))
                continue
            if cp is not None and vp is not None and cp == vp:
                continue
            if vp is None and VV.el.shape[k] == 1 and pad > k:
                continue
            # general alignment by rank
            VV = compact(VV, k)
            if VV.axpres(k) is None and VV.el.shape[k] == 1 and not (cp is None):
                # numpy broadcasts length 1
                continue
            E.raise_partial(E.aig.AND(truth(compare("!=", VV.axlen(k), cur.axlen(k))), 1),
                            ValueError("could not broadcast input array into shape"))
            ranks[k] = prefix_counts(cp.lits) if cp is not None and not cp.prefix else "id"
        for i in np.ndindex(*cur.el.shape):
            g = g0
            for k in range(cur.ndim):
                p = cur.axpres(k)
                if p is not None:
                    g = E.aig.AND(g, p.lits[i[k]])
            if g == 0:
                continue
            choices = [(1, ())]
            for k in range(cur.ndim):
                n = VV.el.shape[k]
                r = ranks.get(k)
                if r is None:
                    j = i[k] if n != 1 or cur.el.shape[k] == 1 else 0
                    if n == 1:
                        j = 0
                    choices = [(h, t + (j,)) for h, t in choices]
                elif r == "id":
                    if i[k] >= n:
                        choices = []
                        break
                    choices = [(h, t + (i[k],)) for h, t in choices]
                else:
                    nc = []
                    for h, t in choices:
                        for m, c in enumerate(r[i[k]]):
                            if c and m < n:
                                hh = E.aig.AND(h, c)
                                if hh:
                                    nc.append((hh, t + (m,)))
                    choices = nc
            if not choices:
                continue
            if len(choices) == 1:
                val = VV.el[choices[0][1]]
            else:
                val = mk_union([(h, VV.el[t]) for h, t in choices])
            cur.el[i] = merge(g, cast(val, cur.dtype), cur.el[i])
        return
    if isinstance(v, SArray):
        v = v.el[()]
    val = cast(v, cur.dtype) if cur.dtype != OBJ else v
    for i in np.ndindex(*cur.el.shape):
        g = g0
        for k in range(cur.ndim):
            p = cur.axpres(k)
            if p is not None:
                g = E.aig.AND(g, p.lits[i[k]])
        if g:
            cur.el[i] = merge(g, val, cur.el[i])


def adv_set(a, ix, v, g0):
    ix = expand_bool(a, ix)
    cur = a
    k = 0
    adv = []
    for x in ix:
        if x is None:
            raise Unsupported("newaxis in fancy assignment")
        elif isinstance(x, slice):
            cur = apply_slice_w(cur, k, x)
            k += 1
        elif isinstance(x, tuple) and x[0] == "mask":
            m = x[1]
            lits, phys = [], []
            for d in range(m.ndim):
                mp, cp = m.axpres(d), cur.axpres(k + d)
                if not (mp == cp or (mp is None and cp is None)):
                    raise Unsupported("mask store with misaligned presence")
            for i in np.ndindex(*m.el.shape):
                g = blit(m.el[i])
                for d in range(m.ndim):
                    p = cur.axpres(k + d)
                    if p is not None:
                        g = E.aig.AND(g, p.lits[i[d]])
                if g:
                    lits.append(g)
                    phys.append(i)
            P = None if all(l == 1 for l in lits) else Pres(lits)
            for d in range(m.ndim):
                el = np.empty(len(phys), object)
                for t, i in enumerate(phys):
                    el[t] = i[d]
                adv.append((k, SArray(el, INT, [P]), False))
                k += 1
        elif isinstance(x, SArray):
            adv.append((k, x, True))
            k += 1
        else:
            el = np.empty((), object)
            el[()] = x if isinstance(x, int) else x.__index__()
            adv.append((k, SArray(el, INT), True))
            k += 1
    axes = [ax for ax, _, _ in adv]
    for ax, x, logical in adv:
        if logical and cur.axpres(ax) is not None and not cur.axpres(ax).prefix:
            raise Unsupported("fancy store into filtered axis")
    els, shp, ipres = bshape([x for _, x, _ in adv])
    rest = [kk for kk in range(cur.ndim) if kk not in axes]
    contiguous = all(axes[i] + 1 == axes[i + 1] for i in range(len(axes) - 1))
    ins = len([kk for kk in rest if kk < axes[0]]) if contiguous else 0
    tv = np.transpose(cur.el, axes + rest)     # view
    rshape = tuple(cur.el.shape[kk] for kk in rest)
    nd_i = len(shp)
    tpres = [cur.axpres(kk) for kk in rest]
    # target "shape": rest[:ins] + shp + rest[ins:]
    tshape = rshape[:ins] + tuple(shp) + rshape[ins:]
    tp = tpres[:ins] + (list(ipres) if ipres else [None] * nd_i) + tpres[ins:]
    # materialise value as array over target
    tmp = SArray(np.empty(tshape, object), cur.dtype, tp)
    tmp.el[...] = 0
    pc = E.pc
    tmp.st.birth = E.pc
    store_view(tmp, v, 1)
    lost = E.pc != pc
    if lost:
        g0 = E.aig.AND(g0, E.pc)
    vt = np.moveaxis(tmp.el, list(range(ins, ins + nd_i)), list(range(nd_i)))
    for i in np.ndindex(*shp):
        g = g0
        if ipres is not None:
            for d, p in enumerate(ipres):
                if p is not None:
                    g = E.aig.AND(g, p.lits[i[d]])
        if g == 0:
            continue
        targets = [(1, ())]
        for e, (ax, _, lg) in zip(els, adv):
            n = cur.el.shape[ax]
            nt = []
            for h, t in targets:
                for hh, val in int_alts(e[i]):
                    q = E.aig.AND(h, hh)
                    if q == 0:
                        continue
                    if not isinstance(val, (int, np.integer)):
                        continue
                    if val >= n or val < -n:
                        E.raise_partial(E.aig.AND(E.aig.AND(g, q), 1), IndexError("index %d is out of bounds for axis %d with size %d" % (val, ax, n)))
                        continue
                    nt.append((q, t + (int(val) % n,)))
            targets = nt
        for h, t in targets:
            gg = E.aig.AND(g, h)
            if gg == 0:
                continue
            for r in np.ndindex(*rshape):
                gr = gg
                for d, p in enumerate(tpres):
                    if p is not None:
                        gr = E.aig.AND(gr, p.lits[r[d]])
                if gr:
                    tv[t + r] = merge(gr, vt[i + r], tv[t + r])


def contains(a, v):
    a = to_arr(a)
    ls = []
    for i, g in cells(a):
        ls.append(E.aig.AND(g, blit(compare("==", a.el[i], v))))
    return mkb(E.aig.ORN(ls))


SArray.sum = a_sum
SArray.prod = a_prod
SArray.any = a_any
SArray.all = a_all
SArray.mean = a_mean
SArray.min = a_min
SArray.max = a_max
SArray.argmin = a_argmin
SArray.argmax = a_argmax
SArray.cumsum = a_cumsum
SArray.clip = a_clip
SArray.dot = lambda self, o: matmul(self, o) if to_arr(o).ndim else binop("*", self, o)
