"""Random generators whose draws are solver variables.

Each draw is an arbitrary value of the draw's documented range.  Names depend only on the stream
label and the position in the stream, so the same stream yields the same symbols.
"""
import itertools, random, types
from fractions import Fraction
import numpy as _np
import z3
from .core import *
from .core import E
from . import core, sarray as S, snp
from .sarray import SArray, to_arr, BOOL, INT, FLOAT, as_dtype


def draws():
    return E.cfg.setdefault("draws", [])


def reset_streams():
    E.cfg["draws"] = []
    E.cfg["stream"] = {}
    E.cfg["normals"] = {}
    E.cfg["gens"] = 0


def _named_real(name, lo=None, hi=None, hi_open=True):
    x = z3.Real(name)
    k = ("rng", name)
    if k not in E.defs:
        E.defs[k] = x
        if lo is not None:
            E.aig.assume_z3(x >= core.z3num(lo, True))
        if hi is not None:
            E.aig.assume_z3(x < core.z3num(hi, True) if hi_open else x <= core.z3num(hi, True))
    return SR(x)


def _shape(size):
    return () if size is None else snp.shape_of(size)


def _fill(shape, f, dtype):
    el = _np.empty(shape, object)
    for n, i in enumerate(_np.ndindex(*shape)):
        el[i] = f(n)
    if shape == ():
        return el[()]
    return SArray(el, dtype)


class BitGen:
    def __init__(self, g):
        self.g = g

    def random_raw(self, *a):
        raise Unsupported("random_raw")

    @property
    def state(self):
        return {"stream": self.g.label, "pos": E.cfg["stream"].get(self.g.label, 0)}


class Generator:
    """numpy.random.Generator"""

    def __init__(self, label="anon"):
        if not isinstance(label, str):
            label = getattr(label, "label", "anon")
        self.label = label
        self.bit_generator = BitGen(self)

    def _tick(self, method, args):
        st = E.cfg.setdefault("stream", {})
        k = st.get(self.label, 0)
        st[self.label] = k + 1
        own = self.label.split("/")[0] == "caller"
        return "%s%s.%d.%s" % ("" if own else E.cfg.get("default_prefix", ""), self.label, k, method)

    def _rec(self, method, args, val, keep=None):
        draws().append((self.label, method, args, keep if keep is not None else (val.copy() if isinstance(val, SArray) else val)))
        return val

    # -- uniform
    def random(self, size=None, dtype=float, out=None):
        nm = self._tick("random", size)
        sh = _shape(size)
        return self._rec("random", {"size": list(sh)}, _fill(sh, lambda n: _named_real("%s[%d]" % (nm, n), 0, 1), FLOAT))

    random_sample = random

    def rand(self, *s):
        return self.random(s if s else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (isinstance(low, SArray) or isinstance(high, SArray)):
            size = _np.broadcast_shapes(to_arr(low).el.shape, to_arr(high).el.shape)
        u = self.random(size)
        d = draws().pop()
        if isinstance(low, SArray) or isinstance(high, SArray) or isinstance(u, SArray):
            r = S.binop("+", to_arr(low), S.binop("*", S.binop("-", to_arr(high), to_arr(low)), to_arr(u)))
        else:
            r = arith("+", low, arith("*", arith("-", high, low), u))
        return self._rec("uniform", {"size": d[2]["size"]}, r)

    def integers(self, low, high=None, size=None, dtype=_np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        nm = self._tick("integers", size)
        sh = _shape(size)
        lo, hi = low, high if not endpoint else arith("+", high, 1)
        if not is_sym(lo) and not is_sym(hi) and not isinstance(lo, SArray) and not isinstance(hi, SArray) and lo >= hi:
            raise ValueError("low >= high")

        def one(n):
            z = z3.Int("%s[%d]" % (nm, n))
            k = ("rng", str(z))
            if k not in E.defs:
                E.defs[k] = z
                E.aig.assume_z3(z3.And(z >= core.to_z3(lo), z < core.to_z3(hi)))
            return SR(z)
        if isinstance(lo, SArray) or isinstance(hi, SArray):
            raise Unsupported("integers with array bounds")
        if not is_sym(lo) and not is_sym(hi) and hi - lo <= 16:
            lo, hi = int(lo), int(hi)
            v = _fill(sh, lambda n: core.mk_union([(l, lo + j) for j, l in enumerate(onehot("%s[%d]" % (nm, n), hi - lo))]), INT)
        else:
            v = _fill(sh, one, INT)
        if _np.dtype(dtype).kind == "b":
            v = v.astype(bool) if isinstance(v, SArray) else core.mkb(core.truth(v))
        return self._rec("integers", {"size": list(sh)}, v)

    def randint(self, low, high=None, size=None, dtype=int):
        return self.integers(low, high, size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        nm = self._tick("choice", size)
        sh = _shape(size)
        arr = to_arr(a) if not isinstance(a, (int, _np.integer)) and not is_sym(a) else snp.arange(snp.dim(a))
        arr = snp.concrete_pres(arr)
        n = arr.el.shape[0]
        tot = int(_np.prod(sh)) if sh else 1
        if n == 0:
            if tot == 0:
                return arr[:0]
            raise ValueError("a cannot be empty unless no samples are taken")
        if not replace and tot > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        oh = []
        for t in range(tot):
            oh.append(onehot("%s[%d]" % (nm, t), n))
        if not replace:
            for j in range(n):
                for s, t in itertools.combinations(range(tot), 2):
                    E.assume(SB(E.aig.AND(oh[s][j], oh[t][j]) ^ 1))
        if p is not None:
            pp = to_arr(p)
            for t in range(tot):
                for j in range(n):
                    c = compare("==", pp.el[j], 0)
                    E.assume(core.mkb(E.aig.AND(core.blit(c), oh[t][j]) ^ 1))
        el = _np.empty((tot,) + arr.el.shape[1:], object)
        for t in range(tot):
            for i in _np.ndindex(*arr.el.shape[1:]):
                el[(t,) + i] = core.mk_union([(oh[t][j], arr.el[(j,) + i]) for j in range(n)])
        r = SArray(el.reshape(sh + arr.el.shape[1:]), arr.dtype)
        if sh == () and arr.ndim == 1:
            r = r.el[()]
        return self._rec("choice", {"size": list(sh)}, r)

    # -- permutations
    def permutation(self, x, axis=0):
        if isinstance(x, (int, _np.integer)) or is_sym(x):
            x = snp.arange(snp.dim(x))
        x = snp.concrete_pres(to_arr(x))
        nm = self._tick("permutation", None)
        r = permute(nm, x, axis)
        return self._rec("permutation", {}, r)

    def shuffle(self, x, axis=0):
        nm = self._tick("shuffle", None)
        if isinstance(x, list):
            r = permute(nm, to_arr(list(x)), 0)
            x[:] = r.tolist()
            return self._rec("shuffle", {}, None, keep=r)
        r = permute(nm, snp.concrete_pres(x), axis)
        x[...] = r
        self._rec("shuffle", {}, None, keep=r.copy())

    def permuted(self, x, axis=None, out=None):
        x = snp.concrete_pres(to_arr(x))
        nm = self._tick("permuted", None)
        if axis is None:
            r = S.reshape(permute(nm, S.reshape(x, (-1,)), 0), x.el.shape)
        else:
            ax = axis % x.ndim
            el = _np.moveaxis(x.el, ax, 0)
            o = _np.empty(el.shape, object)
            for k, i in enumerate(_np.ndindex(*el.shape[1:])):
                o[(slice(None),) + i] = permute("%s/%d" % (nm, k), SArray(el[(slice(None),) + i].copy(), x.dtype), 0).el
            r = SArray(_np.moveaxis(o, 0, ax).copy(), x.dtype)
        if out is not None:
            out[...] = r
        return self._rec("permuted", {}, r)

    # -- normals
    def _std(self, nm, n):
        name = "%s[%d]" % (nm, n)
        E.cfg.setdefault("normals", {})[name] = ("std", self.label)
        return _named_real(name)

    def standard_normal(self, size=None, dtype=float, out=None):
        nm = self._tick("standard_normal", size)
        sh = _shape(size)
        return self._rec("standard_normal", {"size": list(sh)}, _fill(sh, lambda n: self._std(nm, n), FLOAT))

    def randn(self, *s):
        return self.standard_normal(s if s else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (isinstance(loc, SArray) or isinstance(scale, SArray)):
            size = _np.broadcast_shapes(to_arr(loc).el.shape, to_arr(scale).el.shape)
        nm = self._tick("normal", size)
        sh = _shape(size)
        z = _fill(sh, lambda n: self._std(nm, n), FLOAT)
        sc = to_arr(scale)
        for v in sc.el.reshape(-1):
            E.raise_partial(truth(compare("<", v, 0)), ValueError("scale < 0"))
        if sh == ():
            r = arith("+", to_arr(loc).el[()], arith("*", sc.el[()], z))
        else:
            r = S.binop("+", to_arr(loc), S.binop("*", sc, z))
        return self._rec("normal", {"size": list(sh)}, r)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8, method="svd"):
        nm = self._tick("multivariate_normal", size)
        sh = _shape(size)
        mean = snp.concrete_pres(to_arr(mean))
        cov = snp.concrete_pres(to_arr(cov))
        if mean.ndim != 1:
            raise ValueError("mean must be 1 dimensional")
        if cov.ndim != 2 or cov.el.shape[0] != cov.el.shape[1]:
            raise ValueError("cov must be 2 dimensional and square")
        n = mean.el.shape[0]
        if cov.el.shape[0] != n:
            raise ValueError("mean and cov must have same length")
        el = _np.empty(sh + (n,), object)
        reg = E.cfg.setdefault("normals", {})
        for r, i in enumerate(_np.ndindex(*sh)):
            for j in range(n):
                name = "%s[%d,%d]" % (nm, r, j)
                reg[name] = ("mvn", self.label, (nm, r), j, mean, cov)
                el[i + (j,)] = _named_real(name)
        return self._rec("multivariate_normal", {"size": list(sh)}, SArray(el, FLOAT))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if not hasattr(_np.random.Generator, n):
            raise AttributeError(n)
        raise Unsupported("rng.%s" % n)

    def spawn(self, n):
        return [Generator("%s/child%d" % (self.label, i)) for i in range(n)]

    def bytes(self, n):
        raise Unsupported("rng.bytes")

    def seed(self, *a, **k):
        st = E.cfg.setdefault("stream", {})
        self._rec("seed", {"seed": a}, None)


def onehot(name, n):
    """n literals, exactly one true"""
    if n == 1:
        return [1]
    if n == 2:
        b = E.aig.new_input(name + "?")
        return [b, b ^ 1]
    ls = [E.aig.new_input("%s=%d" % (name, j)) for j in range(n)]
    k = ("onehot", name)
    if k not in E.defs:
        E.defs[k] = 1
        aig = E.aig
        E.assume(core.mkb(aig.ORN(ls)))
        for i, j in itertools.combinations(range(n), 2):
            E.assume(core.mkb(aig.AND(ls[i], ls[j]) ^ 1))
    return ls


def _restricted(name, n):
    """E.cfg['draw_free'] = f: of n exchangeable items only f (chosen once, pseudo-randomly) take part in the symbolic
    part of a draw; for sizes at which arbitrary draws are out of reach.  None: no restriction."""
    f = E.cfg.get("draw_free")
    if not f or name.endswith("/part"):
        return None, None
    names = E.cfg.setdefault("draw_names", [])
    if name not in names:
        names.append(name)
    if names.index(name) >= 2 * f:      # only the first draws have a symbolic part
        f = 0
    if n <= f:
        return None, None
    r = random.Random("%s/%d" % (name, n))
    return r, sorted(r.sample(range(n), f))


def perm_matrix(name, n):
    """P[i][j]: position i receives element j; an arbitrary permutation"""
    if n <= 1:
        return [[1]] * n
    aig = E.aig
    r, free = _restricted(name, n)
    if r is None and n == 2:
        b = aig.new_input(name + "?swap")
        return [[b ^ 1, b], [b, b ^ 1]]
    if r is not None:
        base = r.sample(range(n), n)
        inner = perm_matrix(name + "/part", len(free))
        P = [[0] * n for _ in range(n)]
        for i in range(n):
            if i not in free:
                P[i][base[i]] = 1
        for a, i in enumerate(free):
            for b, j in enumerate(free):
                P[i][base[j]] = inner[a][b]
        return P
    P = [[aig.new_input("%s@%d=%d" % (name, i, j)) for j in range(n)] for i in range(n)]
    k = ("perm", name)
    if k not in E.defs:
        E.defs[k] = 1
        for line in P + [list(c) for c in zip(*P)]:
            E.assume(core.mkb(aig.ORN(line)))
            for a, b in itertools.combinations(line, 2):
                E.assume(core.mkb(aig.AND(a, b) ^ 1))
    return P


def permute(name, x, axis):
    ax = axis % x.ndim
    n = x.el.shape[ax]
    if x.ndim == 1 and n > 2:
        vals = list(x.el)
        if all(not is_sym(v) for v in vals) and len(set(vals)) <= 2:
            # arrangement of two values: any 0/1 vector with the same count (same set of outcomes)
            vs = sorted(set(vals), key=lambda v: float(v))
            if len(vs) == 1:
                return x.copy()
            k = sum(1 for v in vals if v == vs[1])
            r, free = _restricted(name, n)
            if r is not None:
                base = r.sample([1] * k + [0] * (n - k), n)
                bits = [E.aig.new_input("%s~%d" % (name, i)) if i in free else base[i] for i in range(n)]
            else:
                bits = [E.aig.new_input("%s~%d" % (name, i)) for i in range(n)]
            key = ("arr", name)
            if key not in E.defs:
                E.defs[key] = 1
                E.assume(core.compare("==", core.count_true(bits), k))
            el = _np.empty(n, object)
            for i in range(n):
                el[i] = core.merge(bits[i], vs[1], vs[0])
            return SArray(el, x.dtype)
    P = perm_matrix(name, n)
    el = _np.moveaxis(x.el, ax, 0)
    out = _np.empty(el.shape, object)
    for i in range(n):
        for idx in _np.ndindex(*el.shape[1:]):
            out[(i,) + idx] = core.mk_union([(P[i][j], el[(j,) + idx]) for j in range(n)])
    return SArray(_np.moveaxis(out, 0, ax).copy(), x.dtype)


def make_random():
    m = types.ModuleType("numpy.random")

    def default_rng(seed=None):
        if isinstance(seed, Generator):
            return seed
        E.cfg["gens"] = E.cfg.get("gens", 0) + 1
        if seed is None:
            return Generator("entropy%d" % E.cfg["gens"])
        lab = "seed(%s)" % (seed,) if not is_sym(seed) else "seed(sym)"
        return Generator("%s#%d" % (lab, E.cfg["gens"]))
    m.default_rng = default_rng
    m.Generator = Generator
    glob = Generator("GLOBAL")
    m.RandomState = lambda seed=None: default_rng(seed)
    m.SeedSequence = lambda *a, **k: types.SimpleNamespace(spawn=lambda n: list(range(n)))
    m.PCG64 = lambda seed=None: seed
    for n in ("random", "random_sample", "rand", "randn", "randint", "uniform", "normal", "standard_normal", "choice",
              "permutation", "shuffle", "multivariate_normal", "seed"):
        setattr(m, n, getattr(glob, n))
    m.ranf = m.sample = glob.random
    m._global = glob
    m.__path__ = []
    return m
