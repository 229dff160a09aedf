"""Symbolic mini-torch: tensors over SArray, modules with parameter registration, no autograd.

An optimiser step replaces every registered parameter by fresh arbitrary values; backward() and
step() are recorded, as are module mode changes and forward calls.
"""
import builtins, collections, types
from fractions import Fraction
import numpy as _np
import z3
from .core import *
from .core import E
from . import core, sarray as S, snp
from .sarray import SArray, to_arr, FLOAT, BOOL, INT


def events():
    return E.cfg.setdefault("torch", [])


def fresh(name, shape):
    k = E.cfg.setdefault("stream", {})
    n = k.get("torch:" + name, 0)
    k["torch:" + name] = n + 1
    el = _np.empty(shape, object)
    for i in _np.ndindex(*el.shape):
        el[i] = SR(z3.Real("%s.%d%s" % (name, n, list(i))))
    return SArray(el, FLOAT)


class Size(tuple):
    def numel(self):
        n = 1
        for s in self:
            n *= s
        return n


class Tensor:
    __array_priority__ = 3000
    __symtensor__ = True

    def __init__(self, a, requires_grad=False, src=None):
        if isinstance(a, Tensor):
            a = a.a
        self.a = snp.concrete_pres(to_arr(a))
        self.requires_grad = requires_grad
        self.grad = None
        self.src = src

    # -- structure
    @property
    def shape(self):
        return Size(self.a.el.shape)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.a.ndim

    ndim = property(dim)

    def numel(self):
        return int(self.a.el.size)

    nelement = numel

    @property
    def T(self):
        return Tensor(self.a.T)

    mT = T

    def t(self):
        return self.T

    @property
    def dtype(self):
        return self.a.dtype

    device = "cpu"
    is_cuda = False
    is_leaf = True
    grad_fn = None

    @property
    def data(self):
        return self

    @data.setter
    def data(self, v):
        self.a = v.a

    def __len__(self):
        return self.a.el.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, i):
        return wrap(self.a[unwrap(i)])

    def __setitem__(self, i, v):
        events().append(("inplace", self))
        self.a[unwrap(i)] = unwrap(v)

    def __repr__(self):
        return "Tensor(%s)" % (self.shape,)

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self.a.item()

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        return bool(self.a)

    def tolist(self):
        return self.a.tolist()

    def numpy(self, *a, **k):
        if self.requires_grad:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return self.a

    def detach(self):
        return Tensor(SArray(self.a.el, self.a.dtype, None, self.a.st))

    def clone(self, *a, **k):
        return Tensor(self.a.copy())

    def cpu(self):
        return self

    def to(self, *a, **k):
        return self

    cuda = contiguous = float = double = to

    def type(self, *a):
        return self

    def requires_grad_(self, f=True):
        self.requires_grad = f
        return self

    def backward(self, *a, **k):
        events().append(("backward", self))

    def zero_(self):
        return self._set(snp.zeros_like(self.a))

    def _set(self, a):
        events().append(("inplace", self))
        a = to_arr(a)
        if a.el.shape != self.a.el.shape:
            a = snp.broadcast_to(a, self.a.el.shape)
        S.store_all(self.a, a)
        return self

    def normal_(self, mean=0, std=1, generator=None):
        e = fresh("normal", self.a.el.shape)
        E.cfg.setdefault("torch_normals", []).append(e)
        for x in e.el.reshape(-1):
            E.cfg.setdefault("normals", {})[str(x.z)] = ("std", "torch")
        return self._set(S.binop("+", to_arr(unwrap(mean)), S.binop("*", to_arr(unwrap(std)), e)))

    def uniform_(self, a=0, b=1, **k):
        return self._set(fresh("uniform", self.a.el.shape))

    def fill_(self, v):
        return self._set(snp.full(self.a.el.shape, unwrap(v)))

    def copy_(self, o):
        return self._set(unwrap(o))

    def new_zeros(self, *s, **k):
        return zeros(*s)

    def new_ones(self, *s, **k):
        return ones(*s)

    def norm(self, p="fro", dim=None, keepdim=False, dtype=None):
        if p == "nuc":
            return wrap(snp.nuclear(self.a))
        if dim is None:
            f = self.a.ravel()
            if p in ("fro", 2, None):
                return wrap(snp.la_norm(f))
            return wrap(snp.la_norm(f, p))
        return wrap(snp.la_norm(self.a, None if p == "fro" else p, dim, keepdim))

    def view(self, *s):
        return self.reshape(*s)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return Tensor(S.reshape(self.a, tuple(s)))

    def flatten(self, start_dim=0, end_dim=-1):
        if start_dim == 0 and end_dim == -1:
            return Tensor(S.reshape(self.a, (-1,)))
        raise Unsupported("partial flatten")

    def unbind(self, dim=0):
        return unbind(self, dim)

    def unsqueeze(self, d):
        return Tensor(snp.expand_dims(self.a, d))

    def squeeze(self, d=None):
        if d is not None and self.shape[d] != 1:
            return self
        return Tensor(self.a.squeeze(d))

    def expand(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        s = tuple(n if n != -1 else self.shape[i - len(s) + self.a.ndim] for i, n in enumerate(s))
        return Tensor(snp.broadcast_to(self.a, s))

    def repeat(self, *s):
        return Tensor(snp.tile(self.a, s))

    def transpose(self, a, b):
        return Tensor(self.a.swapaxes(a, b))

    swapaxes = transpose

    def permute(self, *s):
        return Tensor(self.a.transpose(*s))

    def apply_(self, f):
        raise Unsupported("apply_")

    def register_hook(self, f):
        pass

    def __hash__(self):
        return id(self)

    def tril(self, k=0):
        return wrap(snp.tril(self.a, k))

    def triu(self, k=0):
        return wrap(snp.triu(self.a, k))

    def masked_fill(self, m, v):
        return Tensor(S.a_where(unwrap(m), unwrap(v), self.a))

    def diag_embed(self):
        return diag_embed(self)


def unwrap(v):
    if isinstance(v, Tensor):
        return v.a
    if isinstance(v, tuple):
        return tuple(unwrap(x) for x in v)
    if isinstance(v, list):
        return [unwrap(x) for x in v]
    return v


def wrap(v):
    if isinstance(v, Tensor):
        return v
    if isinstance(v, SArray) or is_sym(v) or is_num(v):
        return Tensor(v)
    if type(v) is tuple:
        return tuple(wrap(x) for x in v)
    if type(v) is list:
        return [wrap(x) for x in v]
    return v


def kw(k):
    o = {}
    for n, v in k.items():
        if n == "dim":
            o["axis"] = v
        elif n == "keepdim":
            o["keepdims"] = v
        elif n in ("dtype", "device", "requires_grad", "out"):
            if n == "out" and v is not None:
                raise Unsupported("out=")
        else:
            o[n] = unwrap(v)
    return o


def lift(f):
    def g(*a, **k):
        return wrap(f(*[unwrap(x) for x in a], **kw(k)))
    return g


def relu_s(v):
    c = compare(">", v, 0)
    return cond(c, v, 0) if is_sym(c) else (v if c else 0)


def sigmoid_s(v):
    return core.uf("sigmoid", [v], lambda r, z: [r > 0, r < 1, z3.Implies(z == 0, r == z3.RealVal("1/2"))])


def tanh_s(v):
    return core.uf("tanh", [v], lambda r, z: [r > -1, r < 1])


def softplus_s(v):
    return snp.lg(arith("+", 1, snp.ex(v)))


def elem(f):
    def g(x, *a, **k):
        x = to_arr(unwrap(x))
        return Tensor(SArray(S.vec1(f, x.el), FLOAT))
    return g


relu = elem(relu_s)
sigmoid = elem(sigmoid_s)
tanh = elem(tanh_s)
softplus = elem(softplus_s)


def clamp(x, min=None, max=None):
    return wrap(S.a_clip(unwrap(x), unwrap(min), unwrap(max)))


def tsum(x, dim=None, keepdim=False, dtype=None, axis=None):
    return wrap(S.a_sum(unwrap(x), dim if dim is not None else axis, keepdims=keepdim))


def tmean(x, dim=None, keepdim=False, dtype=None, axis=None):
    return wrap(S.a_mean(unwrap(x), dim if dim is not None else axis, keepdims=keepdim))


def unbind(x, dim=0):
    el = _np.moveaxis(x.a.el, dim, 0)
    return tuple(Tensor(SArray(_np.asarray(el[i]) if not isinstance(el[i], _np.ndarray) else el[i].copy(), x.a.dtype)) if isinstance(el[i], _np.ndarray) else wrap(el[i])
                 for i in range(el.shape[0]))


def stack(ts, dim=0):
    return Tensor(snp.stack([unwrap(t) for t in ts], dim))


def cat(ts, dim=0):
    return Tensor(snp.concatenate([unwrap(t) for t in ts], dim))


def diag(x, diagonal=0):
    return Tensor(snp.diag(unwrap(x), diagonal))


def diag_embed(x, offset=0, dim1=-2, dim2=-1):
    a = to_arr(unwrap(x))
    n = a.el.shape[-1]
    r = snp.zeros(a.el.shape + (n,), float)
    for i in _np.ndindex(*a.el.shape):
        r.el[i + (i[-1],)] = a.el[i]
    return Tensor(r)


def diagonal(x, offset=0, dim1=0, dim2=1):
    return Tensor(snp.diagonal(unwrap(x), offset, dim1, dim2))


def transpose(x, a, b):
    return Tensor(x.a.swapaxes(a, b))


def mm(a, b):
    a, b = unwrap(a), unwrap(b)
    if a.ndim != 2 or b.ndim != 2:
        raise RuntimeError("self must be a matrix")
    if a.el.shape[1] != b.el.shape[0]:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    return Tensor(S.matmul(a, b))


def matmul(a, b):
    return wrap(S.matmul(unwrap(a), unwrap(b)))


def block_diag(*ts):
    if not ts:
        return Tensor(snp.zeros((1, 0), float))
    from .shims import block_diag as bd
    return Tensor(bd(*[unwrap(t) for t in ts]))


def kron(a, b):
    return wrap(snp.kron(unwrap(a), unwrap(b)))


def _shape(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    return tuple(int(x) for x in s)


def zeros(*s, size=None, **k):
    return Tensor(snp.zeros(_shape(s if size is None else (size,)), float))


def ones(*s, size=None, **k):
    return Tensor(snp.ones(_shape(s if size is None else (size,)), float))


def empty(*s, size=None, **k):
    return Tensor(fresh("uninitialised", _shape(s if size is None else (size,))))


def empty_like(x, **k):
    return Tensor(fresh("uninitialised", x.a.el.shape))


def randn(*s, **k):
    return zeros(*s).normal_()


def randn_like(x, **k):
    return Tensor(snp.zeros(x.a.el.shape, float)).normal_()


def normal(mean=0.0, std=1.0, size=None, **k):
    if size is None:
        t = Tensor(snp.zeros(_np.broadcast_shapes(to_arr(unwrap(mean)).el.shape, to_arr(unwrap(std)).el.shape), float))
    else:
        t = zeros(*size)
    return t.normal_(mean, std)


def rand(*s, **k):
    return Tensor(fresh("uniform", _shape(s)))


def tensor(v, dtype=None, **k):
    if isinstance(v, Tensor):
        return v.clone()
    return Tensor(snp.array(unwrap(v)))


def inverse(x):
    return Tensor(snp.linalg.inv(unwrap(x)))


def det(x):
    return wrap(snp.linalg.det(unwrap(x)))


def logdet(x):
    return wrap(snp.lg(snp.linalg.det(unwrap(x))))


def slogdet(x):
    r = snp.linalg.slogdet(unwrap(x))
    return types.SimpleNamespace(sign=wrap(r[0]), logabsdet=wrap(r[1])) if False else SlogDet(wrap(r[0]), wrap(r[1]))


SlogDet = collections.namedtuple("slogdet", "sign logabsdet")


def trace(x):
    return wrap(snp.trace(unwrap(x)))


def la_norm(x, ord=None, dim=None, keepdim=False, dtype=None):
    x = unwrap(x)
    if ord is None and dim is None:
        x = x.ravel()
    return wrap(snp.la_norm(x, ord, dim, keepdim))


def _tabs():
    t = dict(
        exp=lift(snp.exp), log=lift(snp.log), sqrt=lift(snp.sqrt), abs=lift(snp.absolute), square=lift(snp.square), log1p=lift(snp.log1p),
        neg=lift(snp.negative), sign=lift(snp.sign), round=lift(snp.round_), floor=lift(snp.floor), ceil=lift(snp.ceil), expm1=lift(snp.expm1),
        relu=relu, sigmoid=sigmoid, tanh=tanh, clamp=clamp, clip=clamp, sum=tsum, mean=tmean, matmul=matmul, mm=mm,
        add=lambda a, b, alpha=1: wrap(S.binop("+", to_arr(unwrap(a)), S.binop("*", to_arr(unwrap(b)), to_arr(alpha)))),
        sub=lambda a, b, alpha=1: wrap(S.binop("-", to_arr(unwrap(a)), S.binop("*", to_arr(unwrap(b)), to_arr(alpha)))),
        mul=lift(lambda a, b: S.binop("*", to_arr(a), to_arr(b))), div=lift(lambda a, b: S.binop("/", to_arr(a), to_arr(b))),
        pow=lift(lambda a, b: S.binop("**", to_arr(a), b)), dot=lift(snp.dot), outer=lift(snp.outer),
        var=lambda x, dim=None, unbiased=True, **k: wrap(snp.var(unwrap(x), dim, 1 if unbiased else 0)),
        prod=lift(S.a_prod), maximum=lift(S.maximum), minimum=lift(S.minimum), diag=diag, diagonal=diagonal, inverse=inverse, det=det, logdet=logdet,
        trace=trace, slogdet=slogdet, any=lift(S.a_any), all=lift(S.a_all), cumsum=lambda x, dim=0: wrap(S.a_cumsum(unwrap(x), dim)),
        isnan=lift(snp.isnan), isfinite=lift(snp.isfinite), eq=lift(lambda a, b: S.cmpop("==", to_arr(a), b)),
        transpose=transpose, softplus=softplus,
    )
    for k in ("max", "min"):
        f = S.a_max if k == "max" else S.a_min

        def g(x, dim=None, keepdim=False, _f=f):
            if dim is not None:
                if isinstance(dim, Tensor):
                    return wrap((S.maximum if _f is S.a_max else S.minimum)(x.a, dim.a))
                raise Unsupported("max with dim")
            return wrap(_f(unwrap(x)))
        t[k] = g
    return t


TABLE = _tabs()
for _n, _f in TABLE.items():
    if not hasattr(Tensor, _n) or _n in ("diagonal",):
        setattr(Tensor, _n, (lambda f: lambda self, *a, **k: f(self, *a, **k))(_f))
for _n in ("add", "sub", "mul", "div", "exp", "pow", "clamp", "sqrt", "neg", "relu", "sigmoid", "log", "abs", "square"):
    def _mk(n):
        def g(self, *a, **k):
            return self._set(unwrap(TABLE[n](self, *a, **k)))
        return g
    setattr(Tensor, _n + "_", _mk(_n))


def _ops():
    def b(op, rev=False):
        def f(self, o):
            if not isinstance(o, (Tensor, SArray, _np.ndarray)) and not is_num(o) and not is_sym(o):
                return NotImplemented
            x, y = self.a, unwrap(o)
            y = to_arr(y) if isinstance(y, _np.ndarray) else y
            return wrap(S.binop(op, y, x) if rev else S.binop(op, x, y))
        return f
    for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**"), ("floordiv", "//"), ("mod", "%"),
                  ("and", "&"), ("or", "|"), ("xor", "^")):
        setattr(Tensor, "__%s__" % n, b(op))
        setattr(Tensor, "__r%s__" % n, b(op, True))

        def ib(self, o, op=op):
            return self._set(S.binop(op, self.a, unwrap(o)))
        setattr(Tensor, "__i%s__" % n, ib)
    for n, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        setattr(Tensor, "__%s__" % n, (lambda op: lambda self, o: wrap(S.cmpop(op, self.a, unwrap(o))))(op))
    Tensor.__matmul__ = lambda self, o: matmul(self, o)
    Tensor.__rmatmul__ = lambda self, o: matmul(o, self)
    Tensor.__neg__ = lambda self: wrap(-self.a)
    Tensor.__abs__ = lambda self: wrap(abs(self.a))
    Tensor.__invert__ = lambda self: wrap(~self.a)


_ops()


class Parameter(Tensor):
    def __new__(cls, data=None, requires_grad=True):
        return object.__new__(cls)

    def __init__(self, data=None, requires_grad=True):
        Tensor.__init__(self, data if data is not None else snp.zeros((0,)), requires_grad)


# ------------------------------------------------------------------ modules
class Module:
    def __init__(self, *a, **k):
        d = self.__dict__
        d["_parameters"] = {}
        d["_modules"] = {}
        d["_buffers"] = {}
        d["training"] = True

    def __setattr__(self, n, v):
        d = self.__dict__
        if isinstance(v, Parameter):
            if "_parameters" not in d:
                raise AttributeError("cannot assign parameters before Module.__init__() call")
            for s in ("_modules", "_buffers"):
                d[s].pop(n, None)
            d.pop(n, None)
            d["_parameters"][n] = v
            return
        if isinstance(v, Module):
            if "_modules" not in d:
                raise AttributeError("cannot assign module before Module.__init__() call")
            d.pop(n, None)
            d["_parameters"].pop(n, None)
            d["_modules"][n] = v
            return
        if "_parameters" in d and n in d["_parameters"]:
            if v is None:
                d["_parameters"][n] = None
                return
            raise TypeError("cannot assign '%s' as parameter '%s' (torch.nn.Parameter or None expected)" % (type(v).__name__, n))
        if "_modules" in d and n in d["_modules"]:
            if v is None:
                d["_modules"][n] = None
                return
            raise TypeError("cannot assign as child module")
        if "_buffers" in d and n in d["_buffers"]:
            d["_buffers"][n] = v
            return
        object.__setattr__(self, n, v)

    def __getattr__(self, n):
        d = self.__dict__
        for s in ("_parameters", "_modules", "_buffers"):
            if s in d and n in d[s]:
                return d[s][n]
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, n))

    def register_parameter(self, n, p):
        self._parameters[n] = p

    def register_buffer(self, n, t, persistent=True):
        self._buffers[n] = t

    def add_module(self, n, m):
        self._modules[n] = m

    register_module = add_module

    def children(self):
        return iter([m for m in self._modules.values() if m is not None])

    def named_children(self):
        return iter([(n, m) for n, m in self._modules.items() if m is not None])

    def modules(self):
        seen = []

        def go(m):
            if any(m is s for s in seen):
                return
            seen.append(m)
            for c in m._modules.values():
                if c is not None:
                    go(c)
        go(self)
        return iter(seen)

    def named_modules(self, prefix=""):
        out = [(prefix, self)]
        for n, c in self._modules.items():
            if c is not None:
                out += list(c.named_modules(prefix + ("." if prefix else "") + n))
        return iter(out)

    def named_parameters(self, prefix="", recurse=True):
        out, seen = [], []
        for mn, m in self.named_modules(prefix):
            for n, p in m._parameters.items():
                if p is not None and not any(p is s for s in seen):
                    seen.append(p)
                    out.append((mn + ("." if mn else "") + n, p))
            if not recurse:
                break
        return iter(out)

    def parameters(self, recurse=True):
        return iter([p for _, p in self.named_parameters(recurse=recurse)])

    def buffers(self):
        return iter([b for m in self.modules() for b in m._buffers.values()])

    def state_dict(self):
        d = collections.OrderedDict((n, p) for n, p in self.named_parameters())
        for mn, m in self.named_modules():
            for n, b in m._buffers.items():
                if b is not None:
                    d[mn + ("." if mn else "") + n] = b
        return d

    def load_state_dict(self, sd, strict=True):
        ps = self.state_dict()
        if strict and set(ps) != set(sd):
            raise RuntimeError("state_dict mismatch")
        for n, t in sd.items():
            if n in ps:
                ps[n].a = unwrap(t).copy()

    def train(self, mode=True):
        for m in self.modules():
            m.__dict__["training"] = bool(mode)
        events().append(("mode", self, bool(mode)))
        return self

    def eval(self):
        return self.train(False)

    def to(self, *a, **k):
        return self

    cpu = cuda = float = double = to

    def zero_grad(self, *a, **k):
        events().append(("zero_grad", self))

    def requires_grad_(self, f=True):
        return self

    def apply(self, f):
        for m in list(self.modules()):
            f(m)
        return self

    def __call__(self, *a, **k):
        events().append(("forward", self, a, self.training))
        r = self.forward(*a, **k)
        return r

    def forward(self, *a, **k):
        raise NotImplementedError

    def extra_repr(self):
        return ""


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        self.weight = Parameter(fresh("linear.w", (int(out_features), int(in_features))))
        if bias:
            self.bias = Parameter(fresh("linear.b", (int(out_features),)))
        else:
            self.register_parameter("bias", None)

    def reset_parameters(self):
        pass

    def forward(self, x):
        return linear(x, self.weight, self.bias)


def linear(x, w, b=None):
    r = S.matmul(unwrap(x), unwrap(w).T)
    if b is not None:
        r = S.binop("+", r, unwrap(b))
    return wrap(r)


def _act(f, name):
    class A(Module):
        def __init__(self, *a, **k):
            super().__init__()

        def forward(self, x):
            return f(x)
    A.__name__ = name
    return A


class ModuleDict(Module):
    def __init__(self, d=None):
        super().__init__()
        if d is not None:
            self.update(d)

    def update(self, d):
        for k, v in (d.items() if hasattr(d, "items") else d):
            self[k] = v

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise TypeError("module name should be a string. Got %s" % type(k).__name__)
        if "." in k:
            raise KeyError('module name can\'t contain "."')
        self._modules[k] = v

    def __getitem__(self, k):
        return self._modules[k]

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules)

    def __contains__(self, k):
        return k in self._modules

    def keys(self):
        return self._modules.keys()

    def values(self):
        return self._modules.values()

    def items(self):
        return self._modules.items()


class ModuleList(Module):
    def __init__(self, ms=()):
        super().__init__()
        for m in ms or ():
            self.append(m)

    def append(self, m):
        self._modules[str(len(self._modules))] = m
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def __iter__(self):
        return iter(list(self._modules.values()))

    def __len__(self):
        return len(self._modules)

    def __getitem__(self, i):
        return list(self._modules.values())[i]


class Sequential(ModuleList):
    def __init__(self, *ms):
        super().__init__(list(ms[0].values()) if len(ms) == 1 and isinstance(ms[0], dict) else ms)

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


class ParameterList(Module):
    def __init__(self, ps=()):
        super().__init__()
        for p in ps or ():
            self.append(p)

    def append(self, p):
        self._parameters[str(len(self._parameters))] = p if isinstance(p, Parameter) else Parameter(p)

    def __iter__(self):
        return iter(list(self._parameters.values()))

    def __len__(self):
        return len(self._parameters)

    def __getitem__(self, i):
        return list(self._parameters.values())[i]


# -------------------------------------------------------------- optimisers
class Optimizer:
    def __init__(self, params, lr=None, **k):
        ps = list(params)
        lr = 0.001 if lr is None else lr
        groups, rest = [], []
        for p in ps:
            if isinstance(p, dict):
                q = dict(p)
                q["params"] = [q["params"]] if isinstance(q["params"], Tensor) else list(q["params"])
                q.setdefault("lr", lr)
                groups.append(q)
            elif isinstance(p, tuple):
                rest.append(p[1])
            else:
                rest.append(p)
        if rest:
            groups.insert(0, {"params": rest, "lr": lr})
        out = [p for g in groups for p in g["params"]]
        if not out:
            raise ValueError("optimizer got an empty parameter list")
        self.params = out
        self.lr, self.kw = lr, k
        self.param_groups = groups
        events().append(("optimizer", self))

    def zero_grad(self, *a, **k):
        events().append(("zero_grad", self))

    def step(self, closure=None):
        if closure is not None:
            closure()
        events().append(("step", self, [(p, g["lr"]) for g in self.param_groups for p in g["params"]]))
        if not E.cfg.get("freeze_params"):
            for i, p in enumerate(self.params):
                p.a = fresh("updated.p%d" % i, p.a.el.shape)

    def state_dict(self):
        return {}


class Scheduler:
    """learning-rate schedule: factor(k) after k steps multiplies the initial rates"""

    def __init__(self, opt, *a, **k):
        self.opt, self.k = opt, 0
        self.base = [g["lr"] for g in opt.param_groups]
        self.setup(*a, **k)
        self._set()

    def setup(self, *a, **k):
        self.factor = None

    def _set(self):
        for g, b in zip(self.opt.param_groups, self.base):
            g["lr"] = UNKNOWN_RATE if self.factor is None else core.arith("*", b, self.factor(self.k)) if self.factor(self.k) != 1 else b

    def step(self, *a):
        events().append(("sched", self))
        self.k += 1
        self._set()

    def get_last_lr(self):
        return [g["lr"] for g in self.opt.param_groups]


UNKNOWN_RATE = object()


class StepLR(Scheduler):
    def setup(self, step_size, gamma=0.1, last_epoch=-1):
        f = core.to_frac(gamma) if not core.is_sym(gamma) else gamma
        self.factor = lambda k: f ** (k // step_size)


class MultiStepLR(Scheduler):
    def setup(self, milestones, gamma=0.1, last_epoch=-1):
        f = core.to_frac(gamma)
        ms = list(milestones)
        self.factor = lambda k: f ** sum(1 for m in ms if m <= k)


class ExponentialLR(Scheduler):
    def setup(self, gamma, last_epoch=-1):
        f = core.to_frac(gamma)
        self.factor = lambda k: f ** k


class LambdaLR(Scheduler):
    def setup(self, lr_lambda, last_epoch=-1):
        self.factor = lambda k: (lambda v: core.to_frac(v) if isinstance(v, float) else v)(lr_lambda(k))


class TensorDataset:
    def __init__(self, *ts):
        if any(len(t) != len(ts[0]) for t in ts):
            raise AssertionError("Size mismatch between tensors")
        self.tensors = ts

    def __len__(self):
        return len(self.tensors[0])

    def __getitem__(self, i):
        return tuple(t[i] for t in self.tensors)


class DataLoader:
    def __init__(self, dataset, batch_size=1, shuffle=False, drop_last=False, sampler=None, num_workers=0, **k):
        self.dataset, self.batch_size, self.shuffle, self.drop_last = dataset, int(batch_size), shuffle, drop_last

    def __len__(self):
        n, b = len(self.dataset), self.batch_size
        return n // b if self.drop_last else -(-n // b)

    def __iter__(self):
        n = len(self.dataset)
        for i in range(0, n, self.batch_size):
            if self.drop_last and i + self.batch_size > n:
                return
            ts = self.dataset.tensors if hasattr(self.dataset, "tensors") else (self.dataset,)
            yield [Tensor(SArray(t.a.el[i:i + self.batch_size].copy(), t.a.dtype)) for t in ts]


class _NoGrad:
    def __init__(self, *a):
        pass

    def __enter__(self):
        E.cfg["no_grad"] = E.cfg.get("no_grad", 0) + 1
        return self

    def __exit__(self, *a):
        E.cfg["no_grad"] -= 1
        return False

    def __call__(self, f):
        return f


def _init(t, *a, **k):
    t.a = fresh("init", t.a.el.shape)
    return t


def make_torch():
    from .shims import fmod, mod
    from . import fsshim
    from .fsshim import files, issym, SymStr, PathSym
    t = fmod("torch")
    t.__dict__.update(TABLE)
    t.__dict__.update(Tensor=Tensor, FloatTensor=Tensor, Size=Size, zeros=zeros, ones=ones, empty=empty, empty_like=empty_like, randn=randn, randn_like=randn_like, rand=rand,
                      normal=normal, tensor=tensor, as_tensor=lambda v, **k: v if isinstance(v, Tensor) else Tensor(v), from_numpy=lambda v: Tensor(v), stack=stack, cat=cat, concat=cat,
                      concatenate=cat, unbind=unbind, block_diag=block_diag, kron=kron, diag_embed=diag_embed,
                      zeros_like=lambda x, **k: Tensor(snp.zeros(x.a.el.shape, float)), ones_like=lambda x, **k: Tensor(snp.ones(x.a.el.shape, float)),
                      full=lambda s, v, **k: Tensor(snp.full(s, unwrap(v))), eye=lambda n, m=None, **k: Tensor(snp.eye(n, m)),
                      arange=lambda *a, **k: Tensor(snp.arange(*a)), where=lift(S.a_where), einsum=lambda s, *o: wrap(snp.einsum(s, *[unwrap(x) for x in (o[0] if len(o) == 1 and isinstance(o[0], (list, tuple)) else o)])),
                      bmm=matmul, mv=matmul, triu=lift(snp.triu), tril=lift(snp.tril), allclose=lift(snp.allclose), is_tensor=lambda v: isinstance(v, Tensor),
                      reshape=lambda x, s: x.reshape(s), squeeze=lambda x, *a: x.squeeze(*a), unsqueeze=lambda x, d: x.unsqueeze(d), flatten=lambda x, *a: x.flatten(*a),
                      no_grad=_NoGrad, inference_mode=_NoGrad, enable_grad=_NoGrad, set_grad_enabled=_NoGrad, manual_seed=lambda *a: events().append(("seed", a)),
                      float32=_np.dtype("float32"), float64=_np.dtype("float64"), float=_np.dtype("float32"), double=_np.dtype("float64"), long=_np.dtype("int64"), int64=_np.dtype("int64"), bool=_np.dtype(bool),
                      device=lambda *a: types.SimpleNamespace(type=a[0] if a else "cpu"), set_default_dtype=lambda *a: None, set_num_threads=lambda *a: None)
    t.cuda = fmod("torch.cuda", is_available=lambda: False)
    t.backends = fmod("torch.backends")
    lin = fmod("torch.linalg", norm=la_norm, det=det, inv=inverse, slogdet=slogdet, matrix_norm=la_norm, vector_norm=lambda x, ord=2, **k: la_norm(x.flatten(), ord),
               solve=lambda a, b: wrap(S.matmul(snp.linalg.inv(a.a), b.a)), diagonal=diagonal)
    t.linalg = lin

    def save(obj, path, *a, **k):
        if hasattr(path, "write"):
            path.write(obj)
            return
        p = SymStr(path.z) if isinstance(path, PathSym) else (path if issym(path) else str(path))
        with fsshim._open(p, "wb") as f:
            f.write(obj)
    t.save = save
    init = fmod("torch.nn.init")
    for n in ("kaiming_uniform_", "kaiming_normal_", "xavier_uniform_", "xavier_normal_", "uniform_", "normal_", "trunc_normal_", "orthogonal_"):
        init.__dict__[n] = _init
    init.zeros_ = lambda x: setattr(x, "a", snp.zeros(x.a.el.shape, float)) or x
    init.ones_ = lambda x: setattr(x, "a", snp.ones(x.a.el.shape, float)) or x
    init.constant_ = lambda x, v: setattr(x, "a", snp.full(x.a.el.shape, v)) or x
    init._calculate_fan_in_and_fan_out = lambda x: (x.shape[1], x.shape[0])
    fn = fmod("torch.nn.functional", linear=linear, relu=relu, sigmoid=sigmoid, tanh=tanh, softplus=softplus,
              mse_loss=lambda a, b, reduction="mean": (tmean if reduction == "mean" else tsum)((a - b) ** 2))
    par = fmod("torch.nn.parameter", Parameter=Parameter)
    nn = fmod("torch.nn", Module=Module, Linear=Linear, Parameter=Parameter, ModuleDict=ModuleDict, ModuleList=ModuleList, Sequential=Sequential,
              ParameterList=ParameterList, Sigmoid=_act(sigmoid, "Sigmoid"), ReLU=_act(relu, "ReLU"), Tanh=_act(tanh, "Tanh"), Identity=_act(lambda x: x, "Identity"),
              Softplus=_act(softplus, "Softplus"), init=init, functional=fn, parameter=par)
    sch = fmod("torch.optim.lr_scheduler", StepLR=StepLR, ExponentialLR=ExponentialLR, CosineAnnealingLR=Scheduler, ReduceLROnPlateau=Scheduler, LambdaLR=LambdaLR, MultiStepLR=MultiStepLR)
    opt = fmod("torch.optim", AdamW=Optimizer, Adam=Optimizer, SGD=Optimizer, RMSprop=Optimizer, Optimizer=Optimizer, lr_scheduler=sch)
    data = fmod("torch.utils.data", DataLoader=DataLoader, TensorDataset=TensorDataset, Dataset=object)
    ut = fmod("torch.utils", data=data)
    t.nn, t.optim, t.utils = nn, opt, ut
    return {"torch": t, "torch.nn": nn, "torch.nn.init": init, "torch.nn.functional": fn, "torch.nn.parameter": par, "torch.optim": opt, "torch.optim.lr_scheduler": sch,
            "torch.utils": ut, "torch.utils.data": data, "torch.linalg": lin, "torch.cuda": t.cuda}
