"""Load /repo's modules with symbolic library shims.  Source is re-read on every run."""
import ast, builtins as B, collections, hashlib, os, sys, types
from fractions import Fraction
import numpy as _np
import z3
from .core import *
from .core import E
from . import core, sarray as S, snp
from .sarray import SArray

REPO = os.environ.get("MEDIL_REPO", "/repo")


# ------------------------------------------------------------ lifted builtins
def l_len(x):
    if isinstance(x, SArray):
        return x.symlen()
    if B.hasattr(x, "strlen"):
        return x.strlen()
    return B.len(x)


def _extreme(op, name):
    nat = getattr(B, name)

    def f(*args, key=None, **kw):
        if B.len(args) == 1:
            items = B.list(args[0])
        else:
            items = B.list(args)
        if not items:
            if "default" in kw:
                return kw["default"]
            return nat(items)
        keys = [key(x) for x in items] if key is not None else items
        best, bk = items[0], keys[0]
        for x, k in B.zip(items[1:], keys[1:]):
            if isinstance(k, (B.tuple, B.list)):
                c = (k < bk) if op == "<" else (k > bk)
            elif is_num(k) or is_sym(k):
                c = compare(op, k, bk)
            else:
                c = (k < bk) if op == "<" else (k > bk)
            if isinstance(c, SArray):
                c = mkb(truth(c))
            if isinstance(c, SB):
                l = E.aig.fold(c.lit)
                if l > 1:
                    m = try_merge(l, x, best)
                    if m is not None:
                        best = m[0]
                        bk = merge(l, k, bk) if key is not None else best
                        continue
                c = core.fork_bool(l)
            if c:
                best, bk = x, k
        return best
    return f


def try_merge(l, a, b):
    """(merged value,) or None when the two values cannot be merged into one"""
    if a is b:
        return (a,)
    num = lambda v: is_num(v) or is_sym(v)
    if num(a) and num(b):
        return (merge(l, a, b),)
    if isinstance(a, SArray) and isinstance(b, SArray):
        m = S.merge_arrays([(l, a), (l ^ 1, b)])
        return None if m is None else (m,)
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        out = [try_merge(l, x, y) for x, y in zip(a, b)]
        if any(o is None for o in out):
            return None
        vals = [o[0] for o in out]
        return (type(a)(vals) if type(a) in (tuple, list) else type(a)(*vals),)
    if a is None and b is None:
        return (None,)
    try:
        if type(a) is type(b) and isinstance(a, str) and a == b:
            return (a,)
    except Exception:
        pass
    return None


l_min = _extreme("<", "min")
l_max = _extreme(">", "max")


def l_abs(x):
    return core.absval(x) if is_sym(x) else B.abs(x)


def l_round(x, n=None):
    if is_sym(x):
        if n:
            sc = 10 ** int(n)
            return core.arith("/", core.round_even(core.arith("*", x, sc)), sc) if S.scalar_dtype(x).kind == "f" else x
        r = core.round_even(x)
        return core.to_int_trunc(r) if n is None else r
    return B.round(x) if n is None else B.round(x, n)


def l_any(it):
    acc = 0
    for x in it:
        t = truth(x)
        if t == 1:
            return True
        acc = E.aig.OR(acc, t)
    return mkb(acc)


def l_all(it):
    acc = 1
    for x in it:
        t = truth(x)
        if t == 0:
            return False
        acc = E.aig.AND(acc, t)
    return mkb(acc)


def l_sum(it, start=0):
    if isinstance(it, SArray) and it.ndim == 1 and not is_sym(start) and start == 0 and it.dtype.kind != "b":
        return S.a_sum(it)
    r = start
    for x in it:
        r = r + x
    return r


def l_isinstance(x, cls):
    from . import fsshim
    if isinstance(x, fsshim.SymStr):
        x = ""
    if is_sym(x) or isinstance(x, Fraction):
        import numbers
        if isinstance(x, SB):
            proxy = [True, _np.bool_(True)]
        elif isinstance(x, SR):
            proxy = [1, _np.int64(1)] if x.is_int else [1.0, _np.float64(1)]
        elif isinstance(x, Fraction):
            proxy = [1.0, _np.float64(1)]
        else:
            k = S.scalar_dtype(x).kind
            proxy = {"b": [True], "i": [1, _np.int64(1)], "f": [1.0, _np.float64(1)]}.get(k)
            if proxy is None:
                return B.isinstance(concretize(x), cls)
        return B.any(B.isinstance(p, cls) for p in proxy)
    return B.isinstance(x, cls)


def l_print(*a, **k):
    E.printed.append(a)


def l_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if B.hasattr(x, "item") and not is_sym(x):
            x = x.item()
        if is_sym(x):
            return core.to_int_trunc(x)
        a = (x,)
    return B.int(*a, **k)


def l_float(*a):
    if len(a) == 1:
        x = a[0]
        if B.hasattr(x, "item") and not is_sym(x):
            x = x.item()
        if is_sym(x) or isinstance(x, Fraction):
            return core.to_real(x)
        a = (x,)
    return B.float(*a)


def l_bool(*a):
    if len(a) == 1:
        return mkb(truth(a[0]))
    return B.bool(*a)


def _not(x):
    if isinstance(x, (SB, Union, SR, SArray)):
        return mkb(truth(x) ^ 1)
    return not x


def l_str(*a, **k):
    from . import fsshim
    if len(a) == 1 and not k:
        if isinstance(a[0], SArray):
            return "<array>" if a[0].ndim else fsshim.tostr(a[0].item())
        return fsshim.tostr(a[0])
    return B.str(*a, **k)


def l_open(*a, **k):
    from . import fsshim
    return fsshim._open(*a, **k)


def l_fprint(*a, **k):
    from . import fsshim
    return fsshim.fprint(*a, **k)


def l_fstr(parts):
    from . import fsshim
    return fsshim.fstr(parts)


_LIFT = {id(B.int): l_int, id(B.float): l_float, id(B.bool): l_bool, id(B.str): l_str}


def _lift(f):
    return _LIFT.get(id(f), f)


class Rewriter(ast.NodeTransformer):
    """int()/float()/bool() calls and `not` keep symbolic values symbolic."""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("int", "float", "bool", "str"):
            node.func = ast.copy_location(
                ast.Call(func=ast.Name(id="__symex_lift__", ctx=ast.Load()), args=[node.func], keywords=[]), node.func)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                self.generic_visit(v)
                spec = v.format_spec    # visited already
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(v.conversion), spec or ast.Constant("")], ctx=ast.Load()))
        return ast.copy_location(
            ast.Call(func=ast.Name(id="__symex_fstr__", ctx=ast.Load()), args=[ast.List(elts=parts, ctx=ast.Load())], keywords=[]), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(
                ast.Call(func=ast.Name(id="__symex_not__", ctx=ast.Load()), args=[node.operand], keywords=[]), node)
        return node


SAFE = {"itertools", "collections", "typing", "functools", "operator", "abc", "dataclasses", "enum", "copy", "contextlib",
        "__future__", "numbers", "string", "re", "heapq", "bisect", "types", "collections.abc", "textwrap", "inspect", "fractions", "statistics", "warnings", "typing_extensions", "pprint", "logging", "time", "json", "random", "weakref", "io", "sys", "gc", "struct", "decimal", "tempfile", "glob", "uuid", "hashlib", "traceback", "threading", "queue", "concurrent", "concurrent.futures"}


_CODE = {}


def _compiled(path):
    """source of the current tree, read once per process"""
    if path not in _CODE:
        src = open(path).read()
        tree = Rewriter().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        _CODE[path] = (compile(tree, path, "exec"), hashlib.sha256(src.encode()).hexdigest()[:16])
    return _CODE[path]


class World:
    """A fresh instance of the medil package over the shims."""

    def __init__(self, shims=None, root="medil", repo=None, run_init=False):
        self.run_init = run_init
        self.repo = repo or REPO
        self.root = root
        self.modules = {}
        self.shims = dict(shims or {})
        self.builtins = dict(vars(B))
        self.builtins.update(
            __import__=self._import, len=l_len, min=l_min, max=l_max, abs=l_abs, round=l_round, any=l_any, all=l_all,
            sum=l_sum, isinstance=l_isinstance, print=l_fprint, open=l_open, __symex_fstr__=l_fstr, __symex_lift__=_lift, __symex_not__=_not)
        self.sources = {}
        self.missing = []

    # -- import machinery
    def _find(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, pkg = self._find(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        if os.path.exists(path) and not (pkg and name == self.root and not self.run_init):
            code, dig = _compiled(path)
            self.sources[name] = dig
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        if "." in name:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            full = pkg + ("." + name if name else "")
            m = self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f) and f != "*":
                    try:
                        self.load(full + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        top = name.split(".")[0]
        if top == self.root:
            m = self.load(name)
            if not fromlist:
                return self.modules[top]
            for f in fromlist:
                if not hasattr(m, f) and f != "*":
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if name in self.shims or top in self.shims:
            if not fromlist:
                return self.shims[top]
            if name in self.shims:
                return self.shims[name]
            m = self.shims[top]
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        if top in SAFE or name in SAFE:
            return B.__import__(name, globals, locals, fromlist or (), 0)
        # anything else: an inert stub whose use raises Unsupported
        self.missing.append(name)
        stub = Stub(top)
        if not fromlist:
            return stub
        m = stub
        for part in name.split(".")[1:]:
            m = getattr(m, part)
        return m


class Stub(types.ModuleType):
    """Unmodelled third-party module: importable, unusable."""

    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Stub(self.__name__ + "." + n)

    def __call__(self, *a, **k):
        if E.cfg.get("strict_stubs"):
            raise Unsupported("call of unmodelled %s" % self.__name__)
        return Stub(self.__name__ + "()")

    def __mro_entries__(self, bases):
        return (object,)
