"""Files, paths and clocks: recorded, never touched.  Path strings may be Z3 strings."""
import builtins, datetime as _dt, io as _io, os as _os, pathlib as _pl, pickle as _pickle, posixpath as _pp, types
import z3
from .core import *
from .core import E
from . import core
from .sarray import SArray


def files():
    return E.cfg.setdefault("files", [])


def atom(e):
    """literal of a string predicate; E.cfg["fsbase"] is a term known to be non-empty and not to end in a slash"""
    return core.mkb(E.aig.new_atom(simp(e)))


def simp(e):
    bs = E.cfg.get("fsbase") or ()
    f = z3.BoolVal(False)
    for _ in range(3):
        for b in bs:
            e = z3.substitute(e, (z3.SuffixOf(z3.StringVal("/"), b), f), (z3.Length(b) == 0, f), (0 == z3.Length(b), f))
        e = z3.simplify(e)
    return e


def oneslash(e):
    """the same path with repeated slashes in its literal parts merged"""
    import re
    e = simp(e)
    parts, todo = [], [e]
    while todo:
        t = todo.pop()
        if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
            todo += reversed(t.children())
        elif z3.is_string_value(t) and parts and isinstance(parts[-1], str):
            parts[-1] += t.as_string()
        else:
            parts.append(t.as_string() if z3.is_string_value(t) else t)
    out = [z3.StringVal(re.sub("/+", "/", t)) if isinstance(t, str) else t for t in parts]
    return z3.Concat(*out) if len(out) > 1 else out[0]


class SymStr:
    """symbolic string (Z3 sequence term)"""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __add__(self, o):
        return SymStr(z3.Concat(self.z, zs(o)))

    def __radd__(self, o):
        return SymStr(z3.Concat(zs(o), self.z))

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return atom(self.z == zs(o))

    def __ne__(self, o):
        r = self == o
        return core.b_not(r) if isinstance(r, SB) else not r

    def __hash__(self):
        return hash(self.z.get_id())

    def endswith(self, s):
        if isinstance(s, tuple):
            return any(bool(self.endswith(x)) for x in s)
        return atom(z3.SuffixOf(zs(s), self.z))

    def startswith(self, s):
        if isinstance(s, tuple):
            return any(bool(self.startswith(x)) for x in s)
        return atom(z3.PrefixOf(zs(s), self.z))

    def __contains__(self, s):
        return bool(atom(z3.Contains(self.z, zs(s))))

    def __str__(self):
        raise Unsupported("native str of a symbolic string")

    def __format__(self, spec):
        raise Unsupported("native format of a symbolic string")

    def __fspath__(self):
        raise Unsupported("native path use of a symbolic string")

    def __bool__(self):
        return bool(atom(z3.Length(self.z) > 0))

    def __len__(self):
        raise Unsupported("len of a symbolic string")

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(str, n):
            raise AttributeError("'str' object has no attribute '%s'" % n)
        raise Unsupported("str.%s of a symbolic string" % n)

    def strlen(self):
        return SR(z3.Length(self.z))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step is None and all(type(v) is int or v is None for v in (i.start, i.stop)) and i != slice(None, -1):
            n = z3.Length(self.z)
            pos = lambda v, d: d if v is None else (z3.IntVal(v) if v >= 0 else z3.If(n + v < 0, 0, n + v))
            a, b = pos(i.start, z3.IntVal(0)), pos(i.stop, n)
            return SymStr(simp(z3.SubString(self.z, a, b - a)))
        if i == -1:
            return SymStr(z3.SubString(self.z, z3.Length(self.z) - 1, 1))
        if i == slice(None, -1):
            return SymStr(z3.SubString(self.z, 0, z3.Length(self.z) - 1))
        if i == 0:
            return SymStr(z3.SubString(self.z, 0, 1))
        raise Unsupported("slice of a symbolic string")

    def rstrip(self, ch=None):
        if ch not in ("/", _os.sep):
            raise Unsupported("rstrip of a symbolic string")
        # inputs are assumed not to end in more than one slash
        return SymStr(canonical(self.z))

    removesuffix = lambda self, s: SymStr(z3.If(z3.SuffixOf(zs(s), self.z), z3.SubString(self.z, 0, z3.Length(self.z) - len(s)), self.z))


def zs(o):
    if isinstance(o, SymStr):
        return o.z
    if isinstance(o, PathSym):
        return o.z
    if isinstance(o, str):
        return z3.StringVal(o)
    raise TypeError("can only concatenate str (not %r) to str" % type(o).__name__)


def canonical(z):
    return z3.If(z3.And(z3.Length(z) > 1, z3.SuffixOf(z3.StringVal("/"), z)), z3.SubString(z, 0, z3.Length(z) - 1), z)


def issym(p):
    return isinstance(p, (SymStr, PathSym))


def join(a, *bs):
    if not any(issym(x) for x in (a,) + bs):
        return _pp.join(a, *bs)
    r = zs(a)
    for b in bs:
        zb = zs(b)
        slash = z3.StringVal("/")
        r = z3.If(z3.PrefixOf(slash, zb), zb,
                  z3.If(z3.Or(z3.Length(r) == 0, z3.SuffixOf(slash, r)), z3.Concat(r, zb), z3.Concat(r, slash, zb)))
    return SymStr(r)


def under(p, q):
    return atom(simp(canonical(zs(p))) == simp(canonical(zs(q))))


def exists(p):
    """the chosen directory's existence is an input; anything else may or may not exist"""
    p = p if isinstance(p, (str, SymStr, PathSym)) else str(p)
    root = E.cfg.get("fsroot")
    other = core.mkb(E.aig.new_input("exists%d" % len(files())))
    if root is None:
        return other
    here = core.blit(under(p, root))
    return core.mkb(E.aig.ITE(here, core.blit(E.cfg["fsdir"]), core.blit(other)))


def mkdir(p, k):
    files().append(("mkdir", p, k, None))
    root = E.cfg.get("fsroot")
    if root is not None and bool(under(p, root)):
        if not k.get("exist_ok", False) and bool(E.cfg["fsdir"]):
            raise FileExistsError("directory exists")
        E.cfg["fsdir"] = True


class PathSym:
    """pathlib.Path over a symbolic string"""

    def __init__(self, z):
        self.z = z

    def __truediv__(self, o):
        return PathSym(zs(join(SymStr(self.z), o)))

    def joinpath(self, *o):
        return PathSym(zs(join(SymStr(self.z), *o)))

    def mkdir(self, *a, **k):
        mkdir(SymStr(self.z), k)

    def open(self, mode="r", *a, **k):
        return _open(self, mode)

    def write_text(self, t, *a, **k):
        with _open(self, "w") as f:
            f.write(t)

    def write_bytes(self, t):
        with _open(self, "wb") as f:
            f.write(t)

    def exists(self):
        return exists(self)

    is_dir = exists

    def resolve(self):
        return self

    absolute = resolve

    def as_posix(self):
        return SymStr(self.z)

    def __fspath__(self):
        raise Unsupported("native path use of a symbolic path")

    __str__ = __fspath__


class FakePath:
    """concrete pathlib.Path whose effects are recorded"""

    def __new__(cls, *parts):
        if any(issym(p) for p in parts):
            r = join(*parts) if len(parts) > 1 else parts[0]
            return PathSym(simp(canonical(zs(r))))
        self = object.__new__(cls)
        self.p = _pl.PurePosixPath(*[str(p) for p in parts])
        return self

    def __truediv__(self, o):
        return FakePath(str(self.p), o) if not issym(o) else PathSym(zs(join(str(self.p), o)))

    joinpath = __truediv__

    def __str__(self):
        return str(self.p)

    __fspath__ = __str__

    def mkdir(self, *a, **k):
        mkdir(str(self.p), k)

    def open(self, mode="r", *a, **k):
        return _open(str(self.p), mode)

    def write_text(self, t, *a, **k):
        with _open(str(self.p), "w") as f:
            f.write(t)

    def exists(self):
        return exists(self)

    is_dir = exists

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.p, n)


class Pickled(bytes):
    """what pickle.dumps returns: opaque bytes that stand for the object"""
    value = None


def dumps(o, *a, **k):
    b = Pickled(b"<pickle>")
    b.value = o
    return b


def dump(o, f, *a, **k):
    if isinstance(f, File) and "b" not in f.mode:
        raise TypeError("write() argument must be str, not bytes")
    f.write(dumps(o))


class File:
    def __init__(self, path, mode):
        self.path, self.mode, self.data = path, mode, []
        files().append(("open", path, mode, self.data))

    def write(self, s):
        if isinstance(s, Pickled):
            s = s.value
        elif isinstance(s, (str, SymStr)) == ("b" in self.mode):
            raise TypeError("write() argument does not fit mode %r" % self.mode)
        self.data.append(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    flush = close

    def __iter__(self):
        raise Unsupported("reading files")

    def read(self, *a):
        raise Unsupported("reading files")

    @property
    def name(self):
        return self.path


def _open(path, mode="r", *a, **k):
    if isinstance(path, PathSym):
        path = SymStr(path.z)
    elif isinstance(path, FakePath):
        path = str(path)
    if E.cfg.get("fsroot") is not None and mode[:1] in "wax" and not bool(E.cfg["fsdir"]):
        raise FileNotFoundError("directory does not exist")
    return File(path, mode)


def fprint(*args, sep=" ", end="\n", file=None, flush=False):
    if file is None:
        E.printed.append(args)
        return
    s = ""
    for i, a in enumerate(args):
        s = s + (sep if i else "") + tostr(a)
    file.write(s + end)


def tostr(v):
    if isinstance(v, SymStr):
        return v
    if isinstance(v, PathSym):
        return SymStr(v.z)
    if is_sym(v):
        return native_str(v)
    return str(v)


def native_str(v):
    if E.cfg.get("token_text"):
        return core.token(v)
    from . import snp
    return str(snp.conc_scalar(v))


class NumText(str):
    """text of a symbolic number rounded to some decimals"""
    value = None


def fstr(parts):
    """f-string: list of str or (value, conversion, spec)"""
    if len(parts) == 1 and isinstance(parts[0], tuple) and is_sym(parts[0][0]):
        import re
        m = re.fullmatch(r"\.(\d+)f", parts[0][2])
        if m:
            sc = 10 ** int(m.group(1))
            t = NumText("<sym>")
            t.value = core.arith("/", core.round_even(core.arith("*", core.to_real(parts[0][0]), sc)), sc)
            return t
    out = ""
    for p in parts:
        if isinstance(p, str):
            out = out + p
            continue
        v, conv, spec = p
        if isinstance(v, (SymStr, PathSym)):
            if spec:
                raise Unsupported("format spec on a symbolic string")
            out = out + (SymStr(v.z))
            continue
        if is_sym(v):
            if isinstance(v, SR) and not v.is_int or spec:
                out = out + "<sym>"
                continue
            v = native_str(v)
        elif isinstance(v, SArray):
            v = "<array>"
            spec = ""
        if conv == 115:
            v = str(v)
        elif conv == 114:
            v = repr(v)
        elif conv == 97:
            v = ascii(v)
        try:
            out = out + format(v, spec)
        except (TypeError, ValueError):
            if type(v).__name__ in ("Fraction", "QF"):
                out = out + format(float(v), spec)
            else:
                raise
    return out


class FakeDT(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return _dt.datetime(2026, 1, 1)

    utcnow = today = now


def make_fs():
    from .shims import fmod
    osp = fmod("os.path")
    osp.__dict__.update({k: v for k, v in vars(_pp).items() if not k.startswith("__")})
    osp.join = join
    osp.exists = exists
    osp.isdir = osp.isfile = osp.exists
    osp.isabs = lambda p: p.startswith("/")
    osp.abspath = osp.realpath = osp.expanduser = osp.normpath = lambda p: SymStr(canonical(zs(p))) if issym(p) else _pp.normpath(p)
    osn = fmod("os")
    osn.path = osp
    osn.sep = "/"
    osn.linesep = "\n"
    osn.environ = {}
    osn.fspath = lambda p: p if isinstance(p, (str, SymStr)) else (SymStr(p.z) if isinstance(p, PathSym) else str(p))
    osn.makedirs = lambda p, *a, **k: mkdir(osn.fspath(p), k)
    osn.mkdir = osn.makedirs
    osn.remove = lambda p, *a, **k: files().append(("remove", osn.fspath(p), k, None))
    osn.unlink = osn.remove
    osn.rename = osn.replace = lambda a, b: files().append(("rename", osn.fspath(b), osn.fspath(a), None))
    osn.getcwd = lambda: "/cwd"
    osn.cpu_count = lambda: 8
    osn.PathLike = _os.PathLike
    pl = fmod("pathlib", Path=FakePath, PurePath=FakePath, PosixPath=FakePath)
    pk = fmod("pickle", HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4,
              dump=dump, dumps=dumps)
    dt = fmod("datetime", datetime=FakeDT, timedelta=_dt.timedelta, date=_dt.date, timezone=_dt.timezone)
    return {"os": osn, "os.path": osp, "pathlib": pl, "pickle": pk, "datetime": dt}
