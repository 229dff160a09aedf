"""Replay side: runs under the real interpreter and packages, against the real code in /repo."""
import contextlib, importlib, io, json, os, signal, sys, traceback, types
from fractions import Fraction

import numpy as np

REPO = os.environ.get("MEDIL_REPO", "/repo")


def num(x):
    if isinstance(x, str) and "/" in x:
        n, d = x.split("/")
        return float(Fraction(int(n), int(d)))
    return x


def dec(x):
    if isinstance(x, dict) and "a" in x and "s" in x:
        d = x.get("d", "float64")
        if d == "object":
            d = None
        return np.array([num(v) for v in x["a"]], dtype=d).reshape(x["s"])
    if isinstance(x, dict) and set(x) == {"str"}:
        return x["str"]
    if isinstance(x, dict):
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return num(x)


def enc(v):
    if isinstance(v, np.ndarray):
        return {"a": [enc(x) for x in v.reshape(-1).tolist()], "s": list(v.shape), "d": str(v.dtype)}
    if isinstance(v, (np.bool_, bool)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    return v


def light(name):
    """medil.<name> without the package's __init__ (torch is slow to import and not needed)"""
    if "medil" not in sys.modules:
        m = types.ModuleType("medil")
        m.__path__ = [os.path.join(REPO, "medil")]
        m.__package__ = "medil"
        sys.modules["medil"] = m
    return importlib.import_module("medil." + name)


def fresh(name):
    """a newly imported copy (module-level state as at program start)"""
    for k in [k for k in sys.modules if k == "medil" or k.startswith("medil.")]:
        if k not in ("medil.vae",):
            del sys.modules[k]
    return light(name)


class Mismatch(BaseException):
    """the recorded stream does not fit the calls the real code makes"""


class ScriptedRng(np.random.Generator):
    """hands out the recorded draws"""

    def __new__(cls, draws, label="caller"):
        self = np.random.Generator.__new__(cls)
        return self

    def __init__(self, draws, label="caller"):
        super().__init__(np.random.PCG64(0))
        self._q = [d for d in draws if d[0] == label]
        self._k = 0

    def _next(self, method):
        if self._k >= len(self._q):
            raise Mismatch("stream exhausted at %s" % method)
        d = self._q[self._k]
        self._k += 1
        if d[1] != method:
            raise Mismatch("recorded %s, asked for %s" % (d[1], method))
        v = dec(d[3])
        if isinstance(v, bool):
            return np.bool_(v)
        if isinstance(v, int):
            return np.int64(v)
        if isinstance(v, float):
            return np.float64(v)
        return v


def _mk(method):
    def f(self, *a, **k):
        return self._next(method)
    return f


for _m in ("random", "integers", "choice", "permutation", "permuted", "standard_normal", "normal", "multivariate_normal", "uniform"):
    setattr(ScriptedRng, _m, _mk(_m))


def _shuffle(self, x, axis=0):
    x[...] = self._next("shuffle")


ScriptedRng.shuffle = _shuffle


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class V(list):
    """violations"""

    def check(self, ok, msg):
        if not ok:
            self.append(msg)
        return ok


class TooLong(BaseException):
    pass


class NoAnswer(Exception):
    pass


def limited(f, *a, seconds=20, **k):
    """f(*a), or NoAnswer after `seconds` (inputs are tiny: normal answers take milliseconds)"""
    def onalarm(*_):
        raise NoAnswer("no result within %d s" % seconds)
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        return f(*a, **k)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        signal.alarm(60)


class Inputs(dict):
    def __missing__(self, k):
        raise Mismatch("no input %s recorded" % k)


def main():
    pid, src, dst = sys.argv[1:4]
    mod = importlib.import_module("checks." + pid.lower())
    jobs = json.load(open(src))
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")

    def onalarm(*a):
        raise TooLong()
    signal.signal(signal.SIGALRM, onalarm)
    found = 0
    with open(dst, "w") as f:
        for j in jobs:
            if found >= 5:
                f.write(json.dumps({"violations": [], "skipped": True}) + "\n")
                continue
            try:
                signal.alarm(60)
                with quiet():
                    out = mod.replay(j["cfg"], Inputs((k, dec(v)) for k, v in j["inputs"].items()), j.get("draws") or [])
                signal.alarm(0)
                if isinstance(out, V) or isinstance(out, list):
                    out = {"violations": list(out)}
            except Mismatch as e:
                out = {"violations": [], "mismatch": str(e)}
            except TooLong:
                out = {"violations": [], "error": "replay over 60 s"}
            except Exception as e:
                out = {"violations": [], "error": "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-400:])}
                files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
                if "raises %s(" % type(e).__name__ in (j.get("label") or "") and any(f.startswith(os.path.join(REPO, "medil") + os.sep) for f in files):
                    # the engine predicted it, and the code under test did it (outside the part of the replay that expects it)
                    out = {"violations": ["raises %s: %s" % (type(e).__name__, e)]}
            finally:
                signal.alarm(0)
            found += bool(out.get("violations"))
            f.write(json.dumps(enc(out)) + "\n")
            f.flush()


if __name__ == "__main__":
    importlib.import_module("checks.rp").main()  # so that the checks and this program share one set of classes
