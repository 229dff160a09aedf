"""Harness support: symbolic inputs, path exploration, obligations, counterexample extraction."""
import itertools, math, random, time, traceback, types
from fractions import Fraction
import numpy as np
import z3
from .core import *
from .core import E
from . import core, sarray as S, snp, fork, loader, rng as rngmod, shims
from .sarray import SArray, BOOL, INT, FLOAT


class Ob:
    """One obligation: `ok` must hold on every path; `strong` are literals describing clear-cut
    failures (tried first so that counterexamples survive floating-point replay)."""
    __slots__ = ("label", "ok", "strong")

    def __init__(self, label, ok, strong=()):
        self.label = label
        self.ok = core.blit(ok) if not isinstance(ok, int) or isinstance(ok, bool) else ok
        self.strong = [core.blit(s) for s in strong]


class PathHang(Exception):
    """the code under test gave no answer on one path within the limit"""


class StopConfig(Exception):
    pass


def _alarm(*a):
    raise PathHang("no answer within the path time limit")


class Ctx:
    def __init__(self, cfg, deadline=None, seed=1, timeout_ms=60000, samples=3):
        self.cfg = cfg
        self.deadline = deadline
        self.samples = samples
        E.reset(seed=seed, timeout_ms=timeout_ms)
        E.cfg["path_hooks"] = [self._start]
        E.aig.deadline = deadline
        self.inputs = {}
        self.res = dict(paths=0, obligations=0, folded=0, cex=[], unknown=[], unsupported=[], models=[], functions={},
                        exceptions=0, reached=0, forks=0, dead=0, sources={}, notes=[])
        self.seed = seed
        self.rnd = random.Random(seed)
        self.w = None
        self.assumed = []

    # ------------------------------------------------------------- per path
    def _start(self):
        rngmod.reset_streams()
        self.inputs = {}
        self.assumed = []
        for k in ("torch", "files", "minimize", "tokens", "unord", "dcor_calls", "fsroot", "fsdir", "fsbase", "token_text", "plots"):
            E.cfg.pop(k, None)
        self.w = None

    def world(self, **kw):
        w = loader.World(shims.make_shims(), **kw)
        self.w = w
        return w

    # --------------------------------------------------------------- inputs
    def _reg(self, name, v):
        self.inputs[name] = v.copy() if isinstance(v, SArray) else v
        return v

    def _sparse(self, name, idx):
        """cfg['sparse'] = k: only k entries of each input array are symbolic, the others get fixed pseudo-random values
        (for sizes at which full symbolic content is out of reach).  Returns (random source, set of symbolic positions)."""
        k = self.cfg.get("sparse")
        if k is None:
            return None, None
        r = random.Random("%s/%s/%s" % (name, self.cfg.get("spseed", 0), len(idx)))
        return r, set(r.sample(range(len(idx)), min(k, len(idx))))

    def bools(self, name, shape, dtype=bool):
        el = np.empty(shape, object)
        idx = list(np.ndindex(*el.shape))
        r, free = self._sparse(name, idx)
        b = np.dtype(dtype).kind == "b"
        for n, i in enumerate(idx):
            if free is not None and n not in free:
                v = r.random() < self.cfg.get("density", .4)
                el[i] = bool(v) if b else int(v)
            else:
                el[i] = E.new_bool("%s%s" % (name, list(i)))
        return self._reg(name, SArray(el, dtype))

    def bool_(self, name):
        return self._reg(name, E.new_bool(name))

    def reals(self, name, shape, lo=None, hi=None):
        el = np.empty(shape, object)
        idx = list(np.ndindex(*el.shape))
        r, free = self._sparse(name, idx)
        for n, i in enumerate(idx):
            if free is not None and n not in free:
                # 1/8ths, in range
                a, b = (-24 if lo is None else int(8 * lo) + 1), (24 if hi is None else int(8 * hi) - 1)
                el[i] = Fraction(r.randint(a, max(a, b)), 8)
            else:
                el[i] = self._real("%s%s" % (name, list(i)), lo, hi)
        return self._reg(name, SArray(el, FLOAT))

    def _real(self, nm, lo, hi):
        z = z3.Real(nm)
        if lo is not None:
            E.aig.assume_z3(z >= core.z3num(lo, True))
        if hi is not None:
            E.aig.assume_z3(z <= core.z3num(hi, True))
        return SR(z)

    def real(self, name, lo=None, hi=None):
        return self._reg(name, self._real(name, lo, hi))

    def ints(self, name, shape, lo=None, hi=None):
        el = np.empty(shape, object)
        idx = list(np.ndindex(*el.shape))
        r, free = self._sparse(name, idx)
        for n, i in enumerate(idx):
            if free is not None and n not in free:
                a = -3 if lo is None else lo
                el[i] = r.randint(a, max(a, min(a + 6, a + 6 if hi is None else hi)))
                continue
            z = z3.Int("%s%s" % (name, list(i)))
            if lo is not None:
                E.aig.assume_z3(z >= lo)
            if hi is not None:
                E.aig.assume_z3(z <= hi)
            el[i] = SR(z)
        return self._reg(name, SArray(el, INT))

    def graph(self, name, n, dtype=int, diag=1):
        el = np.empty((n, n), object)
        b = np.dtype(dtype).kind == "b"
        r, free = self._sparse(name, list(itertools.combinations(range(n), 2)))
        k = 0
        for i in range(n):
            el[i, i] = bool(diag) if b else int(diag)
            for j in range(i + 1, n):
                if free is not None and k not in free:
                    v = r.random() < self.cfg.get("density", .4)
                    el[i, j] = el[j, i] = bool(v) if b else int(v)
                else:
                    el[i, j] = el[j, i] = E.new_bool("%s%d,%d" % (name, i, j))
                k += 1
        for i, j, v in self.cfg.get("fix") or ():
            E.assume(core.mkb(el[i, j].lit ^ (0 if v else 1)))
        A = SArray(el, dtype)
        cube = self.cfg.get("cube")
        if cube is not None:
            pairs = list(itertools.combinations(range(n), 2))
            for (i, j), v in zip(pairs, cube):
                E.assume(core.mkb(el[i, j].lit ^ (0 if v else 1)))
        return self._reg(name, A)

    def const(self, name, v):
        """a concrete array input"""
        return self._reg(name, snp.array(v))

    def rng(self, label="caller"):
        return rngmod.Generator(label)

    def assume(self, v, why=None):
        E.assume(v)

    # ----------------------------------------------------------------- run
    def run(self, fn, prop, expect_exc=False, max_paths=None, observe=None):
        res = self.res

        def on_path(p):
            if p.exc is not None:
                res["exceptions"] += 1
            try:
                obs = prop(p)
            except EngineError:
                raise
            except PathDead:
                return
            res["reached"] += 1
            if self.w is not None:
                res["sources"].update(self.w.sources)
            bad = []
            for o in obs:
                res["obligations"] += 1
                l = E.aig.fold(o.ok)
                if l == 1:
                    res["folded"] += 1
                    continue
                bad.append((o, l ^ 1))
            if bad:
                self._discharge(bad, p)
            if isinstance(p.exc, PathHang):
                raise StopConfig()
            if self._want_sample():
                self._sample(p, observe)
        def on_error(e):
            res["unsupported"].append("%s: %s" % (type(e).__name__, e))
            res["trace"] = traceback.format_exc()[-1500:]
            self._fallback_models(observe)
            return len(res["unsupported"]) < 6
        limit = int(self.cfg.get("path_limit", 90))

        def guarded():
            import signal
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(limit)
            try:
                return fn()
            finally:
                signal.alarm(0)
        try:
            res["paths"] += fork.explore(guarded, on_path, max_paths=max_paths, deadline=self.deadline, on_error=on_error)
        except StopConfig:
            res["unknown"].append("exploration stopped after a path without answer")
        except Timeout:
            res["unknown"].append("time limit")
        except EngineError as e:
            if not res["unsupported"]:
                res["unsupported"].append("%s: %s" % (type(e).__name__, e))
        res["forks"] = E.forks
        res["dead"] = getattr(E, "dead_paths", 0)
        res["notes"] = sorted(set(E.notes))
        res["stats"] = dict(E.aig.stats)
        return res

    def _want_sample(self):
        """paths 1, 2, 4, 8, ... and several on the first"""
        n = self.res["reached"]
        return n & (n - 1) == 0 and len(self.res["models"]) < 12

    def _sample(self, p, observe):
        """solver models of this path with varied inputs, re-run on the real code afterwards"""
        rnd = self.rnd
        want = self.samples if self.res["reached"] == 1 else 1
        seen = set()
        for k in range(want):
            extra, lits = [], []
            for v in self._real_inputs():
                t = z3.RealVal("%d/%d" % (rnd.randint(-24, 24), 8)) if v.is_real() else z3.IntVal(rnd.randint(-3, 3))
                extra.append(v == t)
            bits = [x.lit for v in self.inputs.values() for x in (v.el.reshape(-1) if isinstance(v, SArray) else [v]) if isinstance(x, SB)]
            dens = rnd.random()
            lits = [l ^ (0 if rnd.random() < dens else 1) for l in dict.fromkeys(bits)]
            lits = [l for l in lits if E.aig.fold(l) > 1]
            r = None
            for ex, li in ((extra, lits), (extra[:len(extra) // 2], lits[:len(lits) // 2]), ([], [])):
                if not ex and not li and (extra or lits) and k:
                    break
                r = E.aig.check(li, timeout_ms=8000, extra=ex)
                if r == "sat":
                    break
            if r != "sat":
                continue
            m = self._extract(p, "sample", observe)
            if m is not None:
                h = repr(m["inputs"]) + repr(m["draws"])
                if h in seen:
                    continue
                seen.add(h)
                self.res["models"].append(m)

    def _fallback_models(self, observe):
        """engine gave up on a path: keep solver models of the inputs for concrete testing"""
        try:
            for k in range(6):
                lits = []
                for n in E.aig.inputs[:40]:
                    if E.aig.rng.random() < .5:
                        l = 2 * n ^ E.aig.rng.getrandbits(1)
                        if E.aig.check(lits + [l], timeout_ms=2000) == "sat":
                            lits.append(l)
                rnd = self.rnd
                extra = [v == (z3.RealVal("%d/%d" % (rnd.randint(-24, 24), rnd.choice((8, 10, 7)))) if v.is_real() else z3.IntVal(rnd.randint(-3, 3)))
                         for v in self._real_inputs()]
                for ex in (extra, extra[:len(extra) // 2], []):
                    if E.aig.check(lits, timeout_ms=5000, extra=ex) == "sat":
                        self.res["models"].append(self._extract(None, "fallback", None))
                        break
        except Exception:
            pass

    def _discharge(self, bad, p):
        res = self.res
        # one query for all obligations of the path
        goal = E.aig.ORN([b for _, b in bad])
        r = E.aig.check([goal], timeout_ms=min(4000, E.aig.timeout_ms))
        if r == "unsat":
            return
        if r == "unknown":
            c = self._ground(goal, p, bad)
            if c is not None:
                res["cex"].append(c)
                return
            r = E.aig.check([goal])
            if r == "unsat":
                return
            if r == "unknown":
                res["unknown"].append(bad[0][0].label)
                return
        for o, b in bad:
            if len(res["cex"]) >= 6:
                return
            found = False
            for s in list(o.strong) + [b]:
                s = E.aig.fold(s)
                if s == 0:
                    continue
                bounded = self._box() if s is not b else []
                rr = E.aig.check([E.aig.AND(s, b) if s != b else b], timeout_ms=20000, extra=bounded)
                if rr == "sat":
                    c = self._extract(p, o.label, None)
                    if c is not None:
                        res["cex"].append(c)
                        found = True
                        if s is not b:
                            break
                elif rr == "unknown" and s == b:
                    res["unknown"].append(o.label)
            if found:
                return
        if r == "unknown" and not res["cex"]:
            if not res["unknown"]:
                res["unknown"].append("combined query")

    def _ground(self, goal, p, bad):
        """fix the real inputs to random values: the solver then only has to evaluate"""
        rnd = self.rnd
        vs = list(self._real_inputs())
        every = []
        try:
            seen, todo = set(), [E.aig.expr(goal)] + list(E.aig.z3_axioms)
            while todo and len(seen) < 200000:
                t = todo.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_arith(t) and "!" not in t.decl().name():
                    every.append(t)
                todo += t.children()
        except z3.Z3Exception:
            every = []
        for k in range(12):
            extra = []
            if self.deadline is not None and time.time() > self.deadline:
                break
            for v in (every if k % 3 == 1 and every else vs):
                t = z3.RealVal("%d/%d" % (rnd.randint(-40, 40), rnd.choice((1, 4, 10)))) if v.is_real() else z3.IntVal(rnd.randint(-4, 4))
                extra.append(v == t)
            if k % 3 == 2:
                extra = rnd.sample(extra, (len(extra) + 1) // 2)
            if E.aig.check([goal], timeout_ms=1500, extra=extra) == "sat":
                for o, b in bad:
                    if self.lit(b):
                        return self._extract(p, o.label, None)
                return self._extract(p, bad[0][0].label, None)
        return None

    def _box(self):
        """keep counterexample inputs moderate"""
        out = []
        for v in self._real_inputs():
            out += [v >= -8, v <= 8]
        return out

    def _real_inputs(self):
        for v in self.inputs.values():
            for x in (v.el.reshape(-1) if isinstance(v, SArray) else [v]):
                if isinstance(x, SR):
                    yield x.z

    # -------------------------------------------------------------- models
    def value(self, v):
        """evaluate a symbolic value in the last model -> JSON"""
        m = E.aig.last_model
        if isinstance(v, SArray):
            v = present(v, self.lit)
            return {"a": [self.value(x) for x in v.el.reshape(-1)], "s": list(v.el.shape), "d": str(v.dtype)}
        if isinstance(v, SB):
            return self.lit(v.lit)
        if isinstance(v, Union):
            for g, x in v.alts:
                if self.lit(g):
                    return self.value(x)
            return self.value(v.alts[-1][1])
        if isinstance(v, SR):
            z = m.eval(v.z, model_completion=True)
            z = z3.simplify(z)
            if z3.is_int_value(z):
                return z.as_long()
            if z3.is_rational_value(z):
                f = z.as_fraction()
                return "%d/%d" % (f.numerator, f.denominator)
            if z3.is_algebraic_value(z):
                f = z.approx(20).as_fraction()
                return "%d/%d" % (f.numerator, f.denominator)
            raise ValueError("no value for %s" % z)
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, (int, np.integer)):
            return int(v)
        if isinstance(v, Fraction):
            return "%d/%d" % (v.numerator, v.denominator)
        if isinstance(v, (float, np.floating)):
            return float(v)
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, np.ndarray):
            return {"a": [self.value(x) for x in v.reshape(-1)], "s": list(v.shape), "d": str(v.dtype)}
        if isinstance(v, (list, tuple)):
            return [self.value(x) for x in v]
        if isinstance(v, dict):
            return {str(k): self.value(x) for k, x in v.items()}
        if isinstance(v, slice):
            return str(v)
        if type(v).__name__ == "SymStr":
            return {"str": z3_text(m.eval(v.z, model_completion=True))}
        raise ValueError("value of %r" % type(v))

    def lit(self, l):
        if l <= 1:
            return bool(l)
        m = E.aig.last_model
        return z3.is_true(m.eval(E.aig.expr(l), model_completion=True))

    def _extract(self, p, label, observe):
        try:
            out = {"label": label, "cfg": self.cfg, "inputs": {k: self.value(v) for k, v in self.inputs.items()}}
            out["draws"] = [[d[0], d[1], self.value(d[2]), self.value(d[3])] for d in rngmod.draws()]
            if p is not None and p.exc is not None:
                out["exc"] = "%s: %s" % (type(p.exc).__name__, p.exc)
            if observe is not None and p is not None and p.exc is None and not E.uf:
                o = observe(p.value)
                if o is not None:
                    out["output"] = self.value(o)
            return out
        except ValueError as e:
            self.res["unknown"].append("model extraction: %s" % e)
            return None


def z3_text(z):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), z.as_string())


def present(a, lit):
    if a.pres is None:
        return a
    el = a.el
    for k, p in enumerate(a.pres):
        if p is not None:
            el = np.take(el, [i for i, l in enumerate(p.lits) if lit(l)], axis=k)
    return SArray(el, a.dtype)


# ---------------------------------------------------------------- predicates
def arr(v):
    return snp.concrete_pres(S.to_arr(v))


def AND(*ls):
    return core.mkb(E.aig.ANDN([core.blit(l) for l in ls]))


def OR(*ls):
    return core.mkb(E.aig.ORN([core.blit(l) for l in ls]))


def NOT(a):
    return core.b_not(a) if is_sym(a) else (not a)


def IFF(a, b):
    return core.mkb(E.aig.XOR(core.blit(a), core.blit(b)) ^ 1)


def IMPLIES(a, b):
    return core.mkb(E.aig.OR(core.blit(a) ^ 1, core.blit(b)))


def nz(v):
    return core.mkb(core.truth(v))


def close(label, a, b, eps=Fraction(1, 20)):
    """scalar equality over the reals; clear-cut failures differ by more than eps"""
    a, b = core.norm_num(a), core.norm_num(b)
    if not is_sym(a) and not is_sym(b):
        try:
            same = core.to_frac(a) == core.to_frac(b) or abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(a)))
        except Unsupported:
            same = (a == b) or (a != a and b != b)
        return Ob(label, same)
    if not isinstance(a, Union) and not isinstance(b, Union):
        if core.poly_equal(a, b):
            return Ob(label, True)
    ok = core.compare("==", a, b)
    d = core.absval(core.arith("-", a, b))
    return Ob(label, ok, [core.compare(">", d, eps)])


def same_array(label, A, B, eps=Fraction(1, 20)):
    """[Ob] shape and entries agree"""
    A, B = arr(A), arr(B)
    if A.el.shape != B.el.shape:
        return [Ob(label + " (shape %s vs %s)" % (A.el.shape, B.el.shape), False)]
    return [close("%s%s" % (label, list(i)), A.el[i], B.el[i], eps) for i in np.ndindex(*A.el.shape)]


def unchanged(label, A, before):
    """argument equal to its snapshot"""
    if A.el.shape != before.el.shape or A.dtype != before.dtype:
        return [Ob(label + " (shape/dtype)", False)]
    return [Ob("%s%s" % (label, list(i)), core.compare("==", A.el[i], before.el[i])) for i in np.ndindex(*A.el.shape)
            if A.el[i] is not before.el[i]] or [Ob(label, True)]
