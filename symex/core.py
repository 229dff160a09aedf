"""Symbolic scalars, guarded unions, and the engine state (current path guard)."""
from fractions import Fraction
import numbers, operator, time
import numpy as np
import z3
from .aig import AIG


class EngineError(Exception):
    """The engine cannot represent something (never a verdict)."""


class Unsupported(EngineError):
    pass


class BoundExceeded(EngineError):
    def __init__(self, msg, lit=None):
        super().__init__(msg)
        self.lit = lit


class Timeout(EngineError):
    pass


class PathDead(BaseException):
    """Internal: the current path guard became false inside an expression."""


class _Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = _Undef()


class Engine:
    def __init__(self):
        self.reset()

    def reset(self, seed=1, patterns=512, timeout_ms=120000, int_mode="union"):
        self.aig = AIG(seed=seed, patterns=patterns, timeout_ms=timeout_ms)
        self.pc = 1
        self.sinks = [[]]            # exception sinks: lists of (guard, exc)
        self.int_mode = int_mode
        self.max_iter = 400
        self.max_depth = 60
        self.depth = 0
        self.uid = 0
        self.divisors = []           # (pc, z3 denominator)
        self.functions = {}          # functions interpreted -> count
        self.stmts = 0
        self.notes = []
        self.printed = []
        self.warned = []
        self.forks = 0
        self.prefix = []             # fork mode: decisions to follow [(value, forced)]
        self.taken = []
        self.fork = True
        self.max_forks = None
        self.paths = 0
        self.deadline = None
        self.mult_lemmas = True
        self.uf = {}
        self.defs = {}
        self.range_cache = {}
        self.cfg = {}

    # guards ---------------------------------------------------------------
    def rel(self, birth):
        """Current pc relative to the guard under which an object was created."""
        pc = self.pc
        if pc == birth or pc == 1:
            return 1
        return pc

    def fresh_name(self, p="v"):
        self.uid += 1
        return "%s!%d" % (p, self.uid)

    def new_bool(self, name=None):
        return SB(self.aig.new_input(name))

    def new_real(self, name=None):
        return SR(z3.Real(name or self.fresh_name("r")))

    def new_int(self, name=None):
        return SR(z3.Int(name or self.fresh_name("k")))

    def assume(self, v):
        """Constrain the current path (checked for satisfiability by the caller's witness)."""
        if isinstance(v, SB):
            v = v.lit
        elif isinstance(v, (bool, np.bool_)):
            v = 1 if v else 0
        elif isinstance(v, int):
            pass
        else:
            v = self.aig.new_atom(v)
        v = self.aig.fold(v)
        if v == 0:
            raise PathDead()
        self.aig.path_assume(v)

    def raise_partial(self, lit, exc):
        """Under lit (within pc) exc is raised; the rest continues."""
        g = self.aig.AND(self.pc, lit)
        if g == 0:
            return
        if self.fork:
            if fork_bool(g):
                raise exc
            return
        if not self.aig.feasible(g):
            return
        self.sinks[-1].append((g, exc))
        self.pc = self.aig.AND(self.pc, lit ^ 1)
        if self.pc == 0 or not self.aig.feasible(self.pc):
            self.pc = 0
            raise PathDead()

    def feasible(self, lit):
        return self.aig.feasible(self.aig.AND(self.pc, lit))


E = Engine()


# ------------------------------------------------------------------ numbers
def to_frac(v):
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported("non-finite number mixed with symbolic reals")
        s = repr(f)
        if len(s.replace("-", "").replace(".", "").lstrip("0")) <= 12 and "e" not in s:
            return Fraction(s)
        fr = Fraction(s)
        return fr
    raise Unsupported("number %r" % (v,))


def z3num(v, real=None):
    f = to_frac(v)
    if f.denominator == 1 and not real:
        return z3.IntVal(f.numerator)
    return z3.RealVal(str(f.numerator) + ("/%d" % f.denominator if f.denominator != 1 else ""))


def is_num(v):
    t = type(v)
    if t is int or t is bool or t is float or t is Fraction:
        return True
    if t is SB or t is SR or t is Union or t is str:
        return False
    return isinstance(v, (bool, int, float, Fraction, np.number, np.bool_))


def is_sym(v):
    t = type(v)
    return t is SB or t is SR or t is Union


def norm_num(v):
    """numpy scalar -> python scalar"""
    t = type(v)
    if t is SB or t is int or t is bool or t is SR or t is Union or t is float or t is Fraction:
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    return v


def token(v):
    """text placeholder of a symbolic value (decoded by fsshim.tokens_in)"""
    t = E.cfg.setdefault("tokens", {})
    k = len(t)
    t[k] = v
    return "\u27e6%d\u27e7" % k


class SB:
    """Symbolic bool (also a 0/1 integer when used in arithmetic)."""
    __slots__ = ("lit",)
    __array_priority__ = 1000

    def __init__(self, lit):
        self.lit = lit

    def __bool__(self):
        return fork_bool(self.lit)

    def __hash__(self):
        return hash(fork_bool(self.lit))

    def __index__(self):
        return int(fork_bool(self.lit))
    __int__ = __index__

    def __float__(self):
        return float(fork_bool(self.lit))

    def __repr__(self):
        return token(self)

    def __and__(self, o):
        return b_and(self, o) if is_boolish(o) else arith("&", self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o) if is_boolish(o) else arith("|", self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return b_xor(self, o) if is_boolish(o) else arith("^", self, o)
    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)


def mkb(lit):
    if lit == 0:
        return False
    if lit == 1:
        return True
    return SB(lit)


def is_boolish(v):
    return isinstance(v, (bool, np.bool_, SB))


def blit(v):
    """literal of a boolean value"""
    if isinstance(v, SB):
        return v.lit
    if isinstance(v, (bool, np.bool_)):
        return 1 if v else 0
    return truth(v)


def b_and(a, b):
    return mkb(E.aig.AND(blit(a), blit(b)))


def b_or(a, b):
    return mkb(E.aig.OR(blit(a), blit(b)))


def b_xor(a, b):
    return mkb(E.aig.XOR(blit(a), blit(b)))


def b_not(a):
    return mkb(blit(a) ^ 1)


class Union:
    """Guarded alternatives: [(lit, value)], guards pairwise exclusive."""
    __slots__ = ("alts", "part", "_merged")
    __array_priority__ = 1000

    def __init__(self, alts, part=None):
        self.alts = alts
        self.part = part            # identity of the partition (tuple of lits)
        self._merged = None

    def __repr__(self):
        return token(self)

    def __bool__(self):
        return fork_bool(truth(self))

    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        v = concretize(self)
        if isinstance(v, (float, Fraction)) and not isinstance(v, int):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(v)

    def __int__(self):
        return int(concretize(self))

    def __float__(self):
        return float(concretize(self))


class SR:
    """Symbolic real or (unbounded) integer: a Z3 arithmetic term."""
    __slots__ = ("z",)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    @property
    def is_int(self):
        return self.z.is_int()

    def __repr__(self):
        return token(self)

    def __bool__(self):
        return fork_bool(truth(self))

    def __hash__(self):
        if self.is_int:
            return hash(self.__index__())
        raise Unsupported("hash of a symbolic real")

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(concretize(Union(sr_int_alts(self))))

    def __int__(self):
        v = to_int_trunc(self)
        return int(v.__index__()) if isinstance(v, SR) else int(v)

    def __float__(self):
        z = z3.simplify(self.z)
        if z3.is_rational_value(z) or z3.is_int_value(z):
            return float(z.as_fraction() if z3.is_rational_value(z) else z.as_long())
        if self.is_int:
            return float(self.__index__())
        raise Unsupported("float() of a symbolic real")


def mksr(z):
    if z3.is_rational_value(z) or z3.is_int_value(z):
        f = z.as_fraction() if z3.is_rational_value(z) else Fraction(z.as_long())
        if z.is_int():
            return int(f)
        return f if f.denominator != 1 else Fraction(f.numerator)
    return SR(z)


def key_of(v):
    """Hashable key so that equal (interchangeable) values merge."""
    if isinstance(v, (bool, np.bool_)):
        return ("n", Fraction(int(v)), "b")
    if isinstance(v, (int, np.integer)):
        return ("n", int(v), "i")
    if isinstance(v, Fraction):
        return ("n", v, "f")
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f:
            return ("nan",)
        return ("n", f, "f")
    if isinstance(v, str):
        return ("s", v)
    if v is None:
        return ("none",)
    if isinstance(v, SB):
        return ("sb", v.lit)
    if isinstance(v, SR):
        return ("sr", v.z.get_id(), _Keep(v.z))
    if type(v) is tuple:
        return ("t",) + tuple(key_of(x) for x in v)
    return ("o", id(v), _Keep(v))


class _Keep:
    """keeps an object alive inside a key; equal by identity"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __eq__(self, other):
        return self.o is other.o or isinstance(self.o, z3.ExprRef)

    def __hash__(self):
        return 1 if isinstance(self.o, z3.ExprRef) else id(self.o)


def mk_union(alts):
    """Build the simplest value for guarded alternatives."""
    aig = E.aig
    out = {}
    allbool = True
    hasarith = False
    sb = False
    alln = True
    for g, v in alts:
        if g == 0:
            continue
        if isinstance(v, Union):
            items = [(aig.AND(g, g2), v2) for g2, v2 in v.alts]
        else:
            items = ((g, v),)
        for g, v in items:
            if g == 0:
                continue
            k = key_of(v)
            if k in out:
                out[k] = (aig.OR(out[k][0], g), out[k][1])
            else:
                out[k] = (g, v)
                if not isinstance(v, (bool, np.bool_, SB)):
                    allbool = False
                    if not (isinstance(v, SR) or is_num(v)):
                        alln = False
                if isinstance(v, SR):
                    hasarith = True
                if isinstance(v, SB):
                    sb = True
    res = list(out.values())
    if not res:
        raise PathDead()
    if len(res) == 1:
        return res[0][1]
    if allbool:
        if len(res) == 2 and not sb:
            for g, v in res:
                if v:
                    return mkb(g)
        return mkb(aig.ORN([aig.AND(g, blit(v)) for g, v in res]))
    if hasarith and alln:
        return ite_chain(res)
    if sb and alln:
        # 0/1 bit among numbers: expand
        exp = []
        for g, v in res:
            if isinstance(v, SB):
                exp.append((aig.AND(g, v.lit), 1))
                exp.append((aig.AND(g, v.lit ^ 1), 0))
            else:
                exp.append((g, int(v) if isinstance(v, (bool, np.bool_)) else v))
        return mk_union(exp)
    # merge tuples of equal length elementwise
    tl = {len(v) for g, v in res if type(v) is tuple}
    if tl and all(type(v) is tuple for g, v in res) and len(tl) == 1:
        n = tl.pop()
        return tuple(mk_union([(g, v[i]) for g, v in res]) for i in range(n))
    return Union(res)


def ite_chain(res):
    zs = [(g, to_z3(v)) for g, v in res]
    if any(z.is_real() for _, z in zs):
        zs = [(g, z3.ToReal(z) if z.is_int() else z) for g, z in zs]
    cur = zs[-1][1]
    for g, z in reversed(zs[:-1]):
        cur = z3.If(E.aig.expr(g), z, cur)
    return SR(cur)


def to_z3(v):
    """Z3 arithmetic term of a number."""
    if isinstance(v, SR):
        return v.z
    if isinstance(v, SB):
        return z3.If(E.aig.expr(v.lit), z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, Union):
        r = restrict(v)
        if not isinstance(r, Union):
            return to_z3(r)
        s = ite_chain(r.alts)
        return s.z
    return z3num(v, real=isinstance(v, (float, np.floating, Fraction)) or None)


def merge(g, a, b):
    """value that is a under g and b otherwise"""
    if g == 1 or a is b:
        return a
    if g == 0:
        return b
    ta = type(a)
    if ta is SB or ta is bool or ta is np.bool_:
        tb = type(b)
        if tb is SB or tb is bool or tb is np.bool_:
            return mkb(E.aig.ITE(g, blit(a), blit(b)))
    return mk_union([(g, a), (g ^ 1, b)])


def restrict(v, g=None, solve=False):
    """Drop alternatives of a Union that are impossible under the current guard."""
    if not isinstance(v, Union):
        return v
    aig = E.aig
    g = E.pc if g is None else g
    out = []
    for l, x in v.alts:
        k = aig.AND(g, l)
        if k == 0:
            continue
        if solve and not aig.feasible(k):
            continue
        out.append((l, x))
    if len(out) == 1:
        return out[0][1]
    if not out:
        raise PathDead()
    if len(out) == len(v.alts):
        return v
    return Union(out)


def alts_of(v):
    if isinstance(v, Union):
        return v.alts
    if isinstance(v, SB):
        return [(v.lit, True), (v.lit ^ 1, False)]
    return [(1, v)]


def int_alts(v):
    """alternatives of an integer-like value as [(guard, python int)]"""
    if isinstance(v, Union):
        return v.alts
    if isinstance(v, SB):
        return [(v.lit, 1), (v.lit ^ 1, 0)]
    if isinstance(v, SR):
        return sr_int_alts(v)
    return [(1, int(v))]


def sr_int_alts(v, limit=64):
    """Enumerate the feasible values of an integer term (solver)."""
    key = ("sralts", v.z.get_id(), E.pc)
    if key in E.defs:
        return E.defs[key][0]
    vals = []
    block = []
    z = v.z if v.is_int else None
    if z is None:
        raise Unsupported("real used as an integer")
    while True:
        lit = E.aig.ANDN([E.pc] + block)
        r = E.aig.check([lit])
        if r == "unsat":
            break
        if r != "sat":
            raise Unsupported("cannot enumerate integer term")
        n = E.aig.last_model.eval(z, model_completion=True).as_long()
        vals.append(n)
        a = E.aig.new_atom(z == n)
        block.append(a ^ 1)
        if len(vals) > limit:
            raise Unsupported("integer term with more than %d values used as an index" % limit)
    vals.sort()
    out = [(E.aig.new_atom(z == n), n) for n in vals]
    E.defs[key] = (out, v)
    return out


# -------------------------------------------------- polynomial normal form
class _Poly:
    """sum of monomials over opaque atoms, exact coefficients; decides identities the solver is slow on"""

    def __init__(self, limit=60000):
        self.memo = {}
        self.atoms = {}
        self.keep = []
        self.absdef = {}
        self.sqdef = {}
        self.src = {}
        self.key = {}
        self.limit = limit

    def atom(self, z, key=None):
        k = key if key is not None else z.get_id()
        if k not in self.atoms:
            self.atoms[k] = len(self.atoms)
            self.src[self.atoms[k]] = z
            self.key[self.atoms[k]] = k
            self.keep.append(z)
        return {((self.atoms[k], 1),): Fraction(1)}

    @staticmethod
    def add(p, q, c=1):
        r = dict(p)
        for m, v in q.items():
            w = r.get(m, 0) + c * v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        if len(p) * len(q) > self.limit:
            raise Unsupported("polynomial too large")
        r = {}
        for m, v in p.items():
            for n, w in q.items():
                d = dict(m)
                for a, e in n:
                    d[a] = d.get(a, 0) + e
                if self.absdef:
                    sq_ = [a for a, e in d.items() if e >= 2 and a in self.absdef]
                    if sq_:
                        # |p|^2 = p^2
                        a = sq_[0]
                        d[a] -= 2
                        t = {tuple(sorted((b, e) for b, e in d.items() if e)): v * w}
                        t = self.mul(self.mul(t, self.absdef[a]), self.absdef[a])
                        r = self.add(r, t)
                        continue
                if self.sqdef:
                    sq_ = [a for a, e in d.items() if abs(e) >= 2 and a in self.sqdef]
                    if sq_:
                        # sqrt(p)^2 = p
                        a = sq_[0]
                        up = d[a] > 0
                        d[a] += -2 if up else 2
                        t = {tuple(sorted((b, e) for b, e in d.items() if e)): v * w}
                        p = self.sqdef[a]
                        r = self.add(r, self.mul(t, p if up else self.inv(p, self.src[a].arg(0))))
                        continue
                k = tuple(sorted((a, e) for a, e in d.items() if e))
                x = r.get(k, 0) + v * w
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return r

    def inv(self, q, z):
        if len(q) == 1:
            (m, v), = q.items()
            return {tuple((a, -e) for a, e in m): 1 / v}
        if not q:
            raise Unsupported("division by zero polynomial")
        lead = q[min(q)]
        n = {m: v / lead for m, v in q.items()}
        r = self.atom(z, ("inv", tuple(sorted(n.items()))))
        return {m: v / lead for m, v in r.items()}

    def inv_of(self, z):
        if z.decl().kind() == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in z.children():
                r = self.mul(r, self.inv_of(c))
            return r
        return self.inv(self.of(z), z)

    def of(self, z):
        k = z.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._of(z)
        self.memo[k] = r
        self.keep.append(z)
        return r

    def _of(self, z):
        if z3.is_rational_value(z):
            f = z.as_fraction()
            return {(): Fraction(f.numerator, f.denominator)} if f else {}
        if z3.is_int_value(z):
            n = z.as_long()
            return {(): Fraction(n)} if n else {}
        d = z.decl().kind()
        ch = z.children()
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.of(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.of(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            return self.add({}, self.of(ch[0]), -1)
        if d == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = self.mul(r, self.of(c))
            return r
        if d == z3.Z3_OP_DIV:
            return self.mul(self.of(ch[0]), self.inv_of(ch[1]))
        if d == z3.Z3_OP_TO_REAL:
            return self.of(ch[0])
        if d == z3.Z3_OP_POWER and (z3.is_int_value(ch[1]) or z3.is_rational_value(ch[1])):
            f = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
            if f.denominator == 1 and 0 <= f <= 8:
                r = {(): Fraction(1)}
                for _ in range(int(f)):
                    r = self.mul(r, self.of(ch[0]))
                return r
        if d == z3.Z3_OP_ITE:
            a, b = self.of(ch[1]), self.of(ch[2])
            if a == b:
                return a
            c = ch[0]
            if c.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_LT) and a == self.add({}, b, -1):
                p = self.add(self.of(c.arg(0)), self.of(c.arg(1)), -1)
                if c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                    p = self.add({}, p, -1)
                sg = 1 if p == a else -1 if p == b else 0
                if sg:                      # |p| or -|p|
                    if p[min(p)] < 0:
                        p = self.add({}, p, -1)
                    r = self.atom(z, ("abs", tuple(sorted(p.items()))))
                    (m, _), = r.items()
                    self.absdef[m[0][0]] = p
                    return r if sg > 0 else self.add({}, r, -1)
            if len(a) + len(b) < 200:
                return self.atom(z, ("ite", self._cond(ch[0]), tuple(sorted(a.items())), tuple(sorted(b.items()))))
        if d == z3.Z3_OP_UNINTERPRETED and ch:
            if z.decl().name() == "uf_sqrt":
                p = self.of(ch[0])
                r = self.atom(z, ("sqrt", tuple(sorted(p.items()))))
                (m, _), = r.items()
                if m[0][0] not in self.sqdef and self.nonneg(ch[0]):
                    self.sqdef[m[0][0]] = p
                return r
            return self.atom(z, ("uf", z.decl().name(), tuple(tuple(sorted(self.of(c).items())) for c in ch)))
        return self.atom(z)

    def nonneg(self, z):
        """the solver shows z >= 0 whatever the variables are"""
        if ("nonneg", z.get_id()) in E.defs:
            return True
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(z < 0)
        if str(s.check()) == "unsat":
            return True
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", 5000)
        s.add(z < 0)
        return str(s.check()) == "unsat"

    def _cond(self, c):
        """normal key of a condition"""
        if c.num_args() == 2 and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(c.arg(0)):
            p = self.add(self.of(c.arg(0)), self.of(c.arg(1)), -1)
            kd = c.decl().kind()
            if kd in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                p = self.add({}, p, -1)
                kd = z3.Z3_OP_LE if kd == z3.Z3_OP_GE else z3.Z3_OP_LT
            return (kd, tuple(sorted(p.items())))
        self.keep.append(c)
        return c.get_id()


def the_poly():
    p = E.defs.get("poly")
    if p is None:
        p = E.defs["poly"] = _Poly()
    return p


def poly_equal(a, b):
    """True when a and b are the same polynomial (over opaque atoms); False means 'not shown'"""
    P = the_poly()
    try:
        za, zb = real_z3(a), real_z3(b)
        return P.of(za) == P.of(zb)
    except (Unsupported, RecursionError):
        return False


# -------------------------------------------------------------------- truth
def truth(v):
    """literal of bool(v)"""
    if isinstance(v, SB):
        return v.lit
    if isinstance(v, SR):
        return E.aig.new_atom(v.z != 0)
    if isinstance(v, Union):
        aig = E.aig
        v = restrict(v)
        if not isinstance(v, Union):
            return truth(v)
        return aig.ORN([aig.AND(g, truth(x)) for g, x in v.alts])
    t = getattr(v, "__symtruth__", None)
    if t is not None:
        return t()
    return 1 if v else 0


def fork_bool(lit):
    """The code needs a concrete bool: follow one side, remember the other."""
    aig = E.aig
    lit = aig.fold(lit)
    if lit == 1:
        return True
    if lit == 0:
        return False
    if not E.fork:
        raise Unsupported("symbolic truth value needed by native code")
    if E.deadline is not None and time.time() > E.deadline:
        raise Timeout("exploration deadline")
    i = len(E.taken)
    if i < len(E.prefix):
        d, forced = E.prefix[i]
    else:
        t = aig.feasible(lit)
        f = aig.feasible(lit ^ 1)
        if not t and not f:
            raise PathDead()
        d = bool(t)
        forced = not (t and f)
        if not forced:
            E.forks += 1
            if E.max_forks is not None and len([1 for _, z in E.taken if not z]) >= E.max_forks:
                raise BoundExceeded("more than %d symbolic branches on one path" % E.max_forks)
    E.taken.append((d, forced))
    l = lit if d else lit ^ 1
    if forced:
        aig._learn(l)
    else:
        aig.path_assume(l)
    return d


def concretize(v):
    """Fork until v has one value."""
    if isinstance(v, SB):
        return bool(v)
    if isinstance(v, Union):
        alts = v.alts
        for g, x in alts[:-1]:
            if fork_bool(g):
                return concretize(x) if is_sym(x) else x
        x = alts[-1][1]
        return concretize(x) if is_sym(x) else x
    if isinstance(v, SR):
        raise Unsupported("cannot concretize a real")
    return v


# --------------------------------------------------------------- arithmetic
def pydiv(a, b):
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        return to_frac(a) / to_frac(b)
    r = a / b
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        f = Fraction(int(a), int(b))
        if Fraction(float(r)) != f:
            return f
    return r


def _both_frac(f):
    def g(a, b):
        if isinstance(a, Fraction) and isinstance(b, (float, np.floating)):
            fb = float(b)
            if fb == fb and abs(fb) != float("inf"):
                b = to_frac(b)
        elif isinstance(b, Fraction) and isinstance(a, (float, np.floating)):
            fa = float(a)
            if fa == fa and abs(fa) != float("inf"):
                a = to_frac(a)
        return f(a, b)
    return g


def _pypow(a, b):
    return a ** b


CONC = {
    "+": _both_frac(operator.add), "-": _both_frac(operator.sub), "*": _both_frac(operator.mul),
    "/": pydiv, "//": _both_frac(operator.floordiv), "%": _both_frac(operator.mod),
    "**": _pypow, "&": operator.and_, "|": operator.or_, "^": operator.xor,
    "<<": operator.lshift, ">>": operator.rshift,
}


def _unbool(v):
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    return v


def b2u(v):
    """SB -> Union of ints 0/1 (or SR in z3 int mode)"""
    if isinstance(v, SB):
        if E.int_mode == "z3":
            return SR(to_z3(v))
        p = (v.lit, v.lit ^ 1)
        return Union([(v.lit, 1), (v.lit ^ 1, 0)], part=p)
    return v


def lift2(f, a, b):
    """apply f to all combinations of alternatives"""
    aig = E.aig
    aa = a.alts if isinstance(a, Union) else None
    bb = b.alts if isinstance(b, Union) else None
    if aa is None:
        return mk_union2([(g, f(a, y)) for g, y in bb])
    if bb is None:
        return mk_union2([(g, f(x, b)) for g, x in aa])
    if len(aa) == len(bb) and all(p[0] == q[0] for p, q in zip(aa, bb)):
        return mk_union2([(p[0], f(p[1], q[1])) for p, q in zip(aa, bb)])
    out = []
    for g, x in aa:
        for h, y in bb:
            k = aig.AND(g, h)
            if k:
                out.append((k, f(x, y)))
    r = mk_union2(out)
    if isinstance(r, Union) and len(r.alts) > 12:
        r = prune(r)
    return r


def prune(u):
    aig = E.aig
    out = []
    for g, v in u.alts:
        s = aig.simval(g)
        if s is not None and s & aig.asim:
            out.append((g, v))
        elif aig.feasible(aig.AND(E.pc, g)):
            out.append((g, v))
    if len(out) == len(u.alts):
        return u
    if not out:
        raise PathDead()
    if len(out) == 1:
        return out[0][1]
    return Union(out)


def mk_union2(alts):
    return mk_union(alts)


def lift1(f, a):
    return mk_union([(g, f(x)) for g, x in a.alts])


def arith(op, a, b):
    """Python-number semantics of a binary operator on (possibly symbolic) scalars."""
    a = norm_num(a)
    b = norm_num(b)
    sa, sb_ = is_sym(a), is_sym(b)
    if not sa and not sb_:
        if hasattr(a, "__symarith__"):
            return a.__symarith__(op, b)
        return CONC[op](a, b)
    if op == "*" and (isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str))):
        from . import snp                       # repetition: one path per count
        if sa:
            a = snp.conc_scalar(a)
        if sb_:
            b = snp.conc_scalar(b)
        return CONC[op](a, b)
    if isinstance(a, SB):
        a = b2u(a)
    if isinstance(b, SB):
        b = b2u(b)
    a = _unbool(a)
    b = _unbool(b)
    if isinstance(a, SR) or isinstance(b, SR):
        # non-numeric alternatives must fail on their own guard
        if isinstance(a, Union) and not all(is_num(x) or isinstance(x, (SR, SB)) for _, x in a.alts):
            return lift_guarded(lambda x: arith(op, x, b), a)
        if isinstance(b, Union) and not all(is_num(x) or isinstance(x, (SR, SB)) for _, x in b.alts):
            return lift_guarded(lambda y: arith(op, a, y), b)
        return sr_arith(op, a, b)
    # unions
    if isinstance(a, Union):
        a = restrict(a)
    if isinstance(b, Union):
        b = restrict(b)
    if not is_sym(a) and not is_sym(b):
        return arith(op, a, b)
    simple = all(is_num(x) for _, x in (alts_of(a) if isinstance(a, Union) else [(1, a)])) and \
        all(is_num(x) for _, x in (alts_of(b) if isinstance(b, Union) else [(1, b)]))
    if simple and op in ("+", "-", "*"):
        return lift2(CONC[op], a, b)
    # general: per-alternative, may raise
    if isinstance(a, Union):
        return lift_guarded(lambda x: arith(op, x, b), a)
    return lift_guarded(lambda y: arith(op, a, y), b)


def lift_guarded(f, u):
    """Apply f per alternative with pc narrowed, collecting exceptions per guard."""
    aig = E.aig
    pc0 = E.pc
    out = []
    done = 0
    for g, x in u.alts:
        k = aig.AND(pc0, g)
        if k == 0:
            continue
        if not aig.feasible(k):
            continue
        E.pc = k
        try:
            v = f(x)
            out.append((E.pc if E.pc != k else g, v))
            done = aig.OR(done, E.pc)
        except PathDead:
            pass
        except EngineError:
            raise
        except Exception as e:
            if E.fork:
                E.pc = pc0
                E.raise_partial(g, e)
                continue
            E.sinks[-1].append((k, e))
    if E.fork:
        E.pc = pc0
        if not out:
            raise PathDead()
        return mk_union(out)
    E.pc = pc0 if done == pc0 else done
    if not out:
        E.pc = 0
        raise PathDead()
    # if nothing was lost keep original pc
    if len(out) == len(u.alts) and all(a[0] == b[0] for a, b in zip(out, u.alts)):
        E.pc = pc0
    return mk_union(out)


def nonneg_int_const(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, bool)


def sr_arith(op, a, b):
    za, zb = to_z3(a), to_z3(b)
    if op in ("+", "-", "*"):
        if za.is_int() != zb.is_int():
            if za.is_int():
                za = z3.ToReal(za) if not z3.is_int_value(za) else z3.RealVal(za.as_long())
            else:
                zb = z3.ToReal(zb) if not z3.is_int_value(zb) else z3.RealVal(zb.as_long())
        if op == "+":
            z = za + zb
        elif op == "-":
            z = za - zb
        else:
            z = za * zb
        return mksr(z3.simplify(z)) if (z3.is_rational_value(za) or z3.is_int_value(za) or z3.is_rational_value(zb) or z3.is_int_value(zb)) else SR(z)
    if op == "/":
        if za.is_int():
            za = z3.ToReal(za)
        if zb.is_int():
            zb = z3.ToReal(zb)
        zb = z3.simplify(zb)
        if z3.is_rational_value(zb):
            if zb.as_fraction() == 0:
                raise ZeroDivisionError("division by zero")
            return mksr(z3.simplify(za / zb))
        E.divisors.append((E.pc, zb))
        return SR(za / zb)
    if op in ("//", "%"):
        if za.is_int() and zb.is_int():
            if not z3.is_int_value(zb):
                raise Unsupported("symbolic integer divisor")
            n = zb.as_long()
            if n == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if n < 0:
                raise Unsupported("negative divisor")
            return SR(za / n if op == "//" else za % n)
        if za.is_int():
            za = z3.ToReal(za)
        if zb.is_int():
            zb = z3.ToReal(zb)
        E.divisors.append((E.pc, zb))
        q = z3.ToInt(za / zb)
        return SR(z3.ToReal(q)) if op == "//" else SR(za - zb * z3.ToReal(q))
    if op == "**":
        bb = z3.simplify(zb)
        if z3.is_rational_value(bb) or z3.is_int_value(bb):
            f = bb.as_fraction() if z3.is_rational_value(bb) else Fraction(bb.as_long())
            if f.denominator == 1 and 0 <= f.numerator <= 8:
                n = f.numerator
                if n == 0:
                    return 1
                z = za
                for _ in range(n - 1):
                    z = z * za
                if bb.is_real() and z.is_int():
                    z = z3.ToReal(z)
                return SR(z)
            if f.denominator == 1 and -8 <= f.numerator < 0:
                return sr_arith("/", 1, sr_arith("**", a, -f.numerator))
            if f == Fraction(1, 2):
                return sr_sqrt(SR(za))
        return uf("pow", [SR(za), SR(zb)])
    if op in ("&", "|", "^", "<<", ">>"):
        raise Unsupported("bitwise operation on an unbounded symbolic integer")
    raise Unsupported(op)


def neg(a):
    a = norm_num(a)
    if isinstance(a, SR):
        return SR(-a.z)
    if isinstance(a, SB):
        return arith("-", 0, a)
    if isinstance(a, Union):
        return lift_guarded(neg, a)
    return -a


def absval(a):
    a = norm_num(a)
    if isinstance(a, SR):
        # |p| and |-p| are the same term
        k = ("abs", a.z.get_id())
        if k in E.defs:
            return E.defs[k][0]
        p = z3.simplify(a.z, som=True)
        try:
            q = the_poly().of(p)
            if q and q[min(q)] < 0:
                p = z3.simplify(-p, som=True)
            kk = ("absp", tuple(sorted(q.items() if not q or q[min(q)] > 0 else ((m, -v) for m, v in q.items()))), p.is_int())
            if kk in E.defs:
                E.defs[k] = (E.defs[kk][0], a)
                return E.defs[k][0]
        except Unsupported:
            kk = None
        r = SR(z3.If(p >= 0, p, -p))
        E.defs[k] = (r, a)
        if kk is not None:
            E.defs[kk] = (r, a)
        return r
    if isinstance(a, SB):
        return a
    if isinstance(a, Union):
        return lift_guarded(absval, a)
    return abs(a)


_CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
        ">": operator.gt, ">=": operator.ge}


def _poly_atom(op, z, k):
    """literal of z op k (k rational) keyed by the polynomial z, with a real variable standing for it"""
    P = the_poly()
    aig = E.aig
    p = P.of(z)
    k0 = p.get((), Fraction(0))
    q = {m: v for m, v in p.items() if m != ()}
    if not q:
        return 1 if _CMP[op](k0, k) else 0
    lead = q[min(q)]
    key = ("polyT", tuple(sorted((m, v / lead) for m, v in q.items())))
    if key not in E.defs:
        T = z3.Real("poly!%d" % len(E.defs))
        E.defs[key] = T
        aig.assume_z3(T == (z - z3num(k0, True)) / z3num(lead, True))
    T = E.defs[key]
    b = (k - k0) / lead
    if lead < 0:
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    return blit(compare(op, SR(T), b))


_Z3OP = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}


def _poly_cond(c):
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        return _poly_cond(c.arg(0)) ^ 1
    if k in _Z3OP and z3.is_arith(c.arg(0)):
        return _poly_atom(_Z3OP[k], c.arg(0) - c.arg(1), Fraction(0))
    if k == z3.Z3_OP_AND:
        return E.aig.ANDN([_poly_cond(x) for x in c.children()])
    if k == z3.Z3_OP_OR:
        return E.aig.ORN([_poly_cond(x) for x in c.children()])
    return E.aig.new_atom(c)


def _poly_compare(op, z, k):
    """z op k, pushed through conditionals"""
    if z.decl().kind() == z3.Z3_OP_ITE:
        c = _poly_cond(z.arg(0))
        a, b = _poly_compare(op, z.arg(1), k), _poly_compare(op, z.arg(2), k)
        return E.aig.OR(E.aig.AND(c, a), E.aig.AND(c ^ 1, b))
    return _poly_atom(op, z, k)


def _log_compare(op, za, zb):
    """comparison whose only non-constant part is one logarithm: log(x) < c as x < exp(c) (exp(c) to 1e-25); None: not of this form"""
    P = the_poly()
    try:
        d = P.add(P.of(za), P.of(zb), -1)
        lo, gamma = None, 0
        import mpmath
        mpmath.mp.dps = 60
        for m, v in d.items():
            if m == ():
                gamma += mpmath.mpf(v.numerator) / v.denominator
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            key = P.key[m[0][0]]
            if not (isinstance(key, tuple) and key[0] == "uf" and key[1] == "uf_log"):
                return None
            arg = dict(key[2][0])
            if not arg or set(arg) == {()}:
                f = arg.get((), Fraction(0))
                if f <= 0:
                    return None
                gamma += mpmath.mpf(v.numerator) / v.denominator * mpmath.log(mpmath.mpf(f.numerator) / f.denominator)
            elif lo is None:
                lo = (v, P.src[m[0][0]].arg(0))
            else:
                return None
        if lo is None:
            return _CMP[op](gamma, 0) if abs(gamma) > mpmath.mpf(10) ** -40 else _CMP[op](0, 0)
        al, x = lo
        if al < 0:
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if op in ("==", "!="):
            return None
        c = mpmath.exp(-gamma * al.denominator / al.numerator)
        K = Fraction(int(mpmath.nint(c * mpmath.mpf(10) ** 25)), 10 ** 25)
        l = _poly_compare(op, x, K)
        if op in ("<", "<="):
            l = E.aig.AND(l, _poly_compare(">=", x, Fraction(0)))
        return mkb(l)
    except Unsupported:
        return None


def _lit(z):
    if z3.is_int_value(z):
        return z.as_long()
    return z.as_fraction() if z3.is_rational_value(z) else None


def _negated(z):
    """x with z = -x, if z is written that way"""
    if not z3.is_app(z):
        return None
    k = z.decl().kind()
    if k == z3.Z3_OP_UMINUS:
        return z.arg(0)
    if k == z3.Z3_OP_MUL and z.num_args() == 2 and _lit(z.arg(0)) == -1:
        return z.arg(1)
    if k == z3.Z3_OP_SUB and z.num_args() == 2 and _lit(z.arg(0)) == 0:
        return z.arg(1)
    return None


def compare(op, a, b):
    """Comparison of scalars -> bool / SB"""
    a = norm_num(a)
    b = norm_num(b)
    sa, sb_ = is_sym(a), is_sym(b)
    if not sa and not sb_:
        if isinstance(a, Fraction) and isinstance(b, float) and b == b and abs(b) != float("inf"):
            b = to_frac(b)
        elif isinstance(b, Fraction) and isinstance(a, float) and a == a and abs(a) != float("inf"):
            a = to_frac(a)
        return _CMP[op](a, b)
    aig = E.aig
    if isinstance(a, SB) and isinstance(b, (SB, bool)) or isinstance(b, SB) and isinstance(a, bool):
        la, lb = blit(a), blit(b)
        if op == "==":
            return mkb(aig.XOR(la, lb) ^ 1)
        if op == "!=":
            return mkb(aig.XOR(la, lb))
        if op == "<":
            return mkb(aig.AND(la ^ 1, lb))
        if op == ">":
            return mkb(aig.AND(la, lb ^ 1))
        if op == "<=":
            return mkb(aig.OR(la ^ 1, lb))
        return mkb(aig.OR(la, lb ^ 1))
    if isinstance(a, SR) or isinstance(b, SR):
        inf = None
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(y, float) and (y != y or abs(y) == float("inf")):
                inf = (y, flip)
        if inf:
            y, flip = inf
            if y != y:
                return op == "!="
            o = op if not flip else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            return {"==": False, "!=": True, "<": y > 0, "<=": y > 0, ">": y < 0, ">=": y < 0}[o]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Union) and not all(is_num(t) or isinstance(t, (SR, SB)) for _, t in x.alts):
                if x is a:
                    return lift_guarded(lambda t: compare(op, t, b), a)
                return lift_guarded(lambda t: compare(op, a, t), b)
        if not (is_num(a) or is_sym(a)) or not (is_num(b) or is_sym(b)):
            if op == "==":
                return False
            if op == "!=":
                return True
            raise TypeError("'%s' not supported" % op)
        za, zb = to_z3(a), to_z3(b)
        if op in (">", "<="):
            za, zb = zb, za
        memo = aig.cmp_memo
        mk = (za.get_id(), zb.get_id(), op in ("==", "!="))
        hit = memo.get(mk)
        if hit is not None:
            return mkb(hit[0] ^ (1 if op in ("<=", ">=", "!=") else 0))
        za0, zb0 = za, zb
        if ("uf_log" in E.cfg) and (_has_log(za) or _has_log(zb)):
            r = _log_compare("==" if op in ("==", "!=") else "<", za, zb)
            if r is not None:
                l = blit(r)
                return mkb(l ^ (1 if op in ("<=", ">=", "!=") else 0))
        neg = op in ("<=", ">=", "!=")
        na, nb = _negated(za), _negated(zb)
        if na is not None and nb is not None:
            za, zb = nb, na
        if op in ("==", "!="):
            if za.get_id() > zb.get_id():
                za, zb = zb, za
            l = 1 if za.get_id() == zb.get_id() else aig.new_atom(za == zb)
        else:
            l = 0 if za.get_id() == zb.get_id() else aig.new_atom(za < zb)
        memo[mk] = (l, za0, zb0)
        return mkb(l ^ 1 if neg else l)
    # unions / SB against numbers
    A = alts_of(restrict(a)) if is_sym(a) else [(1, a)]
    B = alts_of(restrict(b)) if is_sym(b) else [(1, b)]
    def leaf(x, y):
        if is_sym(x) or is_sym(y):
            return compare(op, x, y)
        return compare(op, x, y)
    if op in ("==", "!=") or all(is_num(x) for _, x in A) and all(is_num(y) for _, y in B):
        if len(A) == len(B) and len(A) > 1 and all(p[0] == q[0] for p, q in zip(A, B)):
            terms = [(p[0], leaf(p[1], q[1])) for p, q in zip(A, B)]
        else:
            terms = []
            for g, x in A:
                for h, y in B:
                    k = aig.AND(g, h)
                    if k:
                        terms.append((k, leaf(x, y)))
        r = mkb(aig.ORN([aig.AND(g, blit(v)) for g, v in terms]))
        return r
    if isinstance(a, Union):
        return lift_guarded(lambda x: compare(op, x, b), a)
    return lift_guarded(lambda y: compare(op, a, y), b)


def cond(c, a, b):
    """scalar if-then-else"""
    return merge(blit(c), a, b)


# ----------------------------------------------- uninterpreted functions etc.
def real_z3(v):
    z = to_z3(v)
    return z3.ToReal(z) if z.is_int() else z


def uf(name, args, axioms=None):
    """Uninterpreted real function applied to scalars; axioms(z_result, *z_args) -> list of Z3."""
    zs = [z3.simplify(real_z3(a), som=True) for a in args]
    f = E.uf.get((name, len(zs)))
    if f is None:
        f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(zs) + 1)))
        E.uf[(name, len(zs))] = f
    r = f(*zs)
    k = ("uf", name, tuple(z.get_id() for z in zs))
    if k not in E.defs:
        E.defs[k] = (r, zs)
        if axioms:
            for ax in axioms(r, *zs):
                E.aig.assume_z3(ax)
    return SR(r)


def sum_of_squares(z):
    """z is written as a sum of squares (times nonnegative constants)"""
    d = z.decl().kind()
    ch = z.children()
    if d == z3.Z3_OP_ADD:
        return all(map(sum_of_squares, ch))
    if d == z3.Z3_OP_TO_REAL:
        return sum_of_squares(ch[0])
    if z3.is_rational_value(z) or z3.is_int_value(z):
        return z.as_fraction() >= 0 if z3.is_rational_value(z) else z.as_long() >= 0
    if d == z3.Z3_OP_MUL:
        left = []
        for c in ch:
            i = next((i for i, x in enumerate(left) if x.eq(c)), None)
            if i is None:
                left.append(c)
            else:
                left.pop(i)
        return all(map(sum_of_squares, left))
    return False


def sr_sqrt(v):
    if isinstance(v, Union):
        return lift_guarded(sr_sqrt, v)
    if not is_sym(v):
        import math
        f = to_frac(v)
        if f >= 0 and E.cfg.get("float_sqrt"):
            return math.sqrt(f)
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
            return uf("sqrt", [f], lambda r, x: [z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))])
        return float("nan")
    if v.z.decl().name() == "uf_exp" and v.z.num_args():
        return sr_exp(SR(z3.simplify(v.z.arg(0) / 2, som=True)))
    if sum_of_squares(v.z):
        z = z3.simplify(real_z3(v), som=True)
        E.defs[("nonneg", z.get_id())] = (True, z)
    return uf("sqrt", [v], lambda r, x: [z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))])


def sr_exp(v):
    if isinstance(v, Union):
        return lift_guarded(sr_exp, v)
    if not is_sym(v) and to_frac(v) == 0:
        return Fraction(1)
    return uf("exp", [v], lambda r, x: [r > 0, r >= 1 + x, z3.Implies(x == 0, r == 1)])


def _has_log(z):
    memo = E.cfg["uf_log"]
    k = z.get_id()
    if k not in memo:
        memo[k] = (z3.is_app(z) and (z.decl().name() == "uf_log" or any(_has_log(c) for c in z.children())), z)
    return memo[k][0]


def sr_log(v):
    if isinstance(v, Union):
        return lift_guarded(sr_log, v)
    E.cfg.setdefault("uf_log", {})
    if not is_sym(v) and to_frac(v) == 1:
        return Fraction(0)
    return uf("log", [v])


def to_int_trunc(v):
    """int(v) / astype(int)"""
    v = norm_num(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SB):
        return v
    if isinstance(v, SR):
        if v.is_int:
            return v
        z = v.z
        if z.decl().kind() == z3.Z3_OP_TO_REAL:
            return SR(z.arg(0))
        return SR(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
    if isinstance(v, Union):
        return lift_guarded(to_int_trunc, v)
    return int(v)


def to_real(v):
    v = norm_num(v)
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, SR):
        return SR(z3.ToReal(v.z)) if v.is_int else v
    return v


def round_even(v):
    """round half to even to an integer (value stays 'float'-like)"""
    v = norm_num(v)
    if isinstance(v, SR):
        if v.is_int:
            return v
        z = v.z
        fl = z3.ToInt(z)
        d = z - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        return SR(z3.ToReal(r))
    if isinstance(v, Union):
        return lift_guarded(round_even, v)
    if isinstance(v, SB):
        return v
    if isinstance(v, Fraction):
        return Fraction(round(v))
    if isinstance(v, (int,)):
        return v
    return float(np.round(v))


def floor_(v):
    v = norm_num(v)
    if isinstance(v, SR):
        return v if v.is_int else SR(z3.ToReal(z3.ToInt(v.z)))
    if isinstance(v, Union):
        return lift_guarded(floor_, v)
    if isinstance(v, (SB, int)):
        return v
    import math
    return Fraction(math.floor(to_frac(v)))


def ceil_(v):
    return neg(floor_(neg(v)))


def _ops(cls):
    def mk(op, sw=False):
        if sw:
            def f(self, o):
                if hasattr(o, "__symarray__") or hasattr(o, "__symtensor__"):
                    return NotImplemented
                return arith(op, o, self)
        else:
            def f(self, o):
                if hasattr(o, "__symarray__") or hasattr(o, "__symtensor__"):
                    return NotImplemented
                return arith(op, self, o)
        return f
    for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"),
                   ("mod", "%"), ("pow", "**")):
        setattr(cls, "__%s__" % nm, mk(op))
        setattr(cls, "__r%s__" % nm, mk(op, True))
    def mkc(op):
        def f(self, o):
            if hasattr(o, "__symarray__") or hasattr(o, "__symtensor__"):
                return NotImplemented
            return compare(op, self, o)
        return f
    for nm, op in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        setattr(cls, "__%s__" % nm, mkc(op))
    cls.__neg__ = neg
    cls.__abs__ = absval
    cls.__pos__ = lambda s: s


for _c in (SB, SR, Union):
    _ops(_c)


def _u_and(self, o):
    return arith("&", self, o)


def _u_or(self, o):
    return arith("|", self, o)


def _u_xor(self, o):
    return arith("^", self, o)


Union.__and__ = Union.__rand__ = _u_and
Union.__or__ = Union.__ror__ = _u_or
Union.__xor__ = Union.__rxor__ = _u_xor
Union.__invert__ = lambda self: lift_guarded(lambda x: (~x if not isinstance(x, SB) else b_not(x)), self)
# numpy-scalar style attributes of symbolic numbers
for _c in (SB, SR, Union):
    _h = _c.__hash__


def count_true(lits):
    """Number of true literals as a value (one-hot union or Z3 sum)."""
    const = sum(1 for l in lits if l == 1)
    lits = [l for l in lits if l > 1]
    if not lits:
        return const
    if E.int_mode == "z3":
        z = z3.Sum([z3.If(E.aig.expr(l), 1, 0) for l in lits]) + const
        return SR(z)
    aig = E.aig
    cnt = [1]
    for l in lits:
        nxt = [aig.AND(cnt[0], l ^ 1)]
        for k in range(1, len(cnt)):
            nxt.append(aig.ITE(l, cnt[k - 1], cnt[k]))
        nxt.append(aig.AND(cnt[-1], l))
        cnt = nxt
    alts = [(g, k + const) for k, g in enumerate(cnt) if g]
    if len(alts) == 1:
        return alts[0][1]
    return Union(alts)


def prefix_counts(lits):
    """cnt[i][j]: literal 'exactly j of lits[:i] are true'"""
    aig = E.aig
    cnt = [[1]]
    for l in lits:
        c = cnt[-1]
        nxt = [aig.AND(c[0], l ^ 1)]
        for k in range(1, len(c)):
            nxt.append(aig.ITE(l, c[k - 1], c[k]))
        nxt.append(aig.AND(c[-1], l))
        cnt.append(nxt)
    return cnt


# numpy-scalar conveniences on symbolic scalars
def _astype(self, dt, copy=True, **k):
    from .sarray import cast, as_dtype
    return cast(self, as_dtype(dt))


def _self(self, *a, **k):
    return self


for _c in (SB, SR, Union):
    _c.astype = _astype
    _c.item = _self
    _c.copy = _self
    _c.any = lambda self, *a, **k: mkb(truth(self))
    _c.all = lambda self, *a, **k: mkb(truth(self))
    _c.sum = lambda self, *a, **k: b2u(self) if isinstance(self, SB) else self
    _c.mean = _c.min = _c.max = _self
    _c.ndim = 0
    _c.shape = ()
    _c.size = 1
    _c.conjugate = _self
    _c.round = lambda self, n=0: round_even(self)
    _c.__round__ = lambda self, n=None: to_int_trunc(round_even(self)) if n is None else round_even(self)
    _c.__trunc__ = lambda self: to_int_trunc(self)


class QF(Fraction):
    """exact concrete float leaving an array (keeps the numpy scalar methods used by the code)"""
    __slots__ = ()

    def astype(self, dt, copy=True, **k):
        from .sarray import cast, as_dtype
        return cast(Fraction(self), as_dtype(dt))

    def item(self):
        return Fraction(self)

    ndim = 0
    shape = ()
    size = 1
