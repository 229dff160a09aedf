"""And-inverter graph with random-simulation filtering and a Z3 back end.

Literals are ints: 2*node (positive) / 2*node+1 (negated); 0 is False, 1 is True.
A node is an input bit, an atom (a Z3 Boolean expression over arithmetic) or an AND.
Random simulation only ever yields *witnesses* (a guard that is true under a simulated
assignment is satisfiable); unsatisfiability is always Z3's verdict.
"""
import random, time
import z3


class SolverUnknown(Exception):
    pass


class AIG:
    def __init__(self, seed=1, patterns=512, timeout_ms=60000):
        self.A = [0]
        self.B = [0]
        self.atom = [None]
        self.name = [None]
        self.sim = [0]
        self.strash = {}
        self.inputs = []
        self.W = patterns
        self.mask = (1 << patterns) - 1
        self.rng = random.Random(seed)
        self.has_atoms = False
        self.asim = self.mask           # patterns satisfying the assumptions
        self.assumptions = []           # literals
        self.z3_axioms = []             # z3 expressions asserted on the current path
        self._by_name = {}
        self.timeout_ms = timeout_ms
        self.feas_ms = 3000
        self._solver = None
        self._zvar = {}
        self._cache = {}
        self._pending = []
        self._pushed_assump = 0
        self._expr = {}
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, sim_hits=0)
        self._atoms_by_key = {}
        self.cmp_memo = {}
        self.known = {}                 # node -> 0/1 on the current path
        self.path = []                  # literals assumed on the current path
        self.psim = self.mask

    # ---------------------------------------------------------------- nodes
    def new_input(self, name=None, patterns=None):
        if name is not None and name in self._by_name:
            return self._by_name[name]
        n = len(self.A)
        if name is not None:
            self._by_name[name] = 2 * n
        self.A.append(-1)
        self.B.append(-1)
        self.atom.append(None)
        self.name.append(name or "b%d" % n)
        self.sim.append(self.rng.getrandbits(self.W) if patterns is None else patterns)
        self.inputs.append(n)
        return 2 * n

    def new_atom(self, expr):
        """Literal for a Z3 Boolean expression (hash-consed)."""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return 1
        if z3.is_false(expr):
            return 0
        neg = 0
        if z3.is_not(expr):
            expr = expr.arg(0)
            neg = 1
        k = expr.get_id()
        if k in self._atoms_by_key:
            return self._atoms_by_key[k][0] ^ neg
        n = len(self.A)
        self.A.append(-1)
        self.B.append(-1)
        self.atom.append(expr)
        self.name.append(None)
        self.sim.append(None)
        self.has_atoms = True
        self._atoms_by_key[k] = (2 * n, expr)
        return (2 * n) ^ neg

    def fold(self, a):
        k = self.known.get(a >> 1)
        return a if k is None else k ^ (a & 1)

    def AND(self, a, b):
        if self.known:
            k = self.known.get(a >> 1)
            if k is not None:
                a = k ^ (a & 1)
            k = self.known.get(b >> 1)
            if k is not None:
                b = k ^ (b & 1)
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1:
            return b
        if a == b:
            return a
        if a ^ b == 1:
            return 0
        key = (a, b)
        r = self.strash.get(key)
        if r is not None:
            return r
        A = self.A
        B = self.B
        # two-level rules
        na = a >> 1
        nb = b >> 1
        a0 = A[na]
        b0 = A[nb]
        if a0 >= 0 and na:
            a1 = B[na]
            if not a & 1:
                if b == a0 or b == a1:
                    return a
                if b ^ 1 == a0 or b ^ 1 == a1:
                    return 0
            else:
                if b ^ 1 == a0 or b ^ 1 == a1:
                    return b
                if b == a0:
                    return self.AND(b, a1 ^ 1)
                if b == a1:
                    return self.AND(b, a0 ^ 1)
        if b0 >= 0 and nb:
            b1 = B[nb]
            if not b & 1:
                if a == b0 or a == b1:
                    return b
                if a ^ 1 == b0 or a ^ 1 == b1:
                    return 0
            else:
                if a ^ 1 == b0 or a ^ 1 == b1:
                    return a
                if a == b0:
                    return self.AND(a, b1 ^ 1)
                if a == b1:
                    return self.AND(a, b0 ^ 1)
        if a0 >= 0 and na and b0 >= 0 and nb:
            a1 = B[na]
            b1 = B[nb]
            if not a & 1 and not b & 1:
                if a0 ^ 1 == b0 or a0 ^ 1 == b1 or a1 ^ 1 == b0 or a1 ^ 1 == b1:
                    self.strash[key] = 0
                    return 0
            elif a & 1 and b & 1:
                # ~(x&y) & ~(x&~y) = ~x
                if a0 == b0 and a1 ^ 1 == b1:
                    return a0 ^ 1
                if a0 == b1 and a1 ^ 1 == b0:
                    return a0 ^ 1
                if a1 == b0 and a0 ^ 1 == b1:
                    return a1 ^ 1
                if a1 == b1 and a0 ^ 1 == b0:
                    return a1 ^ 1
            else:
                # (x&y) & ~(u&v): if u or v contradicted by x,y -> (x&y)
                if a & 1:
                    p0, p1, q0, q1, whole = b0, b1, a0, a1, b
                else:
                    p0, p1, q0, q1, whole = a0, a1, b0, b1, a
                if q0 ^ 1 == p0 or q0 ^ 1 == p1 or q1 ^ 1 == p0 or q1 ^ 1 == p1:
                    self.strash[key] = whole
                    return whole
        n = len(A)
        A.append(a)
        B.append(b)
        self.atom.append(None)
        self.name.append(None)
        sa = self.sim[na]
        sb = self.sim[nb]
        if sa is None or sb is None:
            self.sim.append(None)
        else:
            if a & 1:
                sa = ~sa
            if b & 1:
                sb = ~sb
            self.sim.append(sa & sb & self.mask)
        r = 2 * n
        self.strash[key] = r
        return r

    def OR(self, a, b):
        return self.AND(a ^ 1, b ^ 1) ^ 1

    def XOR(self, a, b):
        if a == b:
            return 0
        if a ^ b == 1:
            return 1
        if a <= 1:
            return b ^ a
        if b <= 1:
            return a ^ b
        return self.OR(self.AND(a, b ^ 1), self.AND(a ^ 1, b))

    def ITE(self, c, t, e):
        if c == 1:
            return t
        if c == 0:
            return e
        if t == e:
            return t
        if t == 1:
            return self.OR(c, e)
        if t == 0:
            return self.AND(c ^ 1, e)
        if e == 0:
            return self.AND(c, t)
        if e == 1:
            return self.OR(c ^ 1, t)
        if t ^ e == 1:
            return self.XOR(c, e)
        return self.OR(self.AND(c, t), self.AND(c ^ 1, e))

    def ANDN(self, ls):
        r = 1
        for l in ls:
            r = self.AND(r, l)
            if r == 0:
                return 0
        return r

    def ORN(self, ls):
        ls = list(ls)
        while len(ls) > 1:       # balanced
            ls = [self.OR(ls[i], ls[i + 1]) if i + 1 < len(ls) else ls[i] for i in range(0, len(ls), 2)]
        return ls[0] if ls else 0

    def simval(self, lit):
        s = self.sim[lit >> 1]
        if s is None:
            return None
        return (~s if lit & 1 else s) & self.mask

    # ---------------------------------------------------------------- paths
    def path_reset(self):
        self.known = {}
        self.path = []
        self.z3_axioms = []
        self.psim = self.asim
        self._cache = {}
        for l in self.assumptions:
            self._learn(l)

    def _learn(self, lit):
        todo = [lit]
        known = self.known
        while todo:
            l = todo.pop()
            n = l >> 1
            v = 1 ^ (l & 1)
            if n == 0 or n in known:
                continue
            known[n] = v
            if v and self.A[n] >= 0:
                todo.append(self.A[n])
                todo.append(self.B[n])

    def path_assume(self, lit):
        if lit == 1:
            return
        self.path.append(lit)
        sv = self.simval(lit)
        self.psim = 0 if sv is None else self.psim & sv
        self._learn(lit)
        self._cache = {}

    # ------------------------------------------------------------- solving
    def _fd(self):
        if self._solver is None:
            self._solver = z3.SolverFor("QF_FD")
            self._solver.set("timeout", self.timeout_ms)
            self._zvar = {}
            self._pushed_assump = 0
        return self._solver

    def _load(self, lit):
        """Tseitin-encode the cone of lit into the propositional solver."""
        s = self._solver
        zv = self._zvar
        stack = [lit >> 1]
        A, B = self.A, self.B
        while stack:
            n = stack[-1]
            if n in zv:
                stack.pop()
                continue
            if n == 0:
                v = z3.Bool("n0")
                s.add(z3.Not(v))
                zv[0] = v
                stack.pop()
                continue
            if A[n] < 0:
                zv[n] = z3.Bool("i%d" % n)
                stack.pop()
                continue
            p, q = A[n] >> 1, B[n] >> 1
            todo = [x for x in (p, q) if x not in zv]
            if todo:
                stack.extend(todo)
                continue
            v = z3.Bool("n%d" % n)
            zp = z3.Not(zv[p]) if A[n] & 1 else zv[p]
            zq = z3.Not(zv[q]) if B[n] & 1 else zv[q]
            s.add(z3.Or(z3.Not(v), zp))
            s.add(z3.Or(z3.Not(v), zq))
            s.add(z3.Or(v, z3.Not(zp), z3.Not(zq)))
            zv[n] = v
            stack.pop()
        v = zv[lit >> 1]
        return z3.Not(v) if lit & 1 else v

    def expr(self, lit):
        """Z3 expression (tree over inputs/atoms) of a literal, for use inside arithmetic."""
        if lit == 0:
            return z3.BoolVal(False)
        if lit == 1:
            return z3.BoolVal(True)
        n0 = lit >> 1
        ex = self._expr
        stack = [n0]
        while stack:
            n = stack[-1]
            if n in ex:
                stack.pop()
                continue
            if n == 0:
                ex[0] = z3.BoolVal(False)
                stack.pop()
                continue
            if self.A[n] < 0:
                ex[n] = self.atom[n] if self.atom[n] is not None else z3.Bool("i%d" % n)
                stack.pop()
                continue
            p, q = self.A[n] >> 1, self.B[n] >> 1
            todo = [x for x in (p, q) if x not in ex]
            if todo:
                stack.extend(todo)
                continue
            zp = z3.Not(ex[p]) if self.A[n] & 1 else ex[p]
            zq = z3.Not(ex[q]) if self.B[n] & 1 else ex[q]
            ex[n] = z3.And(zp, zq)
            stack.pop()
        return z3.Not(ex[n0]) if lit & 1 else ex[n0]

    def assume(self, lit):
        if lit == 1:
            return
        self.assumptions.append(lit)
        sv = self.simval(lit)
        if sv is None:
            self.asim = 0
        else:
            self.asim &= sv
        self.psim &= self.asim
        self._learn(lit)
        self._cache.clear()

    def assume_z3(self, expr):
        self.z3_axioms.append(expr)
        self.asim = 0
        self.psim = 0
        self._cache.clear()

    def check(self, lits=(), timeout_ms=None, extra=()):
        """Z3 verdict on assumptions & path & conjunction of lits (& extra Z3 terms)."""
        lits = [l for l in lits if l != 1]
        if any(l == 0 for l in lits):
            return "unsat"
        t = time.time()
        if not self.has_atoms and not self.z3_axioms and not extra:
            s = self._fd()
            while self._pushed_assump < len(self.assumptions):
                s.add(self._load(self.assumptions[self._pushed_assump]))
                self._pushed_assump += 1
            zs = [self._load(l) for l in self.path] + [self._load(l) for l in lits]
            if timeout_ms is not None:
                s.set("timeout", timeout_ms)
            r = str(s.check(*zs))
            if r == "sat":
                self.last_model = s.model()
                self.model_kind = "fd"
            if timeout_ms is not None:
                s.set("timeout", self.timeout_ms)
        else:
            goal = [self.expr(l) for l in self.assumptions]
            goal += [self.expr(l) for l in self.path] + [self.expr(l) for l in lits]
            goal += list(self.z3_axioms) + list(extra)
            r, m = self.portfolio(goal, timeout_ms or self.timeout_ms)
            if r == "sat":
                self.last_model = m
                self.model_kind = "gen"
        dt = time.time() - t
        self.stats["queries"] += 1
        self.stats["solver_s"] += dt
        self.stats["max_s"] = max(self.stats.get("max_s", 0), dt)
        self.stats[r] += 1
        return r

    deadline = None

    def _run(self, s, goal, timeout_ms):
        if self.deadline is not None:
            timeout_ms = min(timeout_ms, max(200, int(1000 * (self.deadline - time.time()))))
        s.set("timeout", int(timeout_ms))
        s.add(*goal)
        return str(s.check())

    def portfolio(self, goal, timeout_ms):
        s = z3.Solver()
        r = self._run(s, goal, timeout_ms)
        if r != "unknown":
            return r, (s.model() if r == "sat" else None)
        for tac in ("qfnra-nlsat", "smt"):
            if self.deadline is not None and time.time() > self.deadline:
                break
            try:
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", tac).solver() if tac == "qfnra-nlsat" else z3.Tactic(tac).solver()
                r = self._run(s, goal, timeout_ms)
                if r != "unknown":
                    return r, (s.model() if r == "sat" else None)
            except z3.Z3Exception:
                pass
        return "unknown", None

    def feasible(self, lit):
        """May lit be true on this path?  (unknown counts as feasible)"""
        lit = self.fold(lit)
        if lit == 0:
            return False
        sv = self.simval(lit)
        if sv is not None and sv & self.psim:
            self.stats["sim_hits"] += 1
            return True
        c = self._cache.get(lit)
        if c is not None:
            return c
        r = self.check([lit], timeout_ms=self.feas_ms if (self.has_atoms or self.z3_axioms) else None)
        if r == "sat" and sv is not None and not self.has_atoms and not self.z3_axioms:
            self._pending.append(self._model_inputs())
            if len(self._pending) >= 16:
                self._extend_patterns()
        self._cache[lit] = r != "unsat"
        return r != "unsat"

    def _model_inputs(self):
        m = self.last_model
        out = {}
        for n in self.inputs:
            v = self._zvar.get(n)
            if v is None:
                out[n] = self.rng.getrandbits(1)
            else:
                out[n] = 1 if z3.is_true(m.eval(v, model_completion=True)) else 0
        return out

    def _extend_patterns(self):
        pats = self._pending
        self._pending = []
        k = len(pats)
        m = (1 << k) - 1
        W = self.W
        new = [0] * len(self.A)
        for n in range(1, len(self.A)):
            if self.sim[n] is None:
                new[n] = None
                continue
            a = self.A[n]
            if a < 0:
                v = 0
                for i, p in enumerate(pats):
                    if p.get(n, 0):
                        v |= 1 << i
            else:
                b = self.B[n]
                va = new[a >> 1]
                vb = new[b >> 1]
                if a & 1:
                    va = ~va
                if b & 1:
                    vb = ~vb
                v = va & vb & m
            new[n] = v
            self.sim[n] |= v << W
        self.W += k
        self.mask = (1 << self.W) - 1
        if not self.z3_axioms:
            s = self.mask
            for l in self.assumptions:
                sv = self.simval(l)
                s = 0 if sv is None else s & sv
            self.asim = s
            for l in self.path:
                sv = self.simval(l)
                s = 0 if sv is None else s & sv
            self.psim = s

    def model_input(self, lit):
        """Value of an input literal in the last model (False when irrelevant)."""
        n = lit >> 1
        if self.model_kind == "fd":
            v = self._zvar.get(n)
        else:
            v = self._expr.get(n)
        if v is None:
            return bool(lit & 1)
        return z3.is_true(self.last_model.eval(v, model_completion=True)) ^ bool(lit & 1)

    def model_lit(self, lit):
        """Value of lit in the last model (structural evaluation)."""
        return z3.is_true(self.last_model.eval(self.expr(lit), model_completion=True))

    def eval_lits(self, lits, assign):
        """Evaluate literals under assign: input node -> bool (default False)."""
        val = {0: False}
        out = []
        for lit in lits:
            stack = [lit >> 1]
            while stack:
                n = stack[-1]
                if n in val:
                    stack.pop()
                    continue
                if self.A[n] < 0:
                    val[n] = bool(assign.get(n, False))
                    stack.pop()
                    continue
                p, q = self.A[n] >> 1, self.B[n] >> 1
                todo = [x for x in (p, q) if x not in val]
                if todo:
                    stack.extend(todo)
                    continue
                val[n] = (val[p] ^ bool(self.A[n] & 1)) and (val[q] ^ bool(self.B[n] & 1))
                stack.pop()
            out.append(val[lit >> 1] ^ bool(lit & 1))
        return out
