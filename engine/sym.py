"""Symbolic values and path exploration.

Values are Python ints (concrete, reduced modulo 2^width) or z3 bit-vectors;
floats are always z3 FP terms (numerals when concrete).

Exploration is by re-execution: a *path function* is run again and again, each
time following a recorded prefix of branch decisions and then extending it.
Every decision beyond the prefix is taken by asking the solver which sides are
feasible, so all feasible sides get explored (DFS) until the bound.
"""
import time
import z3

RNE = z3.RNE()
RTZ = z3.RTZ()
F32 = z3.Float32()
F64 = z3.Float64()


class Prune(Exception):
    """The path is infeasible or leaves the assumed-defined fragment (UB)."""


class Bound(Exception):
    """A stated bound was reached on this path (steps, depth, enumeration)."""


class Inconclusive(Exception):
    """Solver returned unknown or something not encodable was met."""


class Mismatch(Exception):
    def __init__(self, what, model):
        super().__init__(what)
        self.what = what
        self.model = model


class Trap(Exception):
    """wasm trap"""


STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0}


def mask(w):
    return (1 << w) - 1


def is_int(v):
    return isinstance(v, int)


def bv(v, w):
    """as z3 BitVec of width w"""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def sgn(v, w):
    """signed reading of concrete int"""
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def _zb(c):
    return c if z3.is_expr(c) else z3.BoolVal(bool(c))


def ite01(c, w):
    """bool -> 0/1 of width w"""
    if isinstance(c, bool):
        return 1 if c else 0
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def truth(v, w):
    """v != 0 as Python bool or z3 Bool"""
    if isinstance(v, int):
        return v != 0
    d = v.decl().kind()
    if d == z3.Z3_OP_ITE:
        c, a, b = v.children()
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            av, bvv = a.as_long() != 0, b.as_long() != 0
            if av and not bvv:
                return c
            if bvv and not av:
                return neg(c)
            return av
    if d in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        ch = v.children()[0]
        return truth(ch, ch.size())
    if d == z3.Z3_OP_EXTRACT and v.params()[1] == 0:
        ch = v.children()[0]
        if ch.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = ch.children()
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                m = mask(v.size())
                return truth(z3.If(c, z3.BitVecVal(a.as_long() & m, v.size()),
                                   z3.BitVecVal(b.as_long() & m, v.size())), v.size())
    return v != z3.BitVecVal(0, w)


def neg(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.children()[0]
    return z3.Not(c)


def fold(e):
    """simplify a z3 BV term, returning int when it becomes a numeral"""
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def extract(v, hi, lo):
    if isinstance(v, int):
        return (v >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == v.size() - 1:
        return v
    k = v.decl().kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        ch = v.children()[0]
        if hi < ch.size():
            return extract(ch, hi, lo)
        if lo == 0:
            n = hi + 1 - ch.size()
            return z3.ZeroExt(n, ch) if k == z3.Z3_OP_ZERO_EXT else z3.SignExt(n, ch)
    if k == z3.Z3_OP_EXTRACT:
        base = v.params()[1]
        return extract(v.children()[0], hi + base, lo + base)
    return fold(z3.simplify(z3.Extract(hi, lo, v)))


def zext(v, frm, to):
    if isinstance(v, int):
        return v & mask(frm)
    if frm == to:
        return v
    return z3.ZeroExt(to - frm, v)


def sext(v, frm, to):
    if isinstance(v, int):
        return sgn(v, frm) & mask(to)
    if frm == to:
        return v
    return z3.SignExt(to - frm, v)


def concat_bytes(bs):
    """list of byte values (low first) -> value"""
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    e = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if len(bs) > 1 else bs[0]
    return fold(z3.simplify(e))


# --- integer arithmetic (modular) -----------------------------------------

def add(a, b, w):
    if is_int(a) and is_int(b):
        return (a + b) & mask(w)
    if is_int(a):
        a, b = b, a
    if is_int(b):
        if b == 0:
            return a
        # keep base+const normal form
        if a.decl().kind() == z3.Z3_OP_BADD and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
            return add(a.arg(0), (a.arg(1).as_long() + b) & mask(w), w)
    return a + bv(b, w)


def sub(a, b, w):
    if is_int(b):
        return add(a, (-b) & mask(w), w)
    if is_int(a):
        return z3.BitVecVal(a, w) - b
    return a - b


def mul(a, b, w):
    if is_int(a) and is_int(b):
        return (a * b) & mask(w)
    if is_int(a):
        a, b = b, a
    if is_int(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return a * bv(b, w)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def sdiv(a, b, w):
    if is_int(a) and is_int(b):
        return _tdiv(sgn(a, w), sgn(b, w)) & mask(w)
    return bv(a, w) / bv(b, w)


def udiv(a, b, w):
    if is_int(a) and is_int(b):
        return (a // b) & mask(w)
    return z3.UDiv(bv(a, w), bv(b, w))


def srem(a, b, w):
    if is_int(a) and is_int(b):
        x, y = sgn(a, w), sgn(b, w)
        return (x - y * _tdiv(x, y)) & mask(w)
    return z3.SRem(bv(a, w), bv(b, w))


def urem(a, b, w):
    if is_int(a) and is_int(b):
        return a % b
    return z3.URem(bv(a, w), bv(b, w))


def band(a, b, w):
    if is_int(a) and is_int(b):
        return a & b
    if is_int(a):
        a, b = b, a
    if is_int(b):
        if b == 0:
            return 0
        if b == mask(w):
            return a
    return a & bv(b, w)


def bor(a, b, w):
    if is_int(a) and is_int(b):
        return a | b
    return bv(a, w) | bv(b, w)


def bxor(a, b, w):
    if is_int(a) and is_int(b):
        return a ^ b
    return bv(a, w) ^ bv(b, w)


def _shamt(b, w):
    """mask the shift amount as wasm does"""
    if is_int(b):
        return b % w
    return b & z3.BitVecVal(w - 1, w)


def shl(a, b, w):
    if is_int(a) and is_int(b):
        return (a << b) & mask(w) if b < w else 0
    if is_int(b) and b == 0:
        return a
    return bv(a, w) << bv(b, w)


def lshr(a, b, w):
    if is_int(a) and is_int(b):
        return a >> b if b < w else 0
    return z3.LShR(bv(a, w), bv(b, w))


def ashr(a, b, w):
    if is_int(a) and is_int(b):
        return (sgn(a, w) >> min(b, w)) & mask(w)
    return bv(a, w) >> bv(b, w)


def eq(a, b, w):
    if is_int(a) and is_int(b):
        return a == b
    if not is_int(a) and not is_int(b) and a.eq(b):
        return True
    return bv(a, w) == bv(b, w)


def cmp(op, a, b, w):
    if is_int(a) and is_int(b):
        if op[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        o = op[1:]
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]
    a, b = bv(a, w), bv(b, w)
    return {'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
            'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
            'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[op]()


# --- floats -----------------------------------------------------------------

def fsimp(e):
    return z3.simplify(e) if all(z3.is_fp_value(c) or z3.is_fprm(c) or z3.is_bv_value(c) for c in e.children()) else e


def fpbits(e):
    """FP term -> bits (NaN payload unspecified)"""
    k = e.decl().kind()
    if k == z3.Z3_OP_FPA_TO_FP and e.num_args() == 1:
        return fold(e.arg(0))
    if z3.is_fp_value(e):
        return fold(z3.simplify(z3.fpToIEEEBV(e)))
    return z3.fpToIEEEBV(e)


def fpfrombits(b, w):
    sort = F32 if w == 32 else F64
    if is_int(b):
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, w), sort))
    if b.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
        return b.arg(0)
    return z3.fpBVToFP(b, sort)


# --- byte memory --------------------------------------------------------------

class Mem:
    """byte-addressed memory; a cell is an int byte or (value, index, nbytes)"""
    __slots__ = ("d", "default")

    def __init__(self, default=0):
        self.d = {}
        self.default = default

    def store(self, addr, v, n):
        d = self.d
        if isinstance(v, int):
            for i in range(n):
                d[addr + i] = (v >> (8 * i)) & 255
        else:
            for i in range(n):
                d[addr + i] = (v, i, n)

    def byte(self, addr):
        c = self.d.get(addr, self.default)
        if c is None:
            raise Prune("uninitialised read")
        if isinstance(c, int):
            return c
        v, i, n = c
        if z3.is_fp(v):
            v = fpbits(v)
            if isinstance(v, int):
                return (v >> (8 * i)) & 255
        return extract(v, 8 * i + 7, 8 * i)

    def load(self, addr, n):
        """raw load: int, z3 BV of 8n bits, or FP term"""
        d = self.d
        c = d.get(addr, self.default)
        if isinstance(c, tuple) and c[1] == 0 and c[2] == n:
            v = c[0]
            for i in range(1, n):
                c2 = d.get(addr + i)
                if not (isinstance(c2, tuple) and c2[0] is v and c2[1] == i):
                    break
            else:
                return v
        bs = [self.byte(addr + i) for i in range(n)]
        return concat_bytes(bs)

    def load_int(self, addr, n):
        v = self.load(addr, n)
        if z3.is_fp(v):
            return fpbits(v)
        return v

    def load_fp(self, addr, n):
        v = self.load(addr, n)
        if z3.is_fp(v):
            return v
        return fpfrombits(v, 8 * n)


# --- path context -------------------------------------------------------------

class Ctx:
    """one execution of the path function, following `prefix`"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix          # list of (kind, value)
        self.pos = 0
        self.trace = []               # decisions taken on this run
        self.solver = ex.new_solver()
        self.pending = []
        self.model = None             # a model of the path condition, when known
        self.known = {}

    # -- low level
    def _assert(self, c):
        if isinstance(c, bool):
            if not c:
                raise Prune("false")
            return
        self.solver.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def check(self, *extra):
        t = time.time()
        STATS["queries"] += 1
        if self.ex.deadline and t > self.ex.deadline:
            raise Inconclusive("time budget")
        r = self.solver.check(*extra)
        STATS["solver_s"] += time.time() - t
        if r == z3.unknown:
            r2 = self.ex.hard_check(self.solver, extra)
            if r2 is None:
                STATS["unknown"] += 1
                raise Inconclusive("solver unknown: %s" % self.solver.reason_unknown())
            if r2 is False:
                return False
            self.last_model = r2
            return True
        if r == z3.sat:
            self.last_model = self.solver.model()
            return True
        return False

    def _model_says(self, c):
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def assume(self, c):
        """restrict the path; prune when infeasible"""
        if isinstance(c, bool):
            if not c:
                raise Prune("assume")
            return
        self._assert(c)
        if self.pos < len(self.prefix):
            return
        if self.model is None:
            if not self.check():
                raise Prune("assume")
            self.model = self.last_model

    def ex_ub(self, c):
        """assume the reference is defined here"""
        self.assume(c)

    def branch(self, c):
        """decide a condition; explores both feasible sides"""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k][0]
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(b)
            self._assert(c if b else z3.Not(c))
            self.known[k] = (b, c)
            return b
        m = self._model_says(c)
        if m is None:
            if not self.check():
                raise Prune("infeasible")
            self.model = self.last_model
            m = self._model_says(c)
            if m is None:
                m = self.check(c)
                if m:
                    self.model = self.last_model
        # side m is feasible; is the other?
        other = z3.Not(c) if m else c
        if self.check(other):
            self.ex.push(self.trace + [not m])
        # even a forced decision is recorded, so the prefix replays identically
        self.trace.append(m)
        self.prefix = self.trace[:]
        self.pos = len(self.prefix)
        self._assert(c if m else z3.Not(c))
        self.known[k] = (m, c)
        return m

    def concretise(self, v, w, limit=64):
        """fork over every feasible value of v (complete up to limit)"""
        v = fold(v)
        if isinstance(v, int):
            return v
        v = fold(z3.simplify(v))
        if isinstance(v, int):
            return v
        k = ("c", v.get_id())
        if k in self.known:
            return self.known[k][0]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(val)
            self._assert(v == z3.BitVecVal(val, w))
            self.known[k] = (val, v)
            return val
        vals = []
        self.solver.push()
        try:
            while True:
                if not self.check():
                    break
                val = self.last_model.eval(v, model_completion=True).as_long()
                vals.append(val)
                if len(vals) > limit:
                    raise Bound("more than %d values" % limit)
                self.solver.add(v != z3.BitVecVal(val, w))
        finally:
            self.solver.pop()
        if not vals:
            raise Prune("infeasible")
        for o in vals[1:]:
            self.ex.push(self.trace + [o])
        val = vals[0]
        self.trace.append(val)
        self.prefix = self.trace[:]
        self.pos = len(self.prefix)
        self._assert(v == z3.BitVecVal(val, w))
        self.known[k] = (val, v)
        return val

    def prove(self, c, what):
        """assert the property on this path: Mismatch when refutable"""
        if isinstance(c, bool):
            if c:
                self.ex.trivial += 1
                return
            if not self.check():
                raise Prune("infeasible")
            raise Mismatch(what, self.last_model)
        if z3.is_true(c):
            self.ex.trivial += 1
            return
        self.ex.obligations += 1
        if self.check(z3.Not(c)):
            raise Mismatch(what, self.last_model)
        self.ex.discharged += 1


class Explorer:
    def __init__(self, fn, max_paths=400, timeout_ms=20000, budget_s=120, dfs=True):
        self.fn = fn
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.work = [[]]
        self.paths = 0
        self.pruned = 0
        self.bounded = 0
        self.inconclusive = []
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.mismatches = []
        self.truncated = False
        self.deadline = time.time() + budget_s if budget_s else None
        self.results = []

    def new_solver(self):
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", self.timeout_ms)
        return s

    def hard_check(self, solver, extra):
        """second opinion on unknown: a fresh non-incremental tactic solver"""
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast' if False else 'simplify', 'smt').solver()
        s.set("timeout", self.timeout_ms * 2)
        for a in solver.assertions():
            s.add(a)
        for a in extra:
            s.add(a)
        r = s.check()
        if r == z3.sat:
            return s.model()
        if r == z3.unsat:
            return False
        return None

    def push(self, prefix):
        self.work.append(prefix)

    def run(self, stop_at_mismatch=True):
        while self.work:
            if self.paths + self.pruned + self.bounded >= self.max_paths or (
                    self.deadline and time.time() > self.deadline):
                self.truncated = True
                break
            prefix = self.work.pop()
            ctx = Ctx(self, prefix)
            try:
                r = self.fn(ctx)
                self.paths += 1
                self.results.append(r)
            except Prune:
                self.pruned += 1
            except Bound:
                self.bounded += 1
            except Inconclusive as e:
                self.inconclusive.append(str(e))
                if self.deadline and time.time() > self.deadline:
                    self.truncated = True
                    break
            except Mismatch as m:
                m.trace = ctx.trace
                self.mismatches.append((m, ctx))
                if stop_at_mismatch:
                    break
        return self
