"""Symbolic executor for the run-time library's JavaScript (ESTree from acorn).

Numbers that are integers and BigInts are bit vectors with an interval that fixes a width no
operation can overflow; doubles are 64-bit patterns; strings are sequences of code units that
may be symbolic, plus Dec(v), the decimal representation of a symbolic integer. Control flow
forks through sym.Ctx; a call or operator whose alternatives have no side effect is merged
into one if-then-else value."""
import json
import os
import subprocess
import time

import z3

from sym import STATS, Bound, Ctx, Inconclusive, Prune

HERE = os.path.dirname(os.path.abspath(__file__))


class Unsupported(Exception):
    pass


class JSThrow(Exception):
    def __init__(self, v):
        self.v = v


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class Restart(Exception):
    """a merge turned out to have side effects: run the path again without it"""


class Brk(Exception):
    def __init__(self, label=None):
        self.label = label


class Cont(Exception):
    def __init__(self, label=None):
        self.label = label


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Atom:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNDEF, NULL = Atom('undefined'), Atom('null')


# --- values --------------------------------------------------------------------

class Big:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def width(lo, hi):
    f = lambda x: (x if x >= 0 else -x - 1).bit_length() + 1
    return max(f(lo), f(hi))


class Sym:
    """symbolic integer of kind 'num' or 'big' within [lo, hi]"""
    __slots__ = ('kind', 'bv', 'lo', 'hi')

    def __init__(self, kind, bv, lo, hi):
        self.kind, self.bv, self.lo, self.hi = kind, bv, lo, hi

    def ext(self, w):
        s = self.bv.size()
        if s == w:
            return self.bv
        if s < w:
            return z3.SignExt(w - s, self.bv)
        return z3.Extract(w - 1, 0, self.bv)


class Fp:
    """symbolic double: its bit pattern"""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    def fp(self):
        return z3.fpBVToFP(self.bits, z3.Float64())


RNE = z3.RNE()


def mk(kind, bv, lo, hi):
    if lo == hi:
        return conc(kind, lo)
    w = width(lo, hi)
    s = bv.size()
    if s < w:
        bv = z3.SignExt(w - s, bv)
    elif s > w:
        bv = z3.Extract(w - 1, 0, bv)
    if lo >= 0 and w > 1:
        # the sign is known: extensions become zeros
        bv = z3.Concat(z3.BitVecVal(0, 1), z3.Extract(w - 2, 0, bv))
    bv = z3.simplify(bv)
    if z3.is_bv_value(bv):
        return conc(kind, bv.as_signed_long())
    return Sym(kind, bv, lo, hi)


def conc(kind, n):
    return Big(n) if kind == 'big' else n


def kind_of(v):
    if isinstance(v, Sym):
        return v.kind
    if isinstance(v, Big):
        return 'big'
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return 'num'
    if isinstance(v, Fp):
        return 'fp'
    return None


def is_conc_int(v):
    return isinstance(v, Big) or (isinstance(v, int) and not isinstance(v, bool)) or (
        isinstance(v, float) and v.is_integer() and abs(v) < 2 ** 63)


def ival(v):
    return v.v if isinstance(v, Big) else int(v)


def rng(v):
    return (v.lo, v.hi) if isinstance(v, Sym) else (ival(v), ival(v))


def to_bv(v, w):
    return v.ext(w) if isinstance(v, Sym) else z3.BitVecVal(ival(v), w)


def from_unsigned(kind, bv):
    """an unsigned bit vector as an integer value"""
    return mk(kind, z3.ZeroExt(1, bv), 0, (1 << bv.size()) - 1)


def to_fp(v):
    if isinstance(v, Fp):
        return v.fp()
    if isinstance(v, Sym):
        return z3.fpSignedToFP(RNE, v.bv, z3.Float64())
    return z3.FPVal(float(v), z3.Float64())


def mkfp(e):
    e = z3.simplify(z3.fpToIEEEBV(e))
    return Fp(e)


# strings: python str when concrete, otherwise S


class Dec:
    """decimal digits (with sign) of a symbolic integer"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Dig:
    """digit k (power of ten) of the magnitude bit vector m (unsigned)"""
    __slots__ = ('m', 'k', '_bv')

    def __init__(self, m, k):
        self.m, self.k, self._bv = m, k, None

    def bv(self):
        if self._bv is None:
            w = max(self.m.size(), (10 ** self.k).bit_length() + 1, 5)
            m = z3.ZeroExt(w - self.m.size(), self.m) if w > self.m.size() else self.m
            d = z3.URem(z3.UDiv(m, z3.BitVecVal(10 ** self.k, w)), z3.BitVecVal(10, w))
            self._bv = z3.simplify(z3.ZeroExt(max(0, 16 - w), z3.Extract(min(w, 16) - 1, 0, d)) + 48)
        return self._bv


class S:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)


def elems(s):
    return s.e if isinstance(s, S) else tuple(ord(c) for c in s)


def mkstr(es):
    out = []
    for e in es:
        if z3.is_expr(e):
            if z3.is_bv_value(e):
                e = e.as_long()
        out.append(e)
    if all(isinstance(e, int) for e in out):
        return ''.join(map(chr, out))
    return S(out)


def is_str(v):
    return isinstance(v, (str, S))


def code_bv(e):
    if isinstance(e, int):
        return z3.BitVecVal(e, 16)
    if isinstance(e, Dig):
        return e.bv()
    return e


class Obj:
    def __init__(self, it, props=None):
        self.props = props if props is not None else {}
        self.serial = it.serial()


class Arr:
    def __init__(self, it, items):
        self.items = items
        self.serial = it.serial()


class Buf:
    """array buffer: concrete address -> byte (int or 8-bit vector)"""

    def __init__(self, it, size, default):
        self.b = {}
        self.size = size
        self.default = default
        self.serial = it.serial()
        self.written = set()
        self.read = set()

    def get(self, a):
        self.read.add(a)
        if a not in self.b:
            self.b[a] = self.default(a)
        return self.b[a]


VIEWS = {'Uint8Array': (1, 'u'), 'Int8Array': (1, 'i'), 'Uint16Array': (2, 'u'), 'Int16Array': (2, 'i'),
         'Uint32Array': (4, 'u'), 'Int32Array': (4, 'i'), 'BigUint64Array': (8, 'U'), 'BigInt64Array': (8, 'I'),
         'Float64Array': (8, 'f'), 'Uint8ClampedArray': (1, 'u'), 'DataView': (1, 'u')}


class View:
    def __init__(self, kind, buf, off=0, length=None):
        self.kind, self.buf, self.off = kind, buf, off
        self.n, self.t = VIEWS[kind]
        self.length = length if length is not None else (None if buf.size is None else (buf.size - off) // self.n)


class Fn:
    def __init__(self, node, env, it, this=None):
        self.node, self.env, self.this = node, env, this
        self.props = {}
        self.serial = it.serial()


class Native:
    def __init__(self, f, name='', props=None):
        self.f, self.name = f, name
        self.props = props or {}
        self.serial = -1


class Scope:
    __slots__ = ('vars', 'up', 'serial', 'consts')

    def __init__(self, it, up=None):
        self.vars = {}
        self.consts = set()
        self.up = up
        self.serial = it.serial()

    def find(self, n):
        s = self
        while s is not None:
            if n in s.vars:
                return s
            s = s.up
        return None


TDZ = Atom('tdz')


# --- context with merging --------------------------------------------------------

class JCtx(Ctx):
    """path context whose branches may be explored locally and merged"""

    def __init__(self, base):
        self.__dict__.update(base.__dict__)
        self.nest = []
        self.merge_seq = {}
        self.defs = {}              # id of a definition -> definition
        self.tight = {}
        self.names = base.ex.__dict__.setdefault('js_names', {})

    def name(self, v):
        """v under a name: the same term always has the same one"""
        k = v.bv.get_id()
        if k not in self.names:
            n = v.bv.size()
            x = z3.BitVec('t!%d_%d' % (len(self.names), n), n - (v.lo >= 0))
            if v.lo >= 0:
                x = z3.Concat(z3.BitVecVal(0, 1), x)
            self.names[k] = (x, v.bv, x == v.bv, z3.And(x >= v.lo, x <= v.hi))
            self.names[x.get_id()] = self.names[k]
        x, _, d, rng_ = self.names[k]
        if d.get_id() not in self.defs:
            self.defs[d.get_id()] = (d, rng_)
            self.solver.add(d, rng_)
        return Sym(v.kind, x, v.lo, v.hi)

    def tighten(self, v):
        """v with the bounds the path condition gives it"""
        if not isinstance(v, Sym) or not 6 <= v.bv.size() <= 20:
            return v
        k = (v.bv.get_id(), len(self.solver.assertions()))
        if k in self.tight:
            return self.tight[k][0]
        b = []
        for sign in (1, -1):
            lo, hi = (v.lo, v.hi) if sign == 1 else (-v.hi, -v.lo)
            w = v.bv.size() + 1
            e = v.ext(w) if sign == 1 else -v.ext(w)
            while lo < hi:
                m = (lo + hi) // 2
                if self.check(e <= z3.BitVecVal(m, w)):
                    x = self.last_model.eval(e, model_completion=True).as_signed_long()
                    hi = min(m, x)
                else:
                    lo = m + 1
            b.append(lo * sign)
        r = mk(v.kind, v.bv, b[0], b[1])
        self.tight[k] = (r, v)
        return r

    def unnested(self, before):
        """definitions made inside a popped scope stay"""
        for k, (d, r) in self.defs.items():
            if k not in before:
                self.solver.add(d, r)

    def prove(self, c, what):
        """try first without the definitions of the named terms, where their structure is irrelevant"""
        if self.defs and z3.is_expr(c) and not z3.is_true(c):
            s = z3.SolverFor('QF_BV')
            s.set('timeout', 10000)
            for a in self.solver.assertions():
                if a.get_id() not in self.defs:
                    s.add(a)
            s.add(z3.Not(c))
            STATS['queries'] += 1
            t = time.time()
            r = s.check()
            STATS['solver_s'] += time.time() - t
            if r == z3.unsat:
                self.ex.obligations += 1
                self.ex.discharged += 1
                return
        return Ctx.prove(self, c, what)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if not self.nest or z3.is_true(c) or z3.is_false(c) or c.get_id() in self.known:
            return Ctx.branch(self, c)
        f = self.nest[-1]
        if f['pos'] < len(f['prefix']):
            b, forced = f['prefix'][f['pos']]
        else:
            t = self.check(c)
            e = self.check(z3.Not(c))
            if not t and not e:
                raise Prune("infeasible")
            b, forced = t, not (t and e)
            if not forced:
                f['work'].append(f['taken'] + [(False, False)])
                f['forks'] += 1
        f['pos'] += 1
        f['taken'].append((b, forced))
        if not forced:
            f['conds'].append(c if b else z3.Not(c))
            self.solver.add(c if b else z3.Not(c))
            self.model = None
        self.known[c.get_id()] = (b, c)
        return b

    def concretise(self, v, w, limit=64):
        if self.nest:
            raise NoMerge()
        return Ctx.concretise(self, v, w, limit)

    def assume(self, c):
        if self.nest:
            raise NoMerge()
        return Ctx.assume(self, c)


class NoMerge(Exception):
    pass


class Interp:
    def __init__(self, ctx, asts, limit=400000):
        self.ctx = ctx
        self.asts = asts
        self.n = 0
        self.steps = 0
        self.limit = limit
        self.modules = {}
        self.nomerge = ctx.ex.__dict__.setdefault('js_nomerge', set())
        self.cache = ctx.ex.__dict__.setdefault('js_cache', {})
        self.out = []               # bytes written to standard output: string elements
        self.console = []
        self.files = []
        self.exit = None
        self.argv = []
        self.wasm_main = None       # f(interp, imports, argc, argv) -> exit code
        self.pure_at = None
        self.globals = Scope(self)
        self.globals.vars.update(make_globals(self))

    def serial(self):
        self.n += 1
        return self.n

    # -- merging
    def touch(self, serial):
        """a write to something created at `serial`"""
        for f in self.ctx.nest:
            if serial <= f['serial']:
                f['impure'] = True

    def effect(self):
        for f in self.ctx.nest:
            f['impure'] = True

    def merge(self, key, run):
        """run(), merging its alternatives into one value when they have no side effects"""
        ctx = self.ctx
        if key in self.nomerge:
            return run()
        seqk = len(ctx.trace)
        if not ctx.nest:
            q = ctx.merge_seq.get(seqk, 0)
            ctx.merge_seq[seqk] = q + 1
            ck = (key, tuple(ctx.trace), q)
            if ck in self.cache:
                v, _, ds = self.cache[ck]
                for k, (d, r) in ds:
                    if k not in ctx.defs:
                        ctx.defs[k] = (d, r)
                        ctx.solver.add(d, r)
                return v
            defs0 = set(ctx.defs)
        else:
            ck = None
        work = [[]]
        results = []
        serial = self.n
        forks = 0
        first = True
        while work:
            f = dict(prefix=work.pop(), pos=0, taken=[], conds=[], work=work, serial=serial, impure=False, forks=0)
            known = dict(ctx.known)
            model = ctx.model
            ctx.nest.append(f)
            ctx.solver.push()
            defs = set(ctx.defs)
            bad = False
            v = None
            try:
                v = run()
            except (NoMerge, JSThrow, Exit, Bound, Brk, Cont, Ret):
                bad = True
            finally:
                ctx.nest.pop()
                ctx.solver.pop()
                ctx.unnested(defs)
                ctx.known = known
                ctx.model = model
            forks += f['forks']
            if first and not bad and not f['forks'] and not f['prefix']:
                # no alternatives: an ordinary evaluation, side effects included
                return v
            first = False
            if bad or f['impure']:
                self.nomerge.add(key)
                raise Restart()
            c = z3.And(*f['conds']) if len(f['conds']) > 1 else (f['conds'][0] if f['conds'] else z3.BoolVal(True))
            results.append((c, v))
            if len(results) > 64:
                self.nomerge.add(key)
                raise Restart()
        v = self.join(results)
        if v is None:
            self.nomerge.add(key)
            raise Restart()
        if ck and not isinstance(v, (Obj, Arr, Fn, Buf, View)):
            self.cache[ck] = (v, [c for c, _ in results], [x for x in ctx.defs.items() if x[0] not in defs0])
        return v

    def join(self, rs):
        vs = [v for _, v in rs]
        if all(isinstance(v, (bool, z3.BoolRef)) for v in vs):
            r = vs[-1]
            for c, v in reversed(rs[:-1]):
                r = z3.If(c, v if z3.is_expr(v) else z3.BoolVal(v), r if z3.is_expr(r) else z3.BoolVal(r))
            r = z3.simplify(r) if z3.is_expr(r) else r
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        for k in ('num', 'big'):
            if all((kind_of(v) == k and (isinstance(v, Sym) or is_conc_int(v))) for v in vs):
                lo = min(rng(v)[0] for v in vs)
                hi = max(rng(v)[1] for v in vs)
                w = width(lo, hi)
                r = to_bv(vs[-1], w)
                for c, v in reversed(rs[:-1]):
                    r = z3.If(c, to_bv(v, w), r)
                return mk(k, r, lo, hi)
        if all(is_str(v) and len(elems(v)) == 1 and not isinstance(elems(v)[0], (Dec, Dig)) for v in vs):
            r = code_bv(elems(vs[-1])[0])
            for c, v in reversed(rs[:-1]):
                r = z3.If(c, code_bv(elems(v)[0]), r)
            return mkstr([z3.simplify(r)])
        if all(v is vs[0] for v in vs) or all(isinstance(v, str) and v == vs[0] for v in vs):
            return vs[0]
        return None

    # -- conversions
    def truth(self, v):
        c = self.boolean(v)
        return self.ctx.branch(c) if z3.is_expr(c) else c

    def boolean(self, v):
        if isinstance(v, bool) or z3.is_bool(v):
            return v
        if v is UNDEF or v is NULL:
            return False
        if isinstance(v, Sym):
            if v.lo > 0 or v.hi < 0:
                return True
            return v.bv != 0
        if isinstance(v, Big):
            return v.v != 0
        if isinstance(v, (int, float)):
            return v != 0 and v == v
        if isinstance(v, Fp):
            return z3.Not(z3.Or(z3.fpIsZero(v.fp()), z3.fpIsNaN(v.fp())))
        if isinstance(v, str):
            return v != ''
        if isinstance(v, S):
            return True
        return True

    def number(self, v):
        """ToNumber"""
        if kind_of(v) in ('num', 'fp'):
            return v
        if isinstance(v, bool):
            return int(v)
        if z3.is_bool(v):
            return mk('num', z3.If(v, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
        if v is UNDEF:
            return float('nan')
        if v is NULL:
            return 0
        if isinstance(v, str):
            t = v.strip()
            try:
                return num(float(t)) if t else 0
            except ValueError:
                try:
                    return int(t, 0)
                except ValueError:
                    return float('nan')
        raise Unsupported("number of %s" % type(v).__name__)

    def concrete(self, v, what='value'):
        """a concrete integer; forks over the possible ones"""
        if isinstance(v, Sym):
            r = self.ctx.concretise(v.bv, v.bv.size())
            w = v.bv.size()
            return r - (1 << w) if r >> (w - 1) else r
        if is_conc_int(v):
            return ival(v)
        if isinstance(v, Fp):
            raise Unsupported("symbolic double as " + what)
        if isinstance(v, (bool, float)) or v is UNDEF:
            return v
        raise Unsupported("concrete " + what)

    def tostr(self, v):
        if is_str(v):
            return v
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if z3.is_bool(v):
            return 'true' if self.ctx.branch(v) else 'false'
        if v is UNDEF:
            return 'undefined'
        if v is NULL:
            return 'null'
        if isinstance(v, Big):
            return str(v.v)
        if isinstance(v, Sym):
            return S([Dec(v)])
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return jsnum(v)
        if isinstance(v, Arr):
            return self.join_str([self.tostr(x) if x is not UNDEF and x is not NULL else '' for x in v.items], ',')
        raise Unsupported("string of %s" % type(v).__name__)

    def join_str(self, ss, sep):
        es = []
        for i, s in enumerate(ss):
            if i:
                es += elems(sep)
            es += elems(s)
        return mkstr(es)

    def expand(self, s):
        """the string with every Dec replaced by its digits (forks on their number)"""
        if isinstance(s, str) or not any(isinstance(e, Dec) for e in s.e):
            return s
        out = []
        for e in s.e:
            if isinstance(e, Dec):
                out += self.digits(e.v)
            else:
                out.append(e)
        return mkstr(out)

    def digits(self, v):
        neg = False
        w = v.bv.size() + 1
        if v.lo < 0:
            neg = v.hi < 0 or self.ctx.branch(v.bv < 0)
        m = -v.ext(w) if neg else v.ext(w)
        m = z3.simplify(m)
        top = max(abs(v.lo), abs(v.hi))
        n = 1
        while 10 ** n <= top and not self.ctx.branch(z3.ULT(m, z3.BitVecVal(10 ** n, w))):
            n += 1
        return ([45] if neg else []) + [Dig(m, k) for k in range(n - 1, -1, -1)]

    def strlen(self, s):
        """number of code units; Dec contributes a merged length"""
        if isinstance(s, str):
            return len(s)
        tot = 0
        for e in s.e:
            tot = self.arith('+', tot, self.declen(e.v) if isinstance(e, Dec) else 1)
        return tot

    def declen(self, v):
        w = v.bv.size() + 1
        bv = v.ext(w)
        m = z3.If(bv < 0, -bv, bv)
        top = max(abs(v.lo), abs(v.hi))
        n = 1
        r = z3.BitVecVal(1, 12)
        while 10 ** n <= top:
            r = z3.If(z3.UGE(m, z3.BitVecVal(10 ** n, w)), z3.BitVecVal(n + 1, 12), r)
            n += 1
        r = r + z3.If(bv < 0, z3.BitVecVal(1, 12), z3.BitVecVal(0, 12))
        return mk('num', r, 1, n + 1)

    # -- operators
    def arith(self, op, a, b):
        if op == '+' and (is_str(a) or is_str(b) or isinstance(a, (Arr, Obj)) or isinstance(b, (Arr, Obj))):
            return mkstr(elems(self.tostr(a)) + elems(self.tostr(b)))
        ka, kb = kind_of(a), kind_of(b)
        if 'big' in (ka, kb):
            if ka != kb:
                raise JSThrow('TypeError: Cannot mix BigInt and other types')
            return self.iarith('big', op, a, b)
        a, b = self.number(a), self.number(b)
        if op in ('&', '|', '^', '<<', '>>', '>>>'):
            return self.bit32(op, a, b)
        ia, ib = (isinstance(x, Sym) or is_conc_int(x) for x in (a, b))
        if not isinstance(a, (Sym, Fp)) and not isinstance(b, (Sym, Fp)):
            return num(fl(op, float(a), float(b)))
        if ia and ib and op in ('+', '-', '*'):
            r = self.iarith('num', op, a, b)
            lo, hi = rng(r)
            if max(abs(lo), abs(hi)) <= 2 ** 53:
                return r
        if ia and ib and op == '%' and rng(b)[0] > 0 and rng(a)[0] >= 0:
            return self.iarith('num', op, a, b)
        x, y = to_fp(a), to_fp(b)
        f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}.get(op)
        if f is None:
            raise Unsupported("double " + op)
        return mkfp(f(RNE, x, y))

    def iarith(self, kind, op, a, b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            x, y = al, bl
            if op == '/' or op == '%':
                if y == 0:
                    raise JSThrow('RangeError: Division by zero')
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return conc(kind, q if op == '/' else x - q * y)
            if op in ('<<', '>>'):
                if op == '>>':
                    y = -y
                if y > 100000:
                    raise Unsupported("huge shift")
                return conc(kind, x << y if y >= 0 else x >> -y)
            if op == '**':
                return conc(kind, x ** y)
            return conc(kind, {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op])
        if op in ('+', '-', '*'):
            if kind == 'big' and op != '-':
                a, b = self.ctx.tighten(a), self.ctx.tighten(b)
                if not isinstance(a, Sym) and not isinstance(b, Sym):
                    return self.iarith(kind, op, a, b)
                (al, ah), (bl, bh) = rng(a), rng(b)
            c = {'+': [al + bl, ah + bh], '-': [al - bh, ah - bl], '*': [al * bl, al * bh, ah * bl, ah * bh]}[op]
            lo, hi = min(c), max(c)
            w = max(width(lo, hi), width(al, ah), width(bl, bh))
            x, y = to_bv(a, w), to_bv(b, w)
            r = mk(kind, {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[op](), lo, hi)
            return self.ctx.name(r) if isinstance(r, Sym) and r.bv.size() > 24 and op != '-' else r
        if op in ('&', '|', '^'):
            w = max(width(al, ah), width(bl, bh))
            x, y = to_bv(a, w), to_bv(b, w)
            r = {'&': x & y, '|': x | y, '^': x ^ y}[op]
            if op == '&' and (al >= 0 or bl >= 0):
                hi = min([h for l, h in ((al, ah), (bl, bh)) if l >= 0])
                return mk(kind, r, 0, hi)
            if al >= 0 and bl >= 0:
                return mk(kind, r, 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1)
            return mk(kind, r, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if op in ('<<', '>>'):
            n = self.concrete(b, 'shift count')
            if op == '>>':
                n = -n
            if n > 4200:
                raise Unsupported("huge shift")
            if n >= 0:
                lo, hi = al << n, ah << n
                w = width(lo, hi)
                return mk(kind, to_bv(a, w) << n, lo, hi)
            n = -n
            w = width(al, ah)
            if n >= w:
                n = w - 1
            return mk(kind, to_bv(a, w) >> n, al >> n, ah >> n)
        if op in ('/', '%'):
            if bl <= 0 <= bh and self.truth(self.equal(b, conc(kind, 0))):
                raise JSThrow('RangeError: Division by zero')
            w = max(width(al, ah), width(bl, bh)) + 1
            x, y = to_bv(a, w), to_bv(b, w)
            m = max(abs(al), abs(ah))
            nonneg = al >= 0 and bl >= 0
            if op == '/':
                return mk(kind, z3.UDiv(x, y) if nonneg else x / y, 0 if nonneg else -m, m)
            mb = max(abs(bl), abs(bh))
            hi = min(m, mb - 1) if mb > 1 else 0
            return mk(kind, z3.URem(x, y) if nonneg else z3.SRem(x, y), 0 if al >= 0 else -hi, hi)
        if op == '**':
            e = self.concrete(b, 'exponent')
            r = conc(kind, 1)
            for _ in range(e):
                r = self.iarith(kind, '*', r, a)
            return r
        raise Unsupported("integer " + op)

    def int32(self, v):
        """32-bit vector of ToInt32"""
        if isinstance(v, Sym):
            return z3.simplify(v.ext(32)) if v.bv.size() != 32 else v.bv
        if isinstance(v, float) and not v.is_integer():
            v = 0 if v != v or v in (float('inf'), float('-inf')) else int(v)
        if isinstance(v, Fp):
            raise Unsupported("int32 of a symbolic double")
        return z3.BitVecVal(int(v), 32)

    def bit32(self, op, a, b):
        x, y = self.int32(a), self.int32(b)
        if op in ('<<', '>>', '>>>'):
            y = y & 31
            r = {'<<': lambda: x << y, '>>': lambda: x >> y, '>>>': lambda: z3.LShR(x, y)}[op]()
            r = z3.simplify(r)
            y = z3.simplify(y)
            if op == '>>>':
                return from_unsigned('num', r)
            if op == '>>' and z3.is_bv_value(y) and isinstance(a, Sym) and -2 ** 31 <= a.lo and a.hi < 2 ** 31:
                n = y.as_long()
                return mk('num', r, a.lo >> n, a.hi >> n)
            if op == '<<' and z3.is_bv_value(y) and isinstance(a, Sym):
                n = y.as_long()
                if -2 ** 31 <= a.lo << n and a.hi << n < 2 ** 31:
                    return mk('num', r, a.lo << n, a.hi << n)
            return mk('num', r, -2 ** 31, 2 ** 31 - 1)
        r = {'&': x & y, '|': x | y, '^': x ^ y}[op]
        lo, hi = -2 ** 31, 2 ** 31 - 1
        nn = [rng(v) for v in (a, b) if (isinstance(v, Sym) or is_conc_int(v)) and 0 <= rng(v)[0] and rng(v)[1] < 2 ** 31]
        if op == '&' and nn:
            lo, hi = 0, min(h for _, h in nn)
        elif len(nn) == 2:
            lo, hi = 0, (1 << max(h.bit_length() for _, h in nn)) - 1
        return mk('num', r, lo, hi)

    def compare(self, op, a, b):
        if is_str(a) and is_str(b):
            return self.strcmp(op, a, b)
        if kind_of(a) is None:
            a = self.number(a)
        if kind_of(b) is None:
            b = self.number(b)
        if all(isinstance(x, Sym) or is_conc_int(x) for x in (a, b)):
            (al, ah), (bl, bh) = rng(a), rng(b)
            if op in ('>', '>='):
                return self.compare({'>': '<', '>=': '<='}[op], b, a)
            if op == '<':
                if ah < bl:
                    return True
                if al >= bh:
                    return False
            else:
                if ah <= bl:
                    return True
                if al > bh:
                    return False
            w = max(width(al, ah), width(bl, bh))
            x, y = to_bv(a, w), to_bv(b, w)
            return sb(x < y if op == '<' else x <= y)
        if not isinstance(a, (Sym, Fp)) and not isinstance(b, (Sym, Fp)):
            x, y = (v.v if isinstance(v, Big) else v for v in (a, b))
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if 'big' in (kind_of(a), kind_of(b)) and 'fp' in (kind_of(a), kind_of(b)):
            raise Unsupported("comparison of a bigint with a symbolic double")
        if any(isinstance(x, float) and x in (float('inf'), float('-inf')) for x in (a, b)) and not isinstance(a, Fp) and not isinstance(b, Fp):
            x = 0 if isinstance(a, Sym) else a
            y = 0 if isinstance(b, Sym) else b
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        x, y = to_fp(a), to_fp(b)
        return sb({'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}[op](x, y))

    def strcmp(self, op, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        x, y = elems(self.expand(a)), elems(self.expand(b))
        strict = op in ('<', '>')
        if op in ('>', '>='):
            x, y = y, x
        # x < y or x <= y
        n = min(len(x), len(y))
        tail = len(x) < len(y) if strict else len(x) <= len(y)
        r = z3.BoolVal(tail)
        for i in range(n - 1, -1, -1):
            p, q = code_bv(x[i]), code_bv(y[i])
            r = z3.Or(z3.ULT(p, q), z3.And(p == q, r))
        return sb(r)

    def equal(self, a, b):
        """strict equality"""
        ka, kb = kind_of(a), kind_of(b)
        if ka or kb:
            if not ka or not kb or ('big' in (ka, kb) and ka != kb):
                return False
            if all(isinstance(x, Sym) or is_conc_int(x) for x in (a, b)):
                (al, ah), (bl, bh) = rng(a), rng(b)
                if ah < bl or bh < al:
                    return False
                w = max(width(al, ah), width(bl, bh))
                return sb(to_bv(a, w) == to_bv(b, w))
            if not isinstance(a, (Sym, Fp)) and not isinstance(b, (Sym, Fp)):
                return a == b
            if isinstance(a, Sym) and isinstance(b, float) or isinstance(b, Sym) and isinstance(a, float):
                return False
            return sb(z3.fpEQ(to_fp(a), to_fp(b)))
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            x, y = elems(a), elems(b)
            if any(isinstance(e, Dec) for e in x + y):
                x, y = elems(self.expand(a)), elems(self.expand(b))
            if len(x) != len(y):
                return False
            return sb(z3.And(*[code_bv(p) == code_bv(q) for p, q in zip(x, y)])) if x else True
        ba, bb = isinstance(a, bool) or z3.is_bool(a), isinstance(b, bool) or z3.is_bool(b)
        if ba and bb:
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return sb((a if z3.is_expr(a) else z3.BoolVal(a)) == (b if z3.is_expr(b) else z3.BoolVal(b)))
        return a is b

    def loose(self, a, b):
        nul = lambda v: v is UNDEF or v is NULL
        if nul(a) or nul(b):
            return nul(a) and nul(b)
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb:
            if ka != kb and 'big' in (ka, kb):
                if all(isinstance(x, Sym) or is_conc_int(x) for x in (a, b)):
                    (al, ah), (bl, bh) = rng(a), rng(b)
                    w = max(width(al, ah), width(bl, bh))
                    return sb(to_bv(a, w) == to_bv(b, w))
                return False
            return self.equal(a, b)
        if type(a) is type(b) or (is_str(a) and is_str(b)):
            return self.equal(a, b)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return self.equal(a, b)
        if ka or kb:
            o = b if ka else a
            if isinstance(o, (bool, z3.BoolRef, str)):
                return self.loose(self.number(a) if not ka else a, self.number(b) if not kb else b)
        raise Unsupported("==")

    def binary(self, op, a, b):
        if op in ('===', '!=='):
            r = self.equal(a, b)
        elif op in ('==', '!='):
            r = self.loose(a, b)
        elif op in ('<', '<=', '>', '>='):
            return self.compare(op, a, b)
        elif op == 'in':
            return self.tostr(a) in b.props
        elif op == 'instanceof':
            raise Unsupported('instanceof')
        else:
            return self.arith(op, a, b)
        if op[0] == '!':
            return not r if isinstance(r, bool) else sb(z3.Not(r))
        return r

    def unary(self, op, v):
        if op == '!':
            c = self.boolean(v)
            return not c if isinstance(c, bool) else sb(z3.Not(c))
        if op == '-':
            if isinstance(v, Big):
                return Big(-v.v)
            if isinstance(v, Sym):
                return self.iarith(v.kind, '-', conc(v.kind, 0), v)
            v = self.number(v)
            if isinstance(v, Fp):
                return Fp(z3.simplify(v.bits ^ z3.BitVecVal(1 << 63, 64)))
            if isinstance(v, Sym):
                return self.iarith('num', '-', 0, v)
            return num(-float(v))
        if op == '+':
            if kind_of(v) == 'big':
                raise JSThrow('TypeError')
            return self.number(v)
        if op == '~':
            if kind_of(v) == 'big':
                return self.iarith('big', '-', Big(-1), v)
            return self.bit32('^', self.number(v), -1)
        if op == 'typeof':
            k = kind_of(v)
            return ('bigint' if k == 'big' else 'number' if k else 'string' if is_str(v) else
                    'boolean' if isinstance(v, (bool, z3.BoolRef)) else 'undefined' if v is UNDEF else
                    'function' if isinstance(v, (Fn, Native)) else 'object')
        if op == 'void':
            return UNDEF
        raise Unsupported('unary ' + op)

    # -- property access
    def get(self, o, k):
        import jslib
        return jslib.get(self, o, k)

    def put(self, o, k, v):
        import jslib
        return jslib.put(self, o, k, v)

    # -- statements
    def hoist(self, body, env):
        for st in body:
            if st['type'] in ('ExportNamedDeclaration', 'ExportDefaultDeclaration') and st.get('declaration'):
                st = st['declaration']
            if st['type'] == 'FunctionDeclaration':
                env.vars[st['id']['name']] = Fn(st, env, self)
            elif st['type'] == 'VariableDeclaration' and st['kind'] != 'var':
                for d in st['declarations']:
                    for n in names(d['id']):
                        env.vars[n] = TDZ
                        if st['kind'] == 'const':
                            env.consts.add(n)
            elif st['type'] == 'ClassDeclaration':
                raise Unsupported('class')

    def hoist_var(self, node, env):
        for n in var_names(node):
            env.vars.setdefault(n, UNDEF)

    def block(self, body, env):
        self.hoist(body, env)
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > self.limit:
            raise Bound("steps")
        t = st['type']
        if t == 'ExpressionStatement':
            self.expr(st['expression'], env)
        elif t == 'VariableDeclaration':
            for d in st['declarations']:
                if d['init'] is None:
                    if st['kind'] != 'var':
                        self.bind(d['id'], UNDEF, env, True)
                else:
                    self.bind(d['id'], self.expr(d['init'], env), env, st['kind'] != 'var')
        elif t == 'FunctionDeclaration' or t == 'EmptyStatement':
            pass
        elif t == 'ReturnStatement':
            raise Ret(self.expr(st['argument'], env) if st['argument'] else UNDEF)
        elif t == 'IfStatement':
            if self.truth(self.cond(st['test'], env)):
                self.stmt(st['consequent'], env)
            elif st['alternate']:
                self.stmt(st['alternate'], env)
        elif t == 'BlockStatement':
            self.block(st['body'], Scope(self, env))
        elif t in ('WhileStatement', 'DoWhileStatement', 'ForStatement', 'ForOfStatement', 'ForInStatement'):
            self.loop(st, env, None)
        elif t == 'LabeledStatement':
            try:
                if st['body']['type'].startswith(('While', 'Do', 'For')):
                    self.loop(st['body'], env, st['label']['name'])
                else:
                    self.stmt(st['body'], env)
            except Brk as b:
                if b.label != st['label']['name']:
                    raise
        elif t == 'BreakStatement':
            raise Brk(st['label']['name'] if st['label'] else None)
        elif t == 'ContinueStatement':
            raise Cont(st['label']['name'] if st['label'] else None)
        elif t == 'SwitchStatement':
            self.switch(st, env)
        elif t == 'ThrowStatement':
            raise JSThrow(self.expr(st['argument'], env))
        elif t == 'TryStatement':
            try:
                try:
                    self.stmt(st['block'], env)
                except JSThrow as e:
                    if not st['handler']:
                        raise
                    s = Scope(self, env)
                    if st['handler']['param']:
                        self.bind(st['handler']['param'], e.v, s, True)
                    self.block(st['handler']['body']['body'], s)
            finally:
                if st['finalizer']:
                    self.stmt(st['finalizer'], env)
        elif t in ('ExportNamedDeclaration', 'ExportDefaultDeclaration'):
            if st.get('declaration'):
                self.stmt(st['declaration'], env)
        elif t in ('ImportDeclaration', 'ExportAllDeclaration', 'DebuggerStatement'):
            pass
        else:
            raise Unsupported(t)

    def loop(self, st, env, label):
        t = st['type']

        def body(e):
            """False to leave the loop"""
            try:
                self.stmt(st['body'], e)
            except Brk as b:
                if b.label is not None and b.label != label:
                    raise
                return False
            except Cont as c:
                if c.label is not None and c.label != label:
                    raise
            return True

        if t == 'WhileStatement':
            while self.truth(self.cond(st['test'], env)):
                self.tick()
                if not body(env):
                    break
        elif t == 'DoWhileStatement':
            while True:
                self.tick()
                if not body(env) or not self.truth(self.cond(st['test'], env)):
                    break
        elif t == 'ForStatement':
            e = Scope(self, env)
            lets = False
            if st['init']:
                if st['init']['type'] == 'VariableDeclaration':
                    lets = st['init']['kind'] == 'let'
                    self.hoist([st['init']], e)
                    self.stmt(st['init'], e)
                else:
                    self.expr(st['init'], e)
            while st['test'] is None or self.truth(self.cond(st['test'], e)):
                self.tick()
                if not body(e):
                    break
                if lets:
                    n = Scope(self, env)
                    n.vars = dict(e.vars)
                    n.consts = e.consts
                    e = n
                if st['update']:
                    self.expr(st['update'], e)
        else:
            import jslib
            o = self.expr(st['right'], env)
            it = jslib.iterate(self, o) if t == 'ForOfStatement' else list(o.props)
            for v in it:
                self.tick()
                e = Scope(self, env)
                l = st['left']
                if l['type'] == 'VariableDeclaration':
                    self.hoist([l], e)
                    self.bind(l['declarations'][0]['id'], v, e, l['kind'] != 'var')
                else:
                    self.assign(l, v, e)
                if not body(e):
                    break

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Bound("steps")

    def switch(self, st, env):
        v = self.expr(st['discriminant'], env)
        e = Scope(self, env)
        for c in st['cases']:
            self.hoist(c['consequent'], e)
        start = None
        for i, c in enumerate(st['cases']):
            if c['test'] is not None and self.truth(self.equal(v, self.expr(c['test'], e))):
                start = i
                break
        if start is None:
            d = [i for i, c in enumerate(st['cases']) if c['test'] is None]
            if not d:
                return
            start = d[0]
        try:
            for c in st['cases'][start:]:
                for s in c['consequent']:
                    self.stmt(s, e)
        except Brk as b:
            if b.label is not None:
                raise

    # -- binding and assignment
    def bind(self, pat, v, env, lexical):
        t = pat['type']
        if t == 'Identifier':
            if lexical:
                env.vars[pat['name']] = v
            else:
                s = env.find(pat['name'])
                self.touch(s.serial)
                s.vars[pat['name']] = v
        elif t == 'ObjectPattern':
            for p in pat['properties']:
                if p['type'] == 'RestElement':
                    raise Unsupported('rest pattern')
                k = self.tostr(self.expr(p['key'], env)) if p['computed'] else key_name(p['key'])
                self.bind(p['value'], self.get(v, k), env, lexical)
        elif t == 'ArrayPattern':
            import jslib
            items = list(jslib.iterate(self, v))
            for i, p in enumerate(pat['elements']):
                if p is None:
                    continue
                if p['type'] == 'RestElement':
                    self.bind(p['argument'], Arr(self, items[i:]), env, lexical)
                else:
                    self.bind(p, items[i] if i < len(items) else UNDEF, env, lexical)
        elif t == 'AssignmentPattern':
            self.bind(pat['left'], self.expr(pat['right'], env) if v is UNDEF else v, env, lexical)
        elif t == 'MemberExpression':
            self.assign(pat, v, env)
        else:
            raise Unsupported('pattern ' + t)

    def assign(self, l, v, env):
        if l['type'] == 'Identifier':
            s = env.find(l['name'])
            if s is None:
                raise JSThrow('ReferenceError: ' + l['name'])
            if l['name'] in s.consts:
                raise JSThrow('TypeError: Assignment to constant variable.')
            if s.vars[l['name']] is TDZ:
                raise JSThrow('ReferenceError: ' + l['name'])
            self.touch(s.serial)
            s.vars[l['name']] = v
        elif l['type'] == 'MemberExpression':
            o = self.expr(l['object'], env)
            self.put(o, self.key(l, env), v)
        elif l['type'] in ('ArrayPattern', 'ObjectPattern'):
            if l['type'] == 'ArrayPattern':
                import jslib
                for p, x in zip(l['elements'], jslib.iterate(self, v)):
                    if p:
                        self.assign(p, x, env)
            else:
                for p in l['properties']:
                    self.assign(p['value'], self.get(v, key_name(p['key'])), env)
        else:
            raise Unsupported('assign to ' + l['type'])

    def key(self, m, env):
        if m['computed']:
            return self.expr(m['property'], env)
        return m['property']['name']

    # -- expressions
    def cond(self, e, env):
        """an expression used as a condition"""
        return self.expr(e, env)

    def expr(self, e, env):
        t = e['type']
        if t == 'Identifier':
            n = e['name']
            if n == 'undefined':
                return UNDEF
            s = env.find(n)
            if s is None:
                raise JSThrow('ReferenceError: %s is not defined' % n)
            v = s.vars[n]
            if v is TDZ:
                raise JSThrow('ReferenceError: ' + n)
            return v
        if t == 'Literal':
            if 'bigint' in e and e['bigint'] is not None:
                return Big(int(e['bigint'], 0))
            if 'regex' in e:
                import jslib
                return jslib.Regex(e['regex']['pattern'], e['regex']['flags'])
            v = e['value']
            if v is None:
                return NULL
            if isinstance(v, float):
                return num(v)
            return v
        if t == 'TemplateLiteral':
            es = list(elems(e['quasis'][0]['value']['cooked']))
            for q, x in zip(e['quasis'][1:], e['expressions']):
                es += elems(self.tostr(self.expr(x, env)))
                es += elems(q['value']['cooked'])
            return mkstr(es)
        if t == 'BinaryExpression':
            a = self.expr(e['left'], env)
            return self.binary(e['operator'], a, self.expr(e['right'], env))
        if t == 'LogicalExpression':
            if e['operator'] == '??':
                a = self.expr(e['left'], env)
                return self.expr(e['right'], env) if a is UNDEF or a is NULL else a
            return self.merge(('e', id(e)), lambda: self.logical(e, env))
        if t == 'ConditionalExpression':
            return self.merge(('e', id(e)), lambda: self.expr(
                e['consequent'] if self.truth(self.expr(e['test'], env)) else e['alternate'], env))
        if t == 'UnaryExpression':
            if e['operator'] == 'typeof' and e['argument']['type'] == 'Identifier' and not env.find(e['argument']['name']):
                return 'undefined'
            if e['operator'] == 'delete':
                raise Unsupported('delete')
            return self.unary(e['operator'], self.expr(e['argument'], env))
        if t == 'AssignmentExpression':
            op = e['operator']
            if op == '=':
                v = self.expr(e['right'], env) if e['left']['type'] != 'MemberExpression' else None
                if v is None:
                    l = e['left']
                    o = self.expr(l['object'], env)
                    k = self.key(l, env)
                    v = self.expr(e['right'], env)
                    self.put(o, k, v)
                    return v
                self.assign(e['left'], v, env)
                return v
            if op in ('&&=', '||=', '??='):
                raise Unsupported(op)
            return self.update(e['left'], env, lambda old: self.binary(op[:-1], old, self.expr(e['right'], env)))[1]
        if t == 'UpdateExpression':
            d = 1 if e['operator'] == '++' else -1

            def inc(old):
                if kind_of(old) == 'big':
                    return self.iarith('big', '+', old, Big(d))
                return self.arith('+', self.number(old), d)
            o, n = self.update(e['argument'], env, inc)
            return n if e['prefix'] else o
        if t == 'MemberExpression':
            o = self.expr(e['object'], env)
            if e.get('optional') and (o is UNDEF or o is NULL):
                return UNDEF
            return self.get(o, self.key(e, env))
        if t == 'ChainExpression':
            return self.expr(e['expression'], env)
        if t == 'CallExpression':
            return self.call_expr(e, env)
        if t == 'NewExpression':
            import jslib
            f = self.expr(e['callee'], env)
            return jslib.construct(self, f, self.args(e['arguments'], env))
        if t in ('ArrowFunctionExpression', 'FunctionExpression'):
            return Fn(e, env, self)
        if t == 'ObjectExpression':
            o = Obj(self)
            for p in e['properties']:
                if p['type'] == 'SpreadElement':
                    o.props.update(self.expr(p['argument'], env).props)
                    continue
                if p['kind'] != 'init':
                    raise Unsupported('accessor')
                k = self.tostr(self.expr(p['key'], env)) if p['computed'] else key_name(p['key'])
                o.props[k] = self.expr(p['value'], env)
            return o
        if t == 'ArrayExpression':
            return Arr(self, self.args(e['elements'], env))
        if t == 'SequenceExpression':
            for x in e['expressions']:
                v = self.expr(x, env)
            return v
        if t == 'AwaitExpression':
            return self.expr(e['argument'], env)
        if t == 'MetaProperty':
            return Obj(self, {'url': 'file:///runtime/module.mjs'})
        if t == 'ThisExpression':
            return UNDEF
        raise Unsupported(t)

    def update(self, l, env, f):
        if l['type'] == 'MemberExpression':
            o = self.expr(l['object'], env)
            k = self.key(l, env)
            old = self.get(o, k)
            new = f(old)
            self.put(o, k, new)
            return old, new
        old = self.expr(l, env)
        new = f(old)
        self.assign(l, new, env)
        return old, new

    def logical(self, e, env):
        a = self.expr(e['left'], env)
        c = self.truth(a)
        if e['operator'] == '&&':
            if not c:
                return False if z3.is_bool(a) else a
            return self.expr(e['right'], env)
        if c:
            return True if z3.is_bool(a) else a
        return self.expr(e['right'], env)

    def args(self, xs, env):
        import jslib
        out = []
        for x in xs:
            if x is None:
                out.append(UNDEF)
            elif x['type'] == 'SpreadElement':
                out += list(jslib.iterate(self, self.expr(x['argument'], env)))
            else:
                out.append(self.expr(x, env))
        return out

    def call_expr(self, e, env):
        import jslib
        c = e['callee']
        if c['type'] == 'MemberExpression':
            o = self.expr(c['object'], env)
            if c.get('optional') and (o is UNDEF or o is NULL):
                return UNDEF
            k = self.key(c, env)
            a = self.args(e['arguments'], env)
            return jslib.method(self, o, k, a, e)
        f = self.expr(c, env)
        a = self.args(e['arguments'], env)
        return self.call(f, a, e)

    def call(self, f, a, node=None):
        if isinstance(f, Native):
            return f.f(self, a)
        if not isinstance(f, Fn):
            raise JSThrow('TypeError: not a function')
        if node is not None:
            return self.merge(('c', id(node)), lambda: self.invoke(f, a))
        return self.invoke(f, a)

    def invoke(self, f, a):
        self.tick()
        n = f.node
        env = Scope(self, f.env)
        for i, p in enumerate(n['params']):
            if p['type'] == 'RestElement':
                self.bind(p['argument'], Arr(self, list(a[i:])), env, True)
            else:
                self.bind(p, a[i] if i < len(a) else UNDEF, env, True)
        if n['body']['type'] != 'BlockStatement':
            return self.expr(n['body'], env)
        self.hoist_var(n['body'], env)
        try:
            self.block(n['body']['body'], env)
        except Ret as r:
            return r.v
        return UNDEF

    # -- modules
    def module(self, path):
        if path in self.modules:
            return self.modules[path]
        exports = self.modules[path] = {}
        ast = self.asts[path]
        env = Scope(self, self.globals)
        for st in ast['body']:
            if st['type'] != 'ImportDeclaration':
                continue
            src = st['source']['value']
            if src.startswith('.'):
                m = self.module(os.path.normpath(os.path.join(os.path.dirname(path), src)))
            else:
                import jslib
                m = jslib.builtin_module(self, src)
            for sp in st['specifiers']:
                if sp['type'] == 'ImportNamespaceSpecifier':
                    env.vars[sp['local']['name']] = Obj(self, m)
                else:
                    n = key_name(sp['imported']) if sp['type'] == 'ImportSpecifier' else 'default'
                    if n not in m:
                        raise JSThrow('SyntaxError: no export %s in %s' % (n, src))
                    env.vars[sp['local']['name']] = m[n]
        self.hoist_var({'type': 'Program', 'body': ast['body']}, env)
        self.block(ast['body'], env)
        for st in ast['body']:
            if st['type'] == 'ExportNamedDeclaration':
                if st.get('source'):
                    m = self.module(os.path.normpath(os.path.join(os.path.dirname(path), st['source']['value'])))
                    for sp in st['specifiers']:
                        exports[key_name(sp['exported'])] = m[key_name(sp['local'])]
                    continue
                d = st.get('declaration')
                if d:
                    ns = [d['id']['name']] if d['type'] == 'FunctionDeclaration' else [
                        n for x in d['declarations'] for n in names(x['id'])]
                    for n in ns:
                        exports[n] = env.vars[n]
                for sp in st['specifiers']:
                    exports[key_name(sp['exported'])] = env.vars[key_name(sp['local'])]
            elif st['type'] == 'ExportDefaultDeclaration':
                d = st['declaration']
                exports['default'] = env.vars[d['id']['name']] if d['type'] == 'FunctionDeclaration' else self.expr(d, env)
        return exports


def sb(c):
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else c


def num(x):
    """concrete number: int when it is one (not -0)"""
    if isinstance(x, float) and x.is_integer() and abs(x) < 2 ** 63 and not (x == 0 and str(x)[0] == '-'):
        return int(x)
    return x


def fl(op, a, b):
    import math
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if b == 0:
            if a == 0 or a != a:
                return float('nan')
            return math.copysign(float('inf'), a) * math.copysign(1, b)
        return a / b
    if op == '%':
        if b == 0 or a in (float('inf'), float('-inf')) or a != a or b != b:
            return float('nan')
        return math.fmod(a, b)
    if op == '**':
        try:
            return a ** b
        except OverflowError:
            return float('inf')
    raise Unsupported(op)


def jsnum(x):
    if x != x:
        return 'NaN'
    if x in (float('inf'), float('-inf')):
        return 'Infinity' if x > 0 else '-Infinity'
    if x == 0:
        return '0'
    if x.is_integer() and abs(x) < 1e21:
        return str(int(x))
    r = repr(x)
    if 'e' in r:
        raise Unsupported('exponent form')
    return r


def names(p):
    t = p['type']
    if t == 'Identifier':
        return [p['name']]
    if t == 'ObjectPattern':
        return [n for q in p['properties'] for n in names(q.get('value') or q.get('argument'))]
    if t == 'ArrayPattern':
        return [n for q in p['elements'] if q for n in names(q)]
    if t == 'AssignmentPattern':
        return names(p['left'])
    if t == 'RestElement':
        return names(p['argument'])
    return []


def var_names(n):
    """names declared by var in a function body"""
    if isinstance(n, list):
        return [x for y in n for x in var_names(y)]
    if not isinstance(n, dict):
        return []
    if n.get('type') in ('FunctionDeclaration', 'FunctionExpression', 'ArrowFunctionExpression'):
        return []
    out = []
    if n.get('type') == 'VariableDeclaration' and n['kind'] == 'var':
        out += [x for d in n['declarations'] for x in names(d['id'])]
    for k, v in n.items():
        if isinstance(v, (dict, list)):
            out += var_names(v)
    return out


def key_name(k):
    return k['name'] if k['type'] == 'Identifier' else str(k['value'])


def make_globals(it):
    import jslib
    return jslib.make_globals(it)


def parse(root, files):
    """{path: ast} of the run-time modules"""
    r = subprocess.run(["node", os.path.join(HERE, "esparse.cjs")] + [os.path.join(root, f) for f in files],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("the run-time library does not parse: " + r.stderr[-400:])
    return json.loads(r.stdout)
