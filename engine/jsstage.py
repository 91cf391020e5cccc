"""The run-time library (runtime/*.mjs) executed symbolically against the C library's specification.

Every run executes the library's own start-up (run.mjs) with the WebAssembly module replaced by one
call of a library function on symbolic memory; the specification below is evaluated on the same
symbolic bytes and the solver compares output, result and memory."""
import json
import os
import random
import shutil
import subprocess
import tempfile
import time

import z3

import jobrun
import jslib
import jsym
from drive import BUILD, REPO
from jsym import Big, Buf, Dec, Dig, Exit, JCtx, JSThrow, Restart, S, Sym, Unsupported, from_unsigned, mk, mkstr, to_bv
from sym import STATS, Bound, Ctx, Explorer, Inconclusive, Mismatch, Prune

SP0, FP, STR, STR2, OUT = 1000, 2000, 2500, 3000, 3500


def files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "runtime")):
        out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith('.mjs')]
    return sorted(out)


# --- symbolic inputs --------------------------------------------------------------

class Vars:
    """named bit vectors; with pins they are constants"""

    def __init__(self, pins=None):
        self.pins = pins
        self.made = {}
        self.cons = []

    def __call__(self, name, w):
        if self.pins is not None:
            self.made[name] = w
            return z3.BitVecVal(self.pins.get(name, 0), w)
        self.made[name] = w
        return z3.BitVec(name, w)

    def require(self, c):
        self.cons.append(c)


def le(v, n):
    """n bytes of a little-endian constant or bit vector"""
    if isinstance(v, int):
        return [(v >> (8 * i)) & 255 for i in range(n)]
    return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]


def b8(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


class Call:
    """fn, mem {addr: byte}, allowed output {addr: expected byte}, out: expected output elements"""

    def __init__(self, fn):
        self.fn = fn
        self.mem = {}
        self.put(0, le(FP, 4))
        self.put(4, le(FP + 4, 4))
        self.put(8, le(FP + 200, 4))
        self.args = ["prog.wasm"]

    def put(self, a, bs):
        for i, b in enumerate(bs):
            self.mem[a + i] = b


# --- specifications ---------------------------------------------------------------

class Sp:
    """helpers for the specifications: forking on conditions over bytes"""

    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it

    def br(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        return self.ctx.branch(c)

    def digit(self, c):
        """value of a character known to be a digit or letter, without the alternatives the path excludes"""
        c = z3.ZeroExt(8, b8(c))
        alts = [(48, 57, 48), (97, 122, 87), (65, 90, 55)]
        r = None
        opts = []
        for lo, hi, off in alts:
            cond = z3.And(z3.UGE(c, lo), z3.ULE(c, hi))
            f = forced(self.ctx, cond)
            if f is False:
                continue
            opts.append((cond, off))
            if f is True:
                break
        r = z3.Extract(6, 0, c - opts[-1][1])
        for cond, off in reversed(opts[:-1]):
            r = z3.If(cond, z3.Extract(6, 0, c - off), r)
        return self.ctx.tighten(mk('big', z3.simplify(r), 0, 35))


def forced(ctx, c):
    """the truth of c where the path condition decides it, else None"""
    c = z3.simplify(c)
    if z3.is_true(c) or z3.is_false(c):
        return z3.is_true(c)
    if not ctx.check(c):
        return False
    if not ctx.check(z3.Not(c)):
        return True
    return None


def digit(c):
    """value of a character as a digit; 99 when it is none"""
    c = b8(c)
    return z3.simplify(z3.If(z3.And(c >= 48, c <= 57), c - 48,
                             z3.If(z3.And(c >= 97, c <= 122), c - 87,
                                   z3.If(z3.And(c >= 65, c <= 90), c - 55, z3.BitVecVal(99, 8)))))


def spec_strtol(sp, cs, base, signed):
    """(value as 64-bit vector, characters consumed)"""
    W = 200
    i = 0
    while sp.br(z3.Or(b8(cs[i]) == 32, z3.And(z3.UGE(b8(cs[i]), 9), z3.ULE(b8(cs[i]), 13)))):
        i += 1
    neg = False
    if sp.br(z3.Or(b8(cs[i]) == 45, b8(cs[i]) == 43)):
        neg = sp.br(b8(cs[i]) == 45)
        i += 1
    b16 = sp.br(z3.Or(base == 0, base == 16))
    hexp = False
    if b16 and sp.br(b8(cs[i]) == 48) and sp.br(z3.Or(b8(cs[i + 1]) == 120, b8(cs[i + 1]) == 88)):
        hexp = sp.br(z3.ULT(digit(cs[i + 2]), 16))
    if hexp:
        i += 2
        base = z3.BitVecVal(16, 8)
    elif sp.br(base == 0):
        base = z3.BitVecVal(8 if sp.br(b8(cs[i]) == 48) else 10, 8)
    mag = Big(0)
    n = 0
    bb = from_unsigned('big', z3.simplify(base))
    if isinstance(bb, Sym):
        bb = mk('big', bb.bv, 2, 36)
    while sp.br(z3.ULT(digit(cs[i]), base)):
        d = sp.digit(cs[i])
        mag = sp.it.iarith('big', '+', sp.it.iarith('big', '*', mag, bb), d)
        i += 1
        n += 1
    if n == 0:
        return z3.BitVecVal(0, 64), 0
    m = to_bv(mag, W)
    if signed:
        v = -m if neg else m
        hi, lo = z3.BitVecVal(2 ** 63 - 1, W), z3.BitVecVal(-2 ** 63, W)
        v = z3.If(v > hi, hi, z3.If(v < lo, lo, v))
        return z3.simplify(z3.Extract(63, 0, v)), i
    mx = z3.BitVecVal(2 ** 64 - 1, W)
    v = z3.If(z3.UGT(m, mx), mx, -m if neg else m)
    return z3.simplify(z3.Extract(63, 0, v)), i


def spec_double(sp, bits):
    """elements of %f"""
    neg = sp.br(z3.Extract(63, 63, bits) == 1)
    e = z3.simplify(z3.Extract(62, 52, bits))
    if not z3.is_bv_value(e):
        raise Unsupported("symbolic exponent")
    e = e.as_long()
    frac = z3.Extract(51, 0, bits)
    sign = [45] if neg else []
    if e == 2047:
        if sp.br(frac == 0):
            return sign + [ord(c) for c in 'inf']
        # glibc prints the sign of a NaN, other libraries do not: "nan" after an optional sign
        return ['nan']
    m = z3.ZeroExt(12, frac) if e == 0 else z3.Concat(z3.BitVecVal(1, 12), frac)
    x = (1 if e == 0 else e) - 1075
    # the product in the width it needs: one multiplication of equal widths on both sides
    mw = (((1 << (52 if e == 0 else 53)) - 1) * 1000000).bit_length() + 1
    mm = z3.Concat(z3.BitVecVal(0, 1), z3.Extract(mw - 2, 0, z3.ZeroExt(mw - 64, m) * 1000000))
    if x >= 0:
        W = 64 + 20 + x + 2
        V = z3.ZeroExt(W - mw, mm) << x
    else:
        s = -x
        W = max(64 + 20, s) + 3
        N = z3.ZeroExt(W - mw, mm)
        q = z3.LShR(N, s)
        r = N & z3.BitVecVal((1 << s) - 1, W)
        half = z3.BitVecVal(1 << (s - 1), W)
        up = z3.Or(z3.UGT(r, half), z3.And(r == half, z3.Extract(0, 0, q) == 1))
        V = q + z3.If(up, z3.BitVecVal(1, W), z3.BitVecVal(0, W))
    V = z3.simplify(V)
    top = 2 ** 53 * 10 ** 6 * (2 ** x if x >= 0 else 1) + 1 if x >= 0 else ((2 ** 53 * 10 ** 6) >> -x) + 2
    n = 7
    while 10 ** n <= top and not sp.br(z3.ULT(V, z3.BitVecVal(10 ** n, W))):
        n += 1
    return sign + [Dig(V, k) for k in range(n - 1, 5, -1)] + [46] + [Dig(V, k) for k in range(5, -1, -1)]


def string_at(sp, mem, a):
    out = []
    while not sp.br(b8(mem[a]) == 0):
        out.append(mem[a])
        a += 1
    return out


def spec_printf(sp, c, va):
    """output elements for the format string at STR and the arguments from va"""
    mem = c.mem
    f = STR
    out = []

    def take(n):
        nonlocal va
        bs = [b8(mem[va + i]) for i in range(n)]
        va += n
        return z3.simplify(z3.Concat(*reversed(bs))) if n > 1 else bs[0]

    def at(ch):
        return sp.br(b8(mem[f]) == ord(ch))

    def dec(v, signed):
        w = v.size()
        x = mk('big', v, -(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else from_unsigned('big', v)
        return [Dec(x)] if isinstance(x, Sym) else [ord(ch) for ch in str(x.v)]

    while not sp.br(b8(mem[f]) == 0):
        if not at('%'):
            out.append(mem[f])
            f += 1
            continue
        f += 1
        if at('%'):
            out.append(37)
        elif at('d') or at('i'):
            out += dec(take(4), True)
        elif at('u'):
            out += dec(take(4), False)
        elif at('c'):
            out.append(z3.simplify(z3.Extract(7, 0, take(4))))
        elif at('s'):
            p = take(4)
            if not z3.is_bv_value(p):
                raise Prune("symbolic string pointer")
            out += string_at(sp, mem, p.as_long())
        elif at('f'):
            out += spec_double(sp, take(8))
        elif at('h'):
            f += 1
            v = z3.simplify(z3.Extract(15, 0, take(4)))
            if at('d') or at('i'):
                out += dec(v, True)
            elif at('u'):
                out += dec(v, False)
            else:
                raise Prune("undefined conversion")
        elif at('l'):
            f += 1
            if at('d') or at('i'):
                out += dec(take(8), True)
            elif at('u'):
                out += dec(take(8), False)
            else:
                raise Prune("undefined conversion")
        else:
            raise Prune("undefined conversion")
        f += 1
    return out


# --- families of calls -------------------------------------------------------------
# a family builds a Call from Vars and gives its expected effect: (out elements, {addr: byte})

def bytes_of(V, name, n):
    return [V('%s%d' % (name, i), 8) for i in range(n)]


def fam_strtol(fn, n, base, first=None, alphabet=None, endp=True, cycle=False):
    """n arbitrary characters after the fixed ones `first`"""
    def build(V):
        c = Call(fn)
        cs = [ord(x) for x in first or ''] + bytes_of(V, 'c', n) + [0]
        if alphabet:
            for i, x in enumerate(cs[len(first or ''):-1]):
                al = [alphabet[i % len(alphabet)]] if cycle else alphabet
                V.require(z3.Or(*[z3.And(z3.UGE(x, lo), z3.ULE(x, hi)) for lo, hi in al]))
        if base is None:
            b = V('base', 8)
            V.require(z3.And(z3.ULE(b, 36), b != 1))
        else:
            b = z3.BitVecVal(base, 8)
        c.put(STR, cs)
        ep = OUT if endp else 0
        c.put(FP, le(SP0, 4))
        c.put(FP + 12, le(STR, 4) + le(ep, 4) + [z3.simplify(b), 0, 0, 0])

        def spec(sp):
            v, used = spec_strtol(sp, cs, b, fn == 'strtol')
            eff = {FP + 4 + i: x for i, x in enumerate(le(v, 8))}
            if endp:
                eff.update({OUT + i: x for i, x in enumerate(le(STR + used, 4))})
            return [], eff
        return c, spec
    return build


def fam_strlen(n):
    def build(V):
        c = Call('strlen')
        cs = bytes_of(V, 'c', n) + [0]
        c.put(STR, cs)
        c.put(FP, le(SP0, 4))
        c.put(FP + 8, le(STR, 4))

        def spec(sp):
            return [], {FP + 4 + i: x for i, x in enumerate(le(len(string_at(sp, c.mem, STR)), 4))}
        return c, spec
    return build


def fam_strstr(n, m, alphabet=None):
    def build(V):
        c = Call('strstr')
        h, d = bytes_of(V, 'h', n), bytes_of(V, 'n', m)
        if alphabet:
            for x in h + d:
                V.require(z3.Or(*[x == a for a in alphabet]))
        c.put(STR, h + [0])
        c.put(STR2, d + [0])
        c.put(FP, le(SP0, 4))
        c.put(FP + 8, le(STR, 4) + le(STR2, 4))

        def spec(sp):
            H, N = string_at(sp, c.mem, STR), string_at(sp, c.mem, STR2)
            r = z3.BitVecVal(0, 32)
            for i in range(len(H) - len(N), -1, -1):
                eq = z3.And(*[b8(H[i + j]) == b8(N[j]) for j in range(len(N))]) if N else z3.BoolVal(True)
                r = z3.If(eq, z3.BitVecVal(STR + i, 32), r)
            return [], {FP + 4 + i: x for i, x in enumerate(le(z3.simplify(r), 4))}
        return c, spec
    return build


def fam_printf(fmt, exps=(1023,), slen=3):
    """a fixed format string (None bytes are arbitrary) with arbitrary arguments"""
    def build(V):
        c = Call('printf')
        fs = [V('f%d' % i, 8) if x is None else x for i, x in enumerate(fmt)]
        c.put(STR, fs + [0])
        va = []
        strs = 0
        txt = ''.join(chr(x) if isinstance(x, int) else '?' for x in fmt)
        i = 0
        k = 0
        while i < len(txt):
            if txt[i] == '%' and i + 1 < len(txt):
                t = txt[i + 1]
                k += 1
                if t in 'diuc':
                    va += bytes_of(V, 'a%d_' % k, 4)
                elif t == 'h':
                    va += bytes_of(V, 'a%d_' % k, 4)
                elif t == 'l':
                    va += bytes_of(V, 'a%d_' % k, 8)
                elif t == 's':
                    a = STR2 + 20 * strs
                    c.put(a, bytes_of(V, 's%d_' % k, slen) + [0])
                    va += le(a, 4)
                    strs += 1
                elif t == 'f':
                    e = exps[strs % len(exps)] if len(exps) > 1 else exps[0]
                    va += le(z3.Concat(V('sg%d' % k, 1), z3.BitVecVal(e, 11), V('m%d' % k, 52)), 8)
                i += 2 if t not in 'hl' else 3
                continue
            i += 1
        if None in fmt:
            va += bytes_of(V, 'v', 16)
            for x, y in zip(fs, fs[1:]):
                if z3.is_expr(x) or z3.is_expr(y):
                    V.require(z3.Not(z3.And(b8(x) == 37, z3.Or(b8(y) == ord('s'), b8(y) == ord('f')))))
        c.put(FP, le(SP0, 4))
        c.put(FP + 8, le(STR, 4) + va)

        def spec(sp):
            out = spec_printf(sp, c, FP + 12)
            n = 0
            for e in out:
                n = sp.it.arith('+', n, 3 if isinstance(e, str) else sp.it.declen(e.v) if isinstance(e, Dec) else 1)
            v = to_bv(n, 32)
            if any(isinstance(e, str) for e in out):
                return out, {FP + 4 + i: None for i in range(4)}
            return out, {FP + 4 + i: x for i, x in enumerate(le(z3.simplify(v), 4))}
        return c, spec
    return build


def fam_args(lens, wide=False):
    """program start: argc, argv and the strings; any exit code"""
    def build(V):
        c = Call(None)
        c.args = ["prog.wasm"]
        c.symargs = []
        for k, n in enumerate(lens):
            cs = [V('p%d_%d' % (k, i), 16) for i in range(n)]
            for x in cs:
                V.require(z3.And(z3.UGE(x, 1), z3.ULT(x, 0x800 if wide else 0x80)))
            c.symargs.append(cs)
        c.code = V('code', 8)
        return c, None
    return build


def fam_profile():
    def build(V):
        c = Call('log_stack_ptr')
        b = bytes_of(V, 'sp', 4)
        V.require(z3.ULT(b[3], 128))
        c.put(8, b)

        def spec(sp):
            return [], {}
        return c, spec
    return build


# --- one path ------------------------------------------------------------------------

def compare_out(ctx, it, got, want):
    """prove two sequences of output elements equal"""
    if any(isinstance(e, str) for e in want):
        return compare_nan(ctx, got, want)
    dec = lambda es: any(isinstance(e, Dec) for e in es)
    if len(got) != len(want) or any(isinstance(a, Dec) != isinstance(b, Dec) for a, b in zip(got, want)):
        if dec(got) or dec(want):
            got = list(jsym.elems(it.expand(mkstr(got))))
            want = list(jsym.elems(it.expand(mkstr(want))))
    if len(got) != len(want):
        ctx.prove(False, "prints %d bytes, not %d" % (len(got), len(want)))
    same = {}
    conds = []
    for i, (a, b) in enumerate(zip(got, want)):
        if isinstance(a, Dec):
            w = max(a.v.bv.size(), b.v.bv.size())
            if not z3.eq(a.v.ext(w), b.v.ext(w)):
                conds.append(a.v.ext(w) == b.v.ext(w))
        elif isinstance(a, Dig) and isinstance(b, Dig) and a.k == b.k:
            k = (a.m.get_id(), b.m.get_id())
            if k not in same:
                same[k] = 1
                w = max(a.m.size(), b.m.size())
                ze = lambda x: z3.ZeroExt(w - x.size(), x) if x.size() < w else x
                conds.append(ze(a.m) == ze(b.m))
        else:
            conds.append(code16(a) == code16(b))
    conds = [z3.simplify(x) for x in conds]
    conds = [x for x in conds if not z3.is_true(x)]
    ctx.prove(z3.And(*conds) if conds else True, "the bytes printed differ")


def code16(e):
    if isinstance(e, int):
        return z3.BitVecVal(e, 16)
    if isinstance(e, Dig):
        return e.bv()
    return z3.ZeroExt(16 - e.size(), e) if e.size() < 16 else e


def compare_nan(ctx, got, want):
    """'nan' matches nan or -nan"""
    import re
    s = ''.join(chr(e) if isinstance(e, int) else '?' for e in got)
    pat = ''.join('-?nan' if isinstance(e, str) else re.escape(chr(e)) if isinstance(e, int) else '.' for e in want)
    ctx.prove(bool(re.fullmatch(pat, s, re.S)), "prints %r for NaN" % s)


def path_fn(asts, build):
    def run(ctx):
        jc = JCtx(ctx)
        V = Vars()
        c, spec = build(V)
        for x in V.cons:
            jc.assume(x)
        it = jsym.Interp(jc, asts)
        if getattr(c, 'symargs', None) is not None:
            args = c.args + [mkstr(x) for x in c.symargs]
        else:
            args = c.args
        it.argv += ['/usr/bin/node', '/runtime/run.mjs'] + args
        seen = []

        def memory(a):
            b = Buf(it, None, lambda q: z3.BitVec('m_%d' % q, 8))
            for i, x in enumerate(le(SP0 - 40, 4) + le(SP0 - 36, 4) + le(SP0, 4)):
                b.b[i] = x
            return jslib.Memory(b)
        it.make_memory = memory

        def main(it_, imports, a):
            mem = imports.props['runtime'].props['memory']
            b = mem.buf
            if c.fn is None:
                check_args(jc, it, b, a, args)
                code = z3.SignExt(24, c.code)
                seen.append(code)
                return mk('num', code, -128, 127)
            for q, x in c.mem.items():
                b.b[q] = x
            b.written.clear()
            before = dict(b.b)
            it.out.clear()
            f = imports.props['stdlib'].props.get(c.fn)
            if f is None:
                jc.prove(False, "%s is not provided" % c.fn)
            out, eff = spec(Sp(jc, it))
            it.call(f, [])
            compare_out(jc, it, list(it.out), out)
            for q in sorted(b.written | set(eff)):
                want = eff[q] if q in eff else before.get(q, z3.BitVec('m_%d' % q, 8))
                if want is None:
                    continue
                got = b.get(q)
                if isinstance(got, int) and isinstance(want, int):
                    cond = got == want
                else:
                    cond = z3.simplify(b8(got) == b8(want))
                what = "byte %d of memory %s" % (q, "(result)" if FP + 4 <= q < FP + 12 else
                                                 "(end pointer)" if OUT <= q < OUT + 4 else "(not an output)")
                if cond is not True and not (z3.is_expr(cond) and z3.is_true(cond)):
                    seen.append((cond, what))
            # one query for the whole result
            cs = [x for x, _ in seen]
            if cs:
                cs = [x if z3.is_expr(x) else z3.BoolVal(x) for x in cs]
                jc.prove(z3.And(*cs), "memory after the call differs at " + ', '.join(w for _, w in seen)[:200])
            if c.fn == 'log_stack_ptr':
                if len(it.files) != 1:
                    jc.prove(False, "%d log entries" % len(it.files))
                want = [Dec(from_unsigned('num', z3.Concat(*[b8(c.mem[11 - i]) for i in range(4)]))), 10]
                compare_out(jc, it, list(jsym.elems(it.files[0][1])), want)
            seen.clear()
            return 0
        it.wasm_main = main
        code = None
        try:
            it.module(os.path.join(REPO, "runtime/run.mjs"))
        except Exit as e:
            code = e.code
        except JSThrow as e:
            v = e.v.props.get('message') if isinstance(e.v, jsym.Obj) else e.v
            jc.prove(False, "the run-time library throws %s" % (v,))
        if c.fn is None:
            if not seen:
                jc.prove(False, "main is not called")
            got = it.number(code) if code is not None else 0
            jc.prove(z3.simplify(to_bv(got, 32) == seen[0]), "the exit status is not main's result")
        return True
    return run


def check_args(jc, it, b, a, args):
    jc.prove(len(a) >= 2 and a[0] == len(args), "argc")
    argv = it.concrete(a[1])
    load = lambda p, n: jslib.load(it, jsym.View('DataView', b), p, 'Uint32Array' if n == 4 else 'Uint8Array')
    sp1 = it.concrete(load(8, 4))
    spans = [(argv, argv + 4 * len(args))]
    for i, s in enumerate(args):
        p = it.concrete(load(argv + 4 * i, 4))
        want = jslib.encode(it, s, 'utf8') + [0]
        conds = []
        for j, e in enumerate(want):
            conds.append(code16(b.get(p + j)) == code16(e))
        jc.prove(z3.simplify(z3.And(*conds)), "string of argument %d" % i)
        spans.append((p, p + len(want)))
    spans.sort()
    for (x, y), (x2, _) in zip(spans, spans[1:]):
        jc.prove(y <= x2, "argument strings overlap")
    jc.prove(spans[0][0] >= SP0, "arguments overlap the globals")
    jc.prove(sp1 >= spans[-1][1], "the stack starts inside the arguments")
    for q in sorted(b.written):
        if q < SP0 and not 8 <= q < 12:
            jc.prove(z3.simplify(b8(b.get(q)) == (z3.BitVec('m_%d' % q, 8) if q > 11 else b8(le(SP0 - 40, 4)[q] if q < 4 else le(SP0 - 36, 4)[q - 4]))),
                     "byte %d below the stack is changed" % q)


# --- replay under node ---------------------------------------------------------------

def expected(build, pins):
    """the specification on concrete inputs: (call, output pattern, {addr: byte})"""
    V = Vars(pins)
    c, spec = build(V)
    for x in V.cons:
        if not z3.is_true(z3.simplify(x)):
            return None
    if spec is None:
        return c, None, None
    box = []

    def run(ctx):
        jc = JCtx(ctx)
        it = jsym.Interp(jc, {})
        out, eff = spec(Sp(jc, it))
        box.append((list(out), eff))
        return True
    Explorer(run, budget_s=20).run()
    if not box:
        return None
    out, eff = box[0]
    val = lambda e: e if e is None or isinstance(e, (int, str)) else z3.simplify(e.bv() if isinstance(e, Dig) else e).as_long()
    return c, [val(e) for e in out], {q: val(x) for q, x in eff.items()}


def node_run(build, pins, wd):
    """None when the real library does as specified, otherwise what it does"""
    x = expected(build, pins)
    if x is None:
        return None
    c, out, eff = x
    val = lambda b: b if isinstance(b, int) else z3.simplify(b).as_long()
    run = os.path.join(wd, "runtime")
    if not os.path.exists(run):
        shutil.copytree(os.path.join(REPO, "runtime"), run)
        os.makedirs(os.path.join(wd, "logs"), exist_ok=True)
    init = list(enumerate(le(SP0 - 40, 4) + le(SP0 - 36, 4) + le(SP0, 4)))
    args = list(c.args)
    if getattr(c, 'symargs', None) is not None:
        args += [''.join(chr(val(e)) for e in s) for s in c.symargs]
    wasm = os.path.join(wd, "prog.wasm")
    open(wasm, "wb").close()
    args[0] = wasm
    code = val(c.code) if c.fn is None else 7
    req = dict(fn=c.fn, init=init, mem=[[q, val(b)] for q, b in c.mem.items()] if c.fn else [], args=args, code=code)
    rp, sp = os.path.join(wd, "request.json"), os.path.join(wd, "result.json")
    json.dump(req, open(rp, "w"))
    if os.path.exists(sp):
        os.remove(sp)
    p = subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "jsreplay.mjs"),
                        os.path.join(run, "run.mjs"), rp, sp], capture_output=True, timeout=60)
    if not os.path.exists(sp):
        return "the run-time library does not run the program: %s" % p.stderr.decode('utf8', 'replace')[-300:]
    r = json.load(open(sp))
    if r.get("threw"):
        return "throws " + r["threw"]
    if p.returncode != code:
        return "exit status %d, not main's result %d" % (p.returncode, code)
    m = r["after"]
    if c.fn is None:
        if r["argc"] != len(args):
            return "argc %s" % r["argc"]
        rd = lambda a: sum(m[a + i] << (8 * i) for i in range(4))
        spans = [(r["argv"], r["argv"] + 4 * len(args))]
        for i, s in enumerate(args):
            q = rd(r["argv"] + 4 * i)
            w = list(s.encode('utf8')) + [0]
            if m[q:q + len(w)] != w:
                return "argv[%d] holds %r, not %r" % (i, m[q:q + len(w)], w)
            spans.append((q, q + len(w)))
        spans.sort()
        for (x, y), (x2, _) in zip(spans, spans[1:]):
            if y > x2:
                return "argument strings overlap"
        if spans[0][0] < SP0 or rd(8) < spans[-1][1]:
            return "arguments outside the stack"
        return None
    if c.fn == 'log_stack_ptr':
        logs = [f for f in os.listdir(os.path.join(wd, "logs"))]
        data = ''.join(open(os.path.join(wd, "logs", f)).read() for f in logs)
        for f in logs:
            os.remove(os.path.join(wd, "logs", f))
        w = "%d\n" % sum(val(c.mem[8 + i]) << (8 * i) for i in range(4))
        if data != w:
            return "log %r, not %r" % (data, w)
    for q in range(len(m)):
        w = eff.get(q, r["before"][q])
        if w is not None and m[q] != w:
            return "byte %d of memory is %d, not %d" % (q, m[q], w)
    got = list(p.stdout)
    if 'nan' in out:
        import re
        pat = ''.join('-?nan' if isinstance(e, str) else re.escape(chr(e)) for e in out)
        return None if re.fullmatch(pat, bytes(got).decode('latin1'), re.S) else "prints %r" % bytes(got)
    if got != out:
        return "prints %r, not %r" % (bytes(got), bytes(out))
    return None


def describe(build, pins):
    V = Vars(pins)
    c, _ = build(V)
    val = lambda b: b if isinstance(b, int) else z3.simplify(b).as_long()
    if c.fn is None:
        return "arguments %r" % [''.join(chr(val(e)) for e in s) for s in c.symargs]
    txt = lambda a: bytes(val(c.mem[q]) for q in range(a, a + 90) if q in c.mem)
    return "%s: string %r, second string %r, parameters %s" % (
        c.fn, txt(STR), txt(STR2), ' '.join('%02x' % val(c.mem[q]) for q in range(FP + 4, FP + 60) if q in c.mem))


# --- running a family ------------------------------------------------------------------

INTERESTING = [0, 1, 9, 10, 32, 37, 43, 45, 48, 49, 55, 56, 57, 65, 70, 71, 90, 97, 100, 102, 103, 120, 122, 127, 128, 160, 255]


def samples(build, n, rnd):
    V = Vars()
    build(V)
    for k in range(n):
        mode = k % 3
        yield {name: (rnd.choice(INTERESTING) if w <= 8 or w == 16 else rnd.getrandbits(w)) if mode == 0 else
               (rnd.choice(b'0123456789') if mode == 1 and w == 8 else rnd.getrandbits(w)) & ((1 << w) - 1)
               for name, w in V.made.items()}


def job(a):
    name, asts_path, spec, opts = a
    build = FAMILY[spec[0]](*spec[1:])
    res = dict(name=name, status='ok', paths=0, obligations=0, queries=0, solver_s=0.0, bounded=0, pruned=0, detail='',
               inconclusive=[], trivial=0)
    for k in STATS:
        STATS[k] = 0
    asts = ASTS.get(asts_path)
    if asts is None:
        asts = ASTS[asts_path] = json.load(open(asts_path))
    wd = tempfile.mkdtemp(prefix="vp_js_")
    try:
        nm = set()
        t0 = time.time()
        while True:
            ex = Explorer(path_fn(asts, build), max_paths=opts.get('max_paths', 6000), timeout_ms=opts.get('timeout_ms', 20000),
                          budget_s=max(1, opts.get('budget_s', 100) - (time.time() - t0)))
            ex.js_nomerge = nm
            try:
                ex.run()
            except Restart:
                continue
            break
        res.update(paths=ex.paths, obligations=ex.obligations, trivial=ex.trivial, bounded=ex.bounded + (1 if ex.truncated else 0),
                   pruned=ex.pruned, inconclusive=ex.inconclusive[:3])
        for m, ctx in ex.mismatches:
            V = Vars()
            build(V)
            pins = {n: m.model.eval(z3.BitVec(n, w), model_completion=True).as_long() for n, w in V.made.items()}
            r = node_run(build, pins, wd)
            res['detail'] = "%s; %s" % (m, describe(build, pins))
            if r:
                res['status'] = 'violation'
                res['detail'] = "%s: %s (%s)" % (describe(build, pins), r, m)
            else:
                res['status'] = 'unconfirmed'
            res['pins'] = pins
    except (Unsupported, jsym.NoMerge, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, z3.Z3Exception) as e:
        res['status'] = 'unsupported'
        res['detail'] = "%s: %s" % (type(e).__name__, e)
    except jsym.JSThrow as e:
        res['status'] = 'unsupported'
        res['detail'] = "throws %s" % (e.v,)
    if res['status'] in ('unsupported', 'unconfirmed') or res['inconclusive'] or (res['status'] == 'ok' and not ex.paths):
        # no verdict: does a plain run of the real library show a difference?
        rnd = random.Random(7)
        for pins in samples(build, 25, rnd):
            try:
                r = node_run(build, pins, wd)
            except Exception as e:
                continue
            if r:
                res['status'] = 'violation'
                res['pins'] = pins
                res['detail'] = "%s: %s (found on a sample; the symbolic run gave no verdict: %s)" % (
                    describe(build, pins), r, res['detail'])
                break
    res['queries'], res['solver_s'] = STATS['queries'], STATS['solver_s']
    res['wall'] = time.time() - t0
    shutil.rmtree(wd, ignore_errors=True)
    return res


ASTS = {}
FAMILY = {'strtol': fam_strtol, 'strlen': fam_strlen, 'strstr': fam_strstr, 'printf': fam_printf, 'args': fam_args,
          'profile': fam_profile}


def b(s):
    return tuple(None if x == '?' else ord(x) for x in s)


CONV = ['%d', '%i', '%u', '%hd', '%hi', '%hu', '%ld', '%li', '%lu', '%c', '%s', '%f', '%%']


def families(th):
    """[(name, spec, opts)]"""
    out = []
    add = lambda n, s, **o: out.append((n, s, o))
    D, A = ((48, 57),), ((48, 57), (97, 122), (65, 90))
    for fn in ('strtol', 'strtoul'):
        for n in range(0, 5 if th else 4):
            add('%s.any%d' % (fn, n), ('strtol', fn, n, None), max_paths=20000, budget_s=800 if th else 150)
        for base in (0, 10, 16, 8, 2, 36):
            add('%s.b%d.any' % (fn, base), ('strtol', fn, 5 if th else 4, base), max_paths=20000, budget_s=800 if th else 150)
        for pre in ('', '-', ' +', '\t-0'):
            add('%s.dec%d' % (fn, len(out)), ('strtol', fn, 21, 10, pre, D))
        for pre in ('0x', '-0X'):
            add('%s.hex%d' % (fn, len(out)), ('strtol', fn, 17, 16, pre, ((48, 57), (97, 102), (65, 70))))
            add('%s.hex%d' % (fn, len(out)), ('strtol', fn, 17, 0, pre, ((48, 57), (97, 102), (65, 70))))
        add('%s.oct' % fn, ('strtol', fn, 23, 0, '0', ((48, 55),)))
        add('%s.bin' % fn, ('strtol', fn, 66, 2, '', ((48, 49),)))
        add('%s.b36' % fn, ('strtol', fn, 13, 36, '-', A, True, True))
        add('%s.b29' % fn, ('strtol', fn, 14, 29, '', ((48, 57), (97, 115), (65, 83)), True, True))
        add('%s.tail' % fn, ('strtol', fn, 3, 10, '1234567890123456789', None))
        add('%s.noend' % fn, ('strtol', fn, 2, 10, '-1', None, False))
    add('strlen', ('strlen', 60 if th else 24))
    for n, m in ((0, 0), (0, 2), (3, 0), (6, 1), (6, 2), (7, 3), (2, 4)):
        add('strstr.%d.%d' % (n, m), ('strstr', n, m))
    add('strstr.ab', ('strstr', 12 if th else 9, 4, (97, 98)))
    for x in CONV:
        add('printf.1.%s' % x[1:], ('printf', b('<' + x + '>')))
        for y in CONV:
            add('printf.2.%s.%s' % (x[1:], y[1:]), ('printf', b(x + y)))
    add('printf.mix', ('printf', b('%c%d %s:%lu%%%hd,%u')))
    add('printf.mix2', ('printf', b('%s%s%ld%s')))
    for n in ((1, 2, 3, 4) if th else (1, 2, 3)):
        add('printf.any%d' % n, ('printf', (None,) * n), max_paths=4000, budget_s=800 if th else 150)
    add('printf.any.d', ('printf', (None,) + b('%d') + (None, None)), max_paths=4000)
    ex = range(0, 2048) if th else sorted(set([0, 1, 2, 500, 900, 970, 990, 1000, 1001, 1002, 1003, 1004, 1010, 1020, 1021,
                                               1022, 1023, 1024, 1026, 1030, 1040, 1043, 1050, 1060, 1070, 1074, 1075, 1076,
                                               1078, 1085, 1100, 1150, 1300, 2046, 2047]))
    for e in ex:
        add('printf.f%d' % e, ('printf', b('%f'), (e,)))
    return out


def arg_families(th):
    out = [('args.%s' % '_'.join(map(str, l)), ('args', l), {}) for l in ((), (1,), (0,), (2, 3), (5, 0, 1), (3, 3, 3, 3))]
    out.append(('args.wide', ('args', (2, 1), True), {}))
    return out


def stage(rep, fams, budget=500, workers=8):
    fs = files()
    d = os.path.join(BUILD, "js")
    os.makedirs(d, exist_ok=True)
    fd, ap = tempfile.mkstemp(prefix="asts_", suffix=".json", dir=d)
    os.close(fd)
    try:
        asts = jsym.parse(REPO, fs)
    except RuntimeError as e:
        rep.errors.append(str(e))
        return
    json.dump(asts, open(ap, "w"))
    rep.cov["functions_encoded_js"] = "every function of " + ', '.join(fs) + " that a run of the families reaches"
    jobs = [(n, ap, s, o) for n, s, o in fams]
    jobs.sort(key=lambda j: -j[3].get('budget_s', 0))
    for j, kind, r in jobrun.run(job, jobs, workers, budget, limit=lambda j: 2 * j[3].get('budget_s', 150) + 30,
                                 stop=lambda: len(rep.violations) >= 12):
        if kind == 'ok':
            take(rep, j, r)
        elif kind == 'exc':
            rep.errors.append("%s: %s" % (j[0], r))
        else:
            rep.undecided.append("%s: %s" % (j[0], r))
    os.remove(ap)


def take(rep, j, r):
    rep.add("calls", 1)
    rep.add("paths", r["paths"])
    rep.add("disagreements_checked", r["obligations"] + r["trivial"])
    rep.add("solver_queries", r["queries"])
    rep.add("solver_s", r["solver_s"])
    rep.add("paths_cut_by_bounds", r["bounded"])
    rep.add("paths_undefined_in_c", r["pruned"])
    if r["inconclusive"] and r["status"] == 'ok':
        rep.undecided.append("%s: %s" % (j[0], r["inconclusive"][:1]))
    if r["status"] == 'violation':
        rep.violation(j[0], r["detail"], [], "inputs %s\nnode engine/jsreplay.mjs, see engine/jsstage.py node_run\n" % json.dumps(r.get("pins")))
    elif r["status"] == 'unsupported':
        rep.undecided.append("%s: the library uses something the symbolic executor lacks: %s" % (j[0], r["detail"]))
        rep.add("families_unsupported", 1)
    elif r["status"] == 'unconfirmed':
        rep.errors.append("%s: counterexample does not reproduce: %s" % (j[0], r["detail"]))
    elif len(rep.samples) < 6 and r["paths"] > 2:
        rep.samples.append({"call": j[0], "paths": r["paths"], "obligations": r["obligations"]})


if __name__ == '__main__':
    import sys
    import re
    asts = jsym.parse(REPO, files())
    json.dump(asts, open("/tmp/asts.json", "w"))
    for n, s, o in families('-t' in sys.argv) + arg_families(False) + [('profile', ('profile',), {})]:
        if len(sys.argv) > 1 and not re.search(sys.argv[1], n):
            continue
        r = job((n, "/tmp/asts.json", s, o))
        print(n, r['status'], r['paths'], 'obl', r['obligations'], r['trivial'], 'q', r['queries'], '%.1f' % r['solver_s'], '%.1fs' % r['wall'], 'bnd', r['bounded'], r['inconclusive'][:1], r['detail'][:300], flush=True)
