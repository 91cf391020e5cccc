"""Reference semantics: symbolic execution of clang -O0 LLVM IR of the same C
program (x86-64 data model: int 32, long 64; char signed).  Undefined
behaviour (signed overflow, bad shifts, division by zero, out-of-bounds or
uninitialised reads) prunes the path: the property says nothing there."""
import re
import z3
from sym import *

TOK = re.compile(r'''c"(?:[^"])*"|"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|%[-\w.$]+|@[-\w.$]+|![\w.]*|-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|\#\d+|[()\[\]{}<>,=*:|]''')
ATTRS = {'noundef', 'signext', 'zeroext', 'dso_local', 'private', 'unnamed_addr', 'local_unnamed_addr', 'internal',
         'nocapture', 'readonly', 'writeonly', 'noalias', 'immarg', 'nonnull', 'inreg', 'returned', 'nofree',
         'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'inbounds', 'nneg', 'disjoint', 'volatile', 'hidden', 'weak', 'common',
         'constant', 'global', 'noreturn'}


class Unsupported(Inconclusive):
    pass


class Obj:
    __slots__ = ("name", "size", "mem", "alive", "ro")

    def __init__(self, name, size, default=None, ro=False):
        self.name = name
        self.size = size
        self.mem = Mem(default)
        self.alive = True
        self.ro = ro


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off


NULL = Ptr(None, 0)


class TS:
    def __init__(self, line):
        self.t = TOK.findall(line)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise Unsupported("expected %s got %s in %s" % (x, v, self.t))

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in ATTRS:
                self.i += 1
            elif p == 'align':
                self.i += 2
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'memory'):
                self.i += 1
                if self.eat('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += x == '('
                        d -= x == ')'
            else:
                return


class Prog:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                ts = TS(rest)
                self.structs[name] = None if ts.peek() == 'opaque' else self.type(ts)
            elif ln.startswith('@'):
                self.global_line(ln)
            elif ln.startswith('declare'):
                ts = TS(ln)
                ts.next()
                ts.skip_attrs()
                rt = self.type(ts)
                self.decls[ts.next()] = rt
            elif ln.startswith('define'):
                body = []
                j = i + 1
                while lines[j] != '}':
                    body.append(lines[j])
                    j += 1
                self.define(ln, body)
                i = j
            i += 1

    # types: ('i',n) ('f',n) 'ptr' ('a',n,t) ('s',[t],packed) ('void',)
    def type(self, ts):
        t = ts.next()
        if t == 'ptr':
            return ('ptr',)
        if t == 'void':
            return ('void',)
        if t == 'float':
            return ('f', 32)
        if t == 'double':
            return ('f', 64)
        if re.fullmatch(r'i\d+', t):
            return ('i', int(t[1:]))
        if t == '[':
            n = int(ts.next())
            ts.expect('x')
            e = self.type(ts)
            ts.expect(']')
            return ('a', n, e)
        if t == '{':
            return self.struct_body(ts, False)
        if t == '<':
            if ts.peek() == '{':
                ts.next()
                r = self.struct_body(ts, True)
                ts.expect('>')
                return r
        if t.startswith('%'):
            return ('n', t)
        raise Unsupported("type " + t)

    def struct_body(self, ts, packed):
        fs = []
        if not ts.eat('}'):
            while True:
                fs.append(self.type(ts))
                if ts.eat('}'):
                    break
                ts.expect(',')
        return ('s', fs, packed)

    def res(self, t):
        while t[0] == 'n':
            t = self.structs[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        if t[0] == 'i':
            return max(1, min(16, (t[1] + 7) // 8))
        if t[0] == 'f':
            return t[1] // 8
        if t[0] == 'ptr':
            return 8
        if t[0] == 'a':
            return self.align(t[2])
        if t[0] == 's':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])

    def size(self, t):
        t = self.res(t)
        if t[0] == 'i':
            return (t[1] + 7) // 8
        if t[0] == 'f':
            return t[1] // 8
        if t[0] == 'ptr':
            return 8
        if t[0] == 'a':
            return t[1] * self.size(t[2])
        if t[0] == 's':
            o = 0
            for x in t[1]:
                a = 1 if t[2] else self.align(x)
                o = (o + a - 1) // a * a + self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a

    def field(self, t, i):
        o = 0
        for k, x in enumerate(t[1]):
            a = 1 if t[2] else self.align(x)
            o = (o + a - 1) // a * a
            if k == i:
                return o
            o += self.size(x)

    def global_line(self, ln):
        ts = TS(ln)
        name = ts.next()
        ts.expect('=')
        ro = ' constant ' in ln.split('"')[0]
        if 'external' in ts.t[:6]:
            while ts.peek() != 'external':
                ts.next()
            ts.next()
            ts.skip_attrs()
            self.globals[name] = (self.type(ts), None, False)
            return
        ts.skip_attrs()
        t = self.type(ts)
        init = self.const(ts, t)
        self.globals[name] = (t, init, ro)

    def const(self, ts, t):
        p = ts.peek()
        if p == 'zeroinitializer':
            ts.next()
            return ('zero',)
        if p in ('undef', 'poison'):
            ts.next()
            return ('undef',)
        if p == 'null':
            ts.next()
            return ('null',)
        if p in ('true', 'false'):
            ts.next()
            return ('int', int(p == 'true'))
        if p.startswith('c"'):
            s = ts.next()[2:-1]
            out = bytearray()
            i = 0
            while i < len(s):
                if s[i:i + 2] == '\\\\':
                    out.append(92)
                    i += 2
                elif s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return ('bytes', bytes(out))
        if p in ('[', '{', '<') and t[0] in ('a', 's', 'n'):
            ts.next()
            if p == '<':
                ts.expect('{')
            close = {'[': ']', '{': '}', '<': '}'}[p]
            vs = []
            if not ts.eat(close):
                while True:
                    et = self.type(ts)
                    vs.append((et, self.const(ts, et)))
                    if ts.eat(close):
                        break
                    ts.expect(',')
            if p == '<':
                ts.expect('>')
            return ('agg', vs)
        if p.startswith('@'):
            return ('glob', ts.next())
        if p.startswith('%'):
            return ('reg', ts.next())
        if p == 'getelementptr':
            ts.next()
            ts.eat('inbounds')
            ts.expect('(')
            bt = self.type(ts)
            ts.expect(',')
            self.type(ts)
            base = self.const(ts, ('ptr',))
            idx = []
            while ts.eat(','):
                it = self.type(ts)
                idx.append((it, self.const(ts, it)))
            ts.expect(')')
            return ('gep', bt, base, idx)
        if t[0] == 'f':
            v = ts.next()
            if v.startswith('0x'):
                d = z3.fpBVToFP(z3.BitVecVal(int(v[2:], 16), 64), F64)
            else:
                d = z3.FPVal(float(v), F64)
            if t[1] == 32:
                d = z3.fpFPToFP(RNE, d, F32)
            return ('fp', z3.simplify(d))
        if t[0] == 'i':
            return ('int', int(ts.next()) & mask(t[1]))
        raise Unsupported("const %s" % ts.t[ts.i:])

    def define(self, head, body):
        ts = TS(head)
        ts.expect('define')
        ts.skip_attrs()
        rt = self.type(ts)
        name = ts.next()
        ts.expect('(')
        params = []
        va = False
        if not ts.eat(')'):
            while True:
                if ts.eat('...'):
                    va = True
                    ts.expect(')')
                    break
                t = self.type(ts)
                ts.skip_attrs()
                params.append((t, ts.next()))
                if ts.eat(')'):
                    break
                ts.expect(',')
        blocks = {}
        # name of the entry block
        cur = '%' + str(len(params)) if not params or re.fullmatch(r'%\d+', params[-1][1]) else '%entry'
        first = cur
        blocks[cur] = []
        buf = None
        for ln in body:
            m = re.match(r'^([-\w.$]+):', ln)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []
                continue
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'):
                    blocks[cur].append(self.instr(buf))
                    buf = None
                continue
            if s.startswith('switch') and s.endswith('['):
                buf = s
                continue
            blocks[cur].append(self.instr(s))
        self.funcs[name] = (rt, params, blocks, first, va)

    def val(self, ts, t):
        return self.const(ts, t)

    def tval(self, ts):
        t = self.type(ts)
        ts.skip_attrs()
        return (t, self.val(ts, t))

    def instr(self, s):
        s = re.split(r', ![a-z]|, align \d+', s)[0] if not s.startswith('switch') else s
        ts = TS(s)
        dest = None
        if ts.peek(1) == '=':
            dest = ts.next()
            ts.next()
        while ts.peek() in ('tail', 'musttail', 'notail'):
            ts.next()
        op = ts.next()
        if op == 'alloca':
            t = self.type(ts)
            n = None
            if ts.eat(','):
                n = self.tval(ts)
            return (op, dest, t, n)
        if op == 'load':
            ts.skip_attrs()
            t = self.type(ts)
            ts.expect(',')
            return (op, dest, t, self.tval(ts))
        if op == 'store':
            ts.skip_attrs()
            v = self.tval(ts)
            ts.expect(',')
            return (op, None, v, self.tval(ts))
        if op == 'getelementptr':
            ts.skip_attrs()
            bt = self.type(ts)
            ts.expect(',')
            base = self.tval(ts)
            idx = []
            while ts.eat(','):
                idx.append(self.tval(ts))
            return (op, dest, bt, base, idx)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while ts.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'arcp', 'reassoc', 'afn'):
                fl.add(ts.next())
            t = self.type(ts)
            a = self.val(ts, t)
            ts.expect(',')
            b = self.val(ts, t)
            return ('bin', dest, op, t, a, b, fl)
        if op == 'fneg':
            return (op, dest, self.tval(ts))
        if op in ('icmp', 'fcmp'):
            pred = ts.next()
            t = self.type(ts)
            a = self.val(ts, t)
            ts.expect(',')
            b = self.val(ts, t)
            return (op, dest, pred, t, a, b)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint',
                  'inttoptr', 'bitcast', 'freeze'):
            ts.skip_attrs()
            a = self.tval(ts)
            if op == 'freeze':
                return ('cast', dest, op, a, a[0])
            ts.expect('to')
            return ('cast', dest, op, a, self.type(ts))
        if op == 'br':
            if ts.eat('label'):
                return ('br', None, ts.next())
            c = self.tval(ts)
            ts.expect(',')
            ts.expect('label')
            a = ts.next()
            ts.expect(',')
            ts.expect('label')
            return ('cbr', None, c, a, ts.next())
        if op == 'switch':
            v = self.tval(ts)
            ts.expect(',')
            ts.expect('label')
            d = ts.next()
            ts.expect('[')
            cs = []
            while not ts.eat(']'):
                c = self.tval(ts)
                ts.expect(',')
                ts.expect('label')
                cs.append((c[1][1], ts.next()))
            return (op, None, v, d, cs)
        if op == 'ret':
            if ts.eat('void'):
                return ('ret', None, None)
            return ('ret', None, self.tval(ts))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'phi':
            t = self.type(ts)
            inc = []
            while True:
                ts.expect('[')
                v = self.val(ts, t)
                ts.expect(',')
                inc.append((v, ts.next()))
                ts.expect(']')
                if not ts.eat(','):
                    break
            return ('phi', dest, t, inc)
        if op == 'select':
            c = self.tval(ts)
            ts.expect(',')
            a = self.tval(ts)
            ts.expect(',')
            return ('select', dest, c, a, self.tval(ts))
        if op == 'call':
            ts.skip_attrs()
            rt = self.type(ts)
            if ts.peek() == '(':
                d = 0
                while True:
                    x = ts.next()
                    d += x == '('
                    d -= x == ')'
                    if d == 0:
                        break
            name = ts.next()
            ts.expect('(')
            args = []
            if not ts.eat(')'):
                while True:
                    args.append(self.tval(ts))
                    if ts.eat(')'):
                        break
                    ts.expect(',')
            return ('call', dest, rt, name, args)
        if op in ('extractvalue', 'insertvalue', 'va_arg'):
            return ('unsupported', dest, op)
        raise Unsupported("instr " + s)


class Interp:
    def __init__(self, ctx, prog, host, max_steps=30000, max_depth=60):
        self.ctx = ctx
        self.p = prog
        self.host = host
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.max_depth = max_depth
        self.globs = {}
        for n, (t, init, ro) in prog.globals.items():
            self.globs[n] = Obj(n, prog.size(t), 0, ro)
        for n, (t, init, ro) in prog.globals.items():
            if init is not None:
                self.init(self.globs[n], 0, t, init)

    def init(self, obj, off, t, c):
        p = self.p
        t = p.res(t)
        if c[0] in ('zero', 'undef'):
            for i in range(p.size(t)):
                obj.mem.d[off + i] = 0
        elif c[0] == 'bytes':
            for i, b in enumerate(c[1]):
                obj.mem.d[off + i] = b
        elif c[0] == 'agg':
            if t[0] == 'a':
                es = p.size(t[2])
                for i, (et, v) in enumerate(c[1]):
                    self.init(obj, off + i * es, et, v)
            else:
                for i, (et, v) in enumerate(c[1]):
                    self.init(obj, off + p.field(t, i), et, v)
        else:
            self.put(obj, off, t, self.const(c, None))

    def const(self, c, regs):
        k = c[0]
        if k == 'int':
            return c[1]
        if k == 'reg':
            return regs[c[1]]
        if k == 'fp':
            return c[1]
        if k == 'glob':
            if c[1] in self.globs:
                return Ptr(self.globs[c[1]], 0)
            raise Unsupported("function pointer")
        if k == 'null':
            return NULL
        if k == 'gep':
            return self.gep(c[1], self.const(c[2], regs), [(t, self.const(v, regs)) for t, v in c[3]])
        if k in ('undef',):
            raise Prune("undef")
        raise Unsupported(str(c))

    def gep(self, bt, base, idx):
        off = base.off
        t = bt
        first = True
        for it, v in idx:
            if first:
                s = self.p.size(t)
                first = False
            else:
                t = self.p.res(t)
                if t[0] == 's':
                    off = add(off, self.p.field(t, v), 64)
                    t = t[1][v]
                    continue
                t = t[2]
                s = self.p.size(t)
            w = it[1]
            v = sext(v, w, 64)
            off = add(off, mul(v, s, 64), 64)
        return Ptr(base.obj, off)

    def locate(self, ptr, n):
        """concretise and bounds-check an access"""
        if not isinstance(ptr, Ptr):
            raise Unsupported("integer used as pointer")
        if ptr.obj is None or not ptr.obj.alive:
            raise Prune("null/dead access")
        off = ptr.off
        lim = ptr.obj.size - n
        if lim < 0:
            raise Prune("oob")
        if not isinstance(off, int):
            self.ctx.assume(z3.ULE(off, z3.BitVecVal(lim, 64)))
            off = self.ctx.concretise(off, 64, limit=96)
        if off > lim:
            raise Prune("oob")
        return ptr.obj, off

    def put(self, obj, off, t, v):
        n = self.p.size(t)
        if isinstance(v, Ptr):
            if v.obj is None and v.off == 0:
                v = 0
            for i in range(n):
                obj.mem.d[off + i] = (v, i, n) if v != 0 else 0
            return
        if z3.is_fp(v) and z3.is_fp_value(v) and not z3.is_true(z3.simplify(z3.fpIsNaN(v))):
            v = fpbits(v)
        if t[0] == 'i' and t[1] % 8:
            v = zext(v, t[1], n * 8)
        obj.mem.store(off, v, n)

    def get(self, obj, off, t):
        n = self.p.size(t)
        m = obj.mem
        if t[0] == 'ptr':
            c = m.d.get(off, m.default)
            if isinstance(c, tuple):
                if isinstance(c[0], Ptr) and c[1] == 0:
                    return c[0]
                raise Unsupported("pointer from bytes")
            if c is None:
                raise Prune("uninit")
            v = m.load_int(off, n)
            if v == 0:
                return NULL
            raise Unsupported("pointer from int")
        for i in range(n):
            c = m.d.get(off + i, m.default)
            if c is None:
                raise Prune("uninit")
            if isinstance(c, tuple) and isinstance(c[0], Ptr):
                raise Unsupported("bytes from pointer")
        if t[0] == 'f':
            return m.load_fp(off, n)
        v = m.load_int(off, n)
        if t[1] % 8:
            v = extract(v, t[1] - 1, 0)
        return v

    def call(self, name, args):
        if name not in self.p.funcs:
            return self.host(self, name[1:], args)
        rt, params, blocks, first, va = self.p.funcs[name]
        self.depth += 1
        if self.depth > self.max_depth:
            raise Bound("reference call depth")
        regs = {pn: a for (pt, pn), a in zip(params, args)}
        r = self.body(blocks, first, regs)
        self.depth -= 1
        return r

    def body(self, blocks, cur, regs):
        prev = None
        allocas = []
        ctx = self.ctx
        while True:
            jumped = False
            phis = []
            for ins in blocks[cur]:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Bound("reference steps")
                o = ins[0]
                d = ins[1]
                if o == 'phi':
                    for v, b in ins[3]:
                        if b == prev:
                            regs[d] = self.const(v, regs)
                            break
                    else:
                        raise Unsupported("phi")
                elif o == 'alloca':
                    n = self.p.size(ins[2])
                    if ins[3] is not None:
                        k = self.const(ins[3][1], regs)
                        n *= ctx.concretise(k, 64)
                    ob = Obj(d, n)
                    allocas.append(ob)
                    regs[d] = Ptr(ob, 0)
                elif o == 'load':
                    t = self.p.res(ins[2])
                    ob, off = self.locate(self.const(ins[3][1], regs), self.p.size(t))
                    regs[d] = self.get(ob, off, t)
                elif o == 'store':
                    t = self.p.res(ins[2][0])
                    v = self.const(ins[2][1], regs)
                    ob, off = self.locate(self.const(ins[3][1], regs), self.p.size(t))
                    if ob.ro:
                        raise Prune("store to constant")
                    self.put(ob, off, t, v)
                elif o == 'getelementptr':
                    regs[d] = self.gep(ins[2], self.const(ins[3][1], regs),
                                       [(t, self.const(v, regs)) for t, v in ins[4]])
                elif o == 'bin':
                    regs[d] = self.bin(ins[2], ins[3], self.const(ins[4], regs), self.const(ins[5], regs), ins[6])
                elif o == 'fneg':
                    regs[d] = fsimp(z3.fpNeg(self.const(ins[2][1], regs)))
                elif o == 'icmp':
                    regs[d] = self.icmp(ins[2], ins[3], self.const(ins[4], regs), self.const(ins[5], regs))
                elif o == 'fcmp':
                    regs[d] = ite01(self.fcmp(ins[2], self.const(ins[4], regs), self.const(ins[5], regs)), 1)
                elif o == 'cast':
                    regs[d] = self.cast(ins[2], ins[3][0], self.const(ins[3][1], regs), ins[4])
                elif o == 'select':
                    c = truth(self.const(ins[2][1], regs), 1)
                    a, b = self.const(ins[3][1], regs), self.const(ins[4][1], regs)
                    regs[d] = a if ctx.branch(c) else b
                elif o == 'call':
                    r = self.docall(ins, regs)
                    if d:
                        regs[d] = r
                elif o == 'br':
                    prev, cur = cur, ins[2]
                    jumped = True
                    break
                elif o == 'cbr':
                    c = ctx.branch(truth(self.const(ins[2][1], regs), 1))
                    prev, cur = cur, ins[3] if c else ins[4]
                    jumped = True
                    break
                elif o == 'switch':
                    v = self.const(ins[2][1], regs)
                    w = ins[2][0][1]
                    tgt = ins[3]
                    for c, l in ins[4]:
                        if ctx.branch(eq(v, c, w)):
                            tgt = l
                            break
                    prev, cur = cur, tgt
                    jumped = True
                    break
                elif o == 'ret':
                    r = None if ins[2] is None else self.const(ins[2][1], regs)
                    for ob in allocas:
                        ob.alive = False
                    return r
                elif o == 'unreachable':
                    raise Prune("unreachable")
                else:
                    raise Unsupported(str(ins))
            if not jumped:
                raise Unsupported("fell off block")

    def docall(self, ins, regs):
        name = ins[3]
        args = [self.const(v, regs) for t, v in ins[4]]
        if name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'):
            n = self.ctx.concretise(args[2], 64)
            if n == 0:
                return None
            do, doff = self.locate(args[0], n)
            so, soff = self.locate(args[1], n)
            cells = [so.mem.d.get(soff + i, so.mem.default) for i in range(n)]
            for i, c in enumerate(cells):
                if c is None:
                    do.mem.d.pop(doff + i, None)
                else:
                    do.mem.d[doff + i] = c
            return None
        if name.startswith('@llvm.memset'):
            n = self.ctx.concretise(args[2], 64)
            if n == 0:
                return None
            do, doff = self.locate(args[0], n)
            for i in range(n):
                do.mem.store(doff + i, args[1], 1)
            return None
        if name.startswith('@llvm.'):
            if name.startswith('@llvm.stacksave'):
                return NULL
            if name.startswith('@llvm.stackrestore') or name.startswith('@llvm.lifetime'):
                return None
            if name.startswith('@llvm.fmuladd'):
                return fsimp(z3.fpAdd(RNE, z3.fpMul(RNE, args[0], args[1]), args[2]))
            raise Unsupported(name)
        types = [t for t, v in ins[4]]
        if name in self.p.funcs:
            return self.call(name, args)
        return self.host(self, name[1:], args, types, ins[2])

    def bin(self, op, t, a, b, fl):
        ctx = self.ctx
        if op[0] == 'f':
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            if f is None:
                raise Unsupported(op)
            return fsimp(f(RNE, a, b))
        w = t[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("pointer arithmetic on ints")
        if isinstance(a, tuple) or isinstance(b, tuple):
            # ptrtoint results: (Ptr)
            if op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple):
                if a[1].obj is not b[1].obj:
                    raise Prune("unrelated pointers")
                return sub(a[1].off, b[1].off, 64)
            raise Unsupported("pointer int arithmetic")
        if op in ('add', 'sub', 'mul'):
            r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b, w)
            if 'nsw' in fl:
                if is_int(a) and is_int(b):
                    x, y = sgn(a, w), sgn(b, w)
                    full = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                    if full != sgn(full, w):
                        raise Prune("signed overflow")
                else:
                    za, zb = bv(a, w), bv(b, w)
                    if op == 'add':
                        c = z3.And(z3.BVAddNoOverflow(za, zb, True), z3.BVAddNoUnderflow(za, zb))
                    elif op == 'sub':
                        c = z3.And(z3.BVSubNoOverflow(za, zb), z3.BVSubNoUnderflow(za, zb, True))
                    else:
                        c = z3.And(z3.BVMulNoOverflow(za, zb, True), z3.BVMulNoUnderflow(za, zb))
                    ctx.ex_ub(c)
            return r
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            z = eq(b, 0, w)
            ctx.ex_ub(neg(z))
            if op[0] == 's':
                if is_int(a) and is_int(b):
                    if sgn(a, w) == -(1 << (w - 1)) and sgn(b, w) == -1:
                        raise Prune("div overflow")
                elif (is_int(b) and b != mask(w)) or (is_int(a) and a != 1 << (w - 1)):
                    pass
                else:
                    ctx.ex_ub(z3.Not(z3.And(bv(a, w) == z3.BitVecVal(1 << (w - 1), w), bv(b, w) == z3.BitVecVal(mask(w), w))))
            return {'sdiv': sdiv, 'udiv': udiv, 'srem': srem, 'urem': urem}[op](a, b, w)
        if op in ('and', 'or', 'xor'):
            return {'and': band, 'or': bor, 'xor': bxor}[op](a, b, w)
        if is_int(b):
            if b >= w:
                raise Prune("shift amount")
        else:
            ctx.ex_ub(z3.ULT(b, z3.BitVecVal(w, w)))
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, b, w)

    def icmp(self, pred, t, a, b):
        if t[0] == 'ptr':
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Unsupported("ptr cmp")
            if a.obj is not b.obj:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                raise Prune("unrelated pointer order")
            x, y, w = a.off, b.off, 64
            if pred[0] == 'u':
                pred = 's' + pred[1:]
        else:
            x, y, w = a, b, t[1]
            if isinstance(x, tuple) or isinstance(y, tuple):
                raise Unsupported("ptr int cmp")
        if pred == 'eq':
            return ite01(eq(x, y, w), 1)
        if pred == 'ne':
            return ite01(neg(eq(x, y, w)), 1)
        return ite01(cmp(pred, x, y, w), 1)

    def fcmp(self, pred, a, b):
        o = pred[0] == 'o'
        p = pred[1:]
        if pred == 'une':
            c = z3.fpNEQ(a, b)
        elif pred in ('oeq', 'ogt', 'oge', 'olt', 'ole'):
            c = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}[p](a, b)
        else:
            raise Unsupported("fcmp " + pred)
        return z3.simplify(c) if z3.is_fp_value(a) and z3.is_fp_value(b) else c

    def cast(self, op, t, v, to):
        from wasm import in_range, fp_to_int
        if op == 'trunc':
            if isinstance(v, tuple):
                raise Unsupported("ptr trunc")
            return extract(v, to[1] - 1, 0)
        if op == 'zext':
            return zext(v, t[1], to[1])
        if op == 'sext':
            return sext(v, t[1], to[1])
        if op == 'fptrunc':
            return fsimp(z3.fpFPToFP(RNE, v, F32))
        if op == 'fpext':
            return fsimp(z3.fpFPToFP(RNE, v, F64))
        if op in ('sitofp', 'uitofp'):
            sort = F32 if to[1] == 32 else F64
            f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
            return fsimp(f(RNE, bv(v, t[1]), sort))
        if op in ('fptosi', 'fptoui'):
            s = op == 'fptosi'
            # C: undefined unless the truncated value fits
            self.ctx.ex_ub(in_range(v, to[1], s))
            return fp_to_int(v, to[1], s)
        if op == 'ptrtoint':
            return ('p2i', v)
        if op == 'inttoptr':
            if isinstance(v, tuple):
                return v[1]
            if v == 0:
                return NULL
            raise Unsupported("inttoptr")
        if op == 'freeze':
            return v
        raise Unsupported(op)
