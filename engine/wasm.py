"""Decoder, validator and symbolic executor for WebAssembly (the subset of the
MVP that a C compiler can emit).  Written from the WebAssembly specification,
independently of the compiler under test."""
import struct
import z3
from sym import *
import sym


class Malformed(Exception):
    pass


VT = {0x7f: 'i32', 0x7e: 'i64', 0x7d: 'f32', 0x7c: 'f64'}


class Reader:
    def __init__(self, b, pos=0, end=None):
        self.b = b
        self.p = pos
        self.end = len(b) if end is None else end

    def u8(self):
        if self.p >= self.end:
            raise Malformed("unexpected end")
        v = self.b[self.p]
        self.p += 1
        return v

    def bytes(self, n):
        if self.p + n > self.end:
            raise Malformed("unexpected end")
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def uleb(self, bits=32):
        r, s, n = 0, 0, 0
        while True:
            c = self.u8()
            n += 1
            if n > (bits + 6) // 7:
                raise Malformed("uleb too long")
            r |= (c & 0x7f) << s
            s += 7
            if not c & 0x80:
                break
        if r >> bits:
            raise Malformed("uleb out of range")
        return r

    def sleb(self, bits):
        r, s, n = 0, 0, 0
        while True:
            c = self.u8()
            n += 1
            if n > (bits + 6) // 7:
                raise Malformed("sleb too long")
            r |= (c & 0x7f) << s
            s += 7
            if not c & 0x80:
                break
        if c & 0x40:
            r -= 1 << s
        if not (-(1 << (bits - 1)) <= r < (1 << (bits - 1))):
            raise Malformed("sleb out of range")
        return r

    def name(self):
        n = self.uleb()
        try:
            return bytes(self.bytes(n)).decode('utf-8')
        except UnicodeDecodeError:
            raise Malformed("bad utf-8")

    def eof(self):
        return self.p >= self.end


# opcode tables: name -> signature
LOADS = {0x28: ('i32', 4, None), 0x29: ('i64', 8, None), 0x2a: ('f32', 4, None), 0x2b: ('f64', 8, None),
         0x2c: ('i32', 1, 's'), 0x2d: ('i32', 1, 'u'), 0x2e: ('i32', 2, 's'), 0x2f: ('i32', 2, 'u'),
         0x30: ('i64', 1, 's'), 0x31: ('i64', 1, 'u'), 0x32: ('i64', 2, 's'), 0x33: ('i64', 2, 'u'),
         0x34: ('i64', 4, 's'), 0x35: ('i64', 4, 'u')}
STORES = {0x36: ('i32', 4), 0x37: ('i64', 8), 0x38: ('f32', 4), 0x39: ('f64', 8),
          0x3a: ('i32', 1), 0x3b: ('i32', 2), 0x3c: ('i64', 1), 0x3d: ('i64', 2), 0x3e: ('i64', 4)}
CMP = ['eq', 'ne', 'slt', 'ult', 'sgt', 'ugt', 'sle', 'ule', 'sge', 'uge']
ARI = ['clz', 'ctz', 'popcnt', 'add', 'sub', 'mul', 'div_s', 'div_u', 'rem_s', 'rem_u', 'and', 'or', 'xor',
       'shl', 'shr_s', 'shr_u', 'rotl', 'rotr']
FCMP = ['eq', 'ne', 'lt', 'gt', 'le', 'ge']
FARI = ['abs', 'neg', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt', 'add', 'sub', 'mul', 'div', 'min', 'max', 'copysign']

OPS = {}   # opcode -> (kind, type, op, params, results)
OPS[0x45] = ('eqz', 'i32', None, ['i32'], ['i32'])
for i, o in enumerate(CMP):
    OPS[0x46 + i] = ('icmp', 'i32', o, ['i32', 'i32'], ['i32'])
    OPS[0x51 + i] = ('icmp', 'i64', o, ['i64', 'i64'], ['i32'])
OPS[0x50] = ('eqz', 'i64', None, ['i64'], ['i32'])
for i, o in enumerate(FCMP):
    OPS[0x5b + i] = ('fcmp', 'f32', o, ['f32', 'f32'], ['i32'])
    OPS[0x61 + i] = ('fcmp', 'f64', o, ['f64', 'f64'], ['i32'])
for i, o in enumerate(ARI):
    n = 1 if i < 3 else 2
    OPS[0x67 + i] = ('iari', 'i32', o, ['i32'] * n, ['i32'])
    OPS[0x79 + i] = ('iari', 'i64', o, ['i64'] * n, ['i64'])
for i, o in enumerate(FARI):
    n = 1 if i < 7 else 2
    OPS[0x8b + i] = ('fari', 'f32', o, ['f32'] * n, ['f32'])
    OPS[0x99 + i] = ('fari', 'f64', o, ['f64'] * n, ['f64'])
for code, op, a, r in [
    (0xa7, 'wrap', 'i64', 'i32'), (0xa8, 'trunc_s', 'f32', 'i32'), (0xa9, 'trunc_u', 'f32', 'i32'),
    (0xaa, 'trunc_s', 'f64', 'i32'), (0xab, 'trunc_u', 'f64', 'i32'), (0xac, 'extend_s', 'i32', 'i64'),
    (0xad, 'extend_u', 'i32', 'i64'), (0xae, 'trunc_s', 'f32', 'i64'), (0xaf, 'trunc_u', 'f32', 'i64'),
    (0xb0, 'trunc_s', 'f64', 'i64'), (0xb1, 'trunc_u', 'f64', 'i64'), (0xb2, 'convert_s', 'i32', 'f32'),
    (0xb3, 'convert_u', 'i32', 'f32'), (0xb4, 'convert_s', 'i64', 'f32'), (0xb5, 'convert_u', 'i64', 'f32'),
    (0xb6, 'demote', 'f64', 'f32'), (0xb7, 'convert_s', 'i32', 'f64'), (0xb8, 'convert_u', 'i32', 'f64'),
    (0xb9, 'convert_s', 'i64', 'f64'), (0xba, 'convert_u', 'i64', 'f64'), (0xbb, 'promote', 'f32', 'f64'),
    (0xbc, 'reinterpret', 'f32', 'i32'), (0xbd, 'reinterpret', 'f64', 'i64'),
    (0xbe, 'reinterpret', 'i32', 'f32'), (0xbf, 'reinterpret', 'i64', 'f64'),
    (0xc0, 'ext8', 'i32', 'i32'), (0xc1, 'ext16', 'i32', 'i32'), (0xc2, 'ext8', 'i64', 'i64'),
    (0xc3, 'ext16', 'i64', 'i64'), (0xc4, 'ext32', 'i64', 'i64')]:
    OPS[code] = ('conv', a, op, [a], [r])


class Func:
    __slots__ = ("type", "locals", "code", "idx", "name", "imp")


class Module:
    def __init__(self, data):
        self.data = data
        self.types, self.imports, self.funcs = [], [], []
        self.exports, self.datas, self.globals, self.tables, self.mems = {}, [], [], [], []
        self.start = None
        self.elems = []
        self.parse()

    def parse(self):
        r = Reader(self.data)
        if bytes(r.bytes(4)) != b'\0asm' or bytes(r.bytes(4)) != b'\1\0\0\0':
            raise Malformed("bad magic/version")
        last = 0
        ftypes = []
        bodies = []
        while not r.eof():
            sid = r.u8()
            size = r.uleb()
            if r.p + size > r.end:
                raise Malformed("section overruns module")
            s = Reader(self.data, r.p, r.p + size)
            r.p += size
            if sid == 0:
                continue
            order = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 12: 10, 10: 11, 11: 12}.get(sid)
            if order is None or order <= last:
                raise Malformed("section %d out of order or unknown" % sid)
            last = order
            if sid == 1:
                for _ in range(s.uleb()):
                    if s.u8() != 0x60:
                        raise Malformed("bad functype")
                    ps = [self.valtype(s) for _ in range(s.uleb())]
                    rs = [self.valtype(s) for _ in range(s.uleb())]
                    self.types.append((ps, rs))
            elif sid == 2:
                for _ in range(s.uleb()):
                    m, n = s.name(), s.name()
                    k = s.u8()
                    if k == 0:
                        ti = s.uleb()
                        f = Func()
                        f.type, f.locals, f.code, f.idx, f.name, f.imp = self.ty(ti), None, None, len(self.funcs), n, (m, n)
                        self.funcs.append(f)
                        self.imports.append((m, n, 'func'))
                    elif k == 2:
                        self.mems.append(self.limits(s))
                        self.imports.append((m, n, 'mem'))
                    else:
                        raise Malformed("unsupported import kind")
            elif sid == 3:
                ftypes = [s.uleb() for _ in range(s.uleb())]
            elif sid == 5:
                for _ in range(s.uleb()):
                    self.mems.append(self.limits(s))
            elif sid == 4:
                for _ in range(s.uleb()):
                    s.u8()
                    self.limits(s)
            elif sid == 6:
                for _ in range(s.uleb()):
                    raise Malformed("globals unsupported")
            elif sid == 7:
                for _ in range(s.uleb()):
                    n = s.name()
                    k = s.u8()
                    i = s.uleb()
                    if n in self.exports:
                        raise Malformed("duplicate export")
                    self.exports[n] = (k, i)
            elif sid == 8:
                self.start = s.uleb()
            elif sid == 9:
                if s.uleb():
                    raise Malformed("elements unsupported")
            elif sid == 10:
                for _ in range(s.uleb()):
                    sz = s.uleb()
                    if s.p + sz > s.end:
                        raise Malformed("body overruns section")
                    bodies.append(Reader(self.data, s.p, s.p + sz))
                    s.p += sz
            elif sid == 11:
                for _ in range(s.uleb()):
                    fl = s.uleb()
                    if fl == 2:
                        s.uleb()
                    off = None
                    if fl != 1:
                        if s.u8() != 0x41:
                            raise Malformed("data offset not i32.const")
                        off = s.sleb(32)
                        if s.u8() != 0x0b:
                            raise Malformed("data offset expr")
                    n = s.uleb()
                    self.datas.append((off, bytes(s.bytes(n))))
            if not s.eof():
                raise Malformed("section %d has trailing bytes" % sid)
        if len(ftypes) != len(bodies):
            raise Malformed("function/code count mismatch")
        for ti in ftypes:
            f = Func()
            f.type, f.locals, f.code, f.idx, f.name, f.imp = self.ty(ti), None, None, len(self.funcs), None, None
            self.funcs.append(f)
        nimp = len(self.funcs) - len(bodies)
        for i, b in enumerate(bodies):
            f = self.funcs[nimp + i]
            f.locals = list(f.type[0])
            for _ in range(b.uleb()):
                n = b.uleb()
                f.locals += [self.valtype(b)] * n
            f.code = self.code(b)
            if not b.eof():
                raise Malformed("trailing bytes in body")
            self.validate(f)
        for n, (k, i) in self.exports.items():
            if k == 0 and i >= len(self.funcs):
                raise Malformed("export index")
            if k == 0:
                self.funcs[i].name = n
        for off, d in self.datas:
            if off is not None and not self.mems:
                raise Malformed("data without memory")

    def ty(self, i):
        if i >= len(self.types):
            raise Malformed("type index")
        return self.types[i]

    def valtype(self, s):
        c = s.u8()
        if c not in VT:
            raise Malformed("bad valtype")
        return VT[c]

    def limits(self, s):
        k = s.u8()
        lo = s.uleb()
        hi = s.uleb() if k == 1 else None
        if k > 1:
            raise Malformed("bad limits")
        return (lo, hi)

    def blocktype(self, s):
        c = s.b[s.p]
        if c == 0x40:
            s.p += 1
            return ([], [])
        if c in VT:
            s.p += 1
            return ([], [VT[c]])
        return self.ty(s.sleb(33))

    def code(self, s):
        """flat list of (op, ...) with end/else targets resolved"""
        out = []
        stack = [('func', -1)]
        while True:
            op = s.u8()
            pc = len(out)
            if op in (0x02, 0x03, 0x04):
                bt = self.blocktype(s)
                out.append([{2: 'block', 3: 'loop', 4: 'if'}[op], bt, None, None])
                stack.append((op, pc))
            elif op == 0x05:
                if not stack or stack[-1][0] != 0x04:
                    raise Malformed("else without if")
                out[stack[-1][1]][3] = pc
                out.append(['else', None])
                stack[-1] = (0x05, stack[-1][1])
            elif op == 0x0b:
                k, at = stack.pop()
                out.append(['end'])
                if k == 'func':
                    break
                out[at][2] = pc
                if out[at][0] == 'if' and out[at][3] is not None:
                    out[out[at][3]][1] = pc
            elif op == 0x00:
                out.append(['unreachable'])
            elif op == 0x01:
                out.append(['nop'])
            elif op in (0x0c, 0x0d):
                out.append(['br' if op == 0x0c else 'br_if', s.uleb()])
            elif op == 0x0e:
                ls = [s.uleb() for _ in range(s.uleb())]
                out.append(['br_table', ls, s.uleb()])
            elif op == 0x0f:
                out.append(['return'])
            elif op == 0x10:
                out.append(['call', s.uleb()])
            elif op == 0x1a:
                out.append(['drop'])
            elif op == 0x1b:
                out.append(['select'])
            elif op in (0x20, 0x21, 0x22):
                out.append([{0x20: 'local.get', 0x21: 'local.set', 0x22: 'local.tee'}[op], s.uleb()])
            elif op in LOADS:
                al, off = s.uleb(), s.uleb()
                if (1 << al) > LOADS[op][1]:
                    raise Malformed("alignment too large")
                out.append(['load', LOADS[op], off])
            elif op in STORES:
                al, off = s.uleb(), s.uleb()
                if (1 << al) > STORES[op][1]:
                    raise Malformed("alignment too large")
                out.append(['store', STORES[op], off])
            elif op == 0x3f:
                if s.u8():
                    raise Malformed("memory index")
                out.append(['memory.size'])
            elif op == 0x40:
                if s.u8():
                    raise Malformed("memory index")
                out.append(['memory.grow'])
            elif op == 0x41:
                out.append(['const', 'i32', s.sleb(32) & mask(32)])
            elif op == 0x42:
                out.append(['const', 'i64', s.sleb(64) & mask(64)])
            elif op == 0x43:
                out.append(['const', 'f32', fpfrombits(int.from_bytes(s.bytes(4), 'little'), 32)])
            elif op == 0x44:
                out.append(['const', 'f64', fpfrombits(int.from_bytes(s.bytes(8), 'little'), 64)])
            elif op in OPS:
                out.append(['op', OPS[op]])
            elif op == 0xfc:
                sub = s.uleb()
                if sub <= 7:
                    a = ['f32', 'f32', 'f64', 'f64'][sub % 4]
                    r = 'i32' if sub < 4 else 'i64'
                    out.append(['op', ('conv', a, 'sat_' + 'su'[sub % 2], [a], [r])])
                elif sub == 10:
                    s.u8(), s.u8()
                    out.append(['memory.copy'])
                elif sub == 11:
                    s.u8()
                    out.append(['memory.fill'])
                else:
                    raise Malformed("opcode fc %d" % sub)
            else:
                raise Malformed("unknown opcode %#x" % op)
        return out

    # --- validation (algorithm from the spec appendix) -------------------
    def validate(self, f):
        vals, ctrls = [], []
        ANY = 'any'

        def push(t):
            vals.append(t)

        def pop(t=ANY):
            c = ctrls[-1]
            if len(vals) == c[2]:
                if c[3]:
                    return t
                raise Malformed("stack underflow, wanted %s" % t)
            a = vals.pop()
            if t != ANY and a != ANY and a != t:
                raise Malformed("type mismatch: %s wanted %s" % (a, t))
            return a

        def popn(ts):
            for t in reversed(ts):
                pop(t)

        def pushc(kind, bt):
            ctrls.append([kind, bt, len(vals), False])
            for t in bt[0]:
                push(t)

        def popc():
            c = ctrls[-1]
            popn(c[1][1])
            if len(vals) != c[2]:
                raise Malformed("values left on stack")
            ctrls.pop()
            return c

        def unreach():
            c = ctrls[-1]
            del vals[c[2]:]
            c[3] = True

        def lab(n):
            if n >= len(ctrls):
                raise Malformed("branch depth")
            c = ctrls[-1 - n]
            return c[1][0] if c[0] == 'loop' else c[1][1]

        ctrls.append(['func', ([], f.type[1]), 0, False])
        for ins in f.code:
            o = ins[0]
            if o == 'op':
                _, _, _, ps, rs = ins[1]
                popn(ps)
                for t in rs:
                    push(t)
            elif o == 'const':
                push(ins[1])
            elif o == 'load':
                if not self.mems:
                    raise Malformed("no memory")
                pop('i32')
                push(ins[1][0])
            elif o == 'store':
                if not self.mems:
                    raise Malformed("no memory")
                pop(ins[1][0])
                pop('i32')
            elif o in ('block', 'loop'):
                popn(ins[1][0])
                pushc(o, ins[1])
            elif o == 'if':
                pop('i32')
                popn(ins[1][0])
                pushc(o, ins[1])
                if ins[3] is None and ins[1][0] != ins[1][1]:
                    raise Malformed("if without else has result")
            elif o == 'else':
                c = popc()
                pushc('else', c[1])
            elif o == 'end':
                c = popc()
                for t in c[1][1]:
                    push(t)
                if not ctrls:
                    break
            elif o == 'br':
                popn(lab(ins[1]))
                unreach()
            elif o == 'br_if':
                pop('i32')
                ts = lab(ins[1])
                popn(ts)
                for t in ts:
                    push(t)
            elif o == 'br_table':
                pop('i32')
                popn(lab(ins[2]))
                for n in ins[1]:
                    if lab(n) != lab(ins[2]):
                        raise Malformed("br_table types")
                unreach()
            elif o == 'return':
                popn(f.type[1])
                unreach()
            elif o == 'unreachable':
                unreach()
            elif o == 'call':
                if ins[1] >= len(self.funcs):
                    raise Malformed("call index")
                ps, rs = self.funcs[ins[1]].type
                popn(ps)
                for t in rs:
                    push(t)
            elif o == 'drop':
                pop()
            elif o == 'select':
                pop('i32')
                a = pop()
                b = pop()
                if a != b and ANY not in (a, b):
                    raise Malformed("select types")
                push(b if a == ANY else a)
            elif o.startswith('local.'):
                if ins[1] >= len(f.locals):
                    raise Malformed("local index %d" % ins[1])
                t = f.locals[ins[1]]
                if o == 'local.get':
                    push(t)
                elif o == 'local.set':
                    pop(t)
                else:
                    pop(t)
                    push(t)
            elif o == 'memory.size':
                push('i32')
            elif o == 'memory.grow':
                pop('i32')
                push('i32')
            elif o in ('memory.copy', 'memory.fill'):
                popn(['i32'] * 3)
            elif o == 'nop':
                pass
            else:
                raise Malformed(o)


W = {'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64}


class Machine:
    """symbolic execution of one module instance on one path"""

    def __init__(self, ctx, module, host, max_steps=400000, max_depth=400, mem_limit=65536):
        self.ctx = ctx
        self.m = module
        self.host = host          # host(machine, name) for imported functions
        self.mem = Mem(0)
        self.steps = 0
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.mem_limit = mem_limit
        self.depth = 0
        self.mon = None           # stack monitor (mon.py)
        for off, d in module.datas:
            if off is not None:
                if off < 0 or off + len(d) > mem_limit:
                    raise Trap("data segment out of bounds")
                for i, c in enumerate(d):
                    self.mem.d[off + i] = c

    def addr(self, a, off, n):
        a = fold(a)
        if not isinstance(a, int):
            a = self.ctx.concretise(a, 32)
        ea = a + off
        if ea + n > self.mem_limit:
            raise Trap("out of bounds memory access at %d" % ea)
        return ea

    def call(self, idx, args):
        f = self.m.funcs[idx]
        if f.imp:
            if self.mon:
                self.mon.host(self, f.imp[1])
            return self.host(self, f.imp[1], args)
        self.depth += 1
        if self.depth > self.max_depth:
            raise Bound("wasm call depth")
        if self.mon:
            self.mon.enter(self, f)
        r = self.run(f, args)
        if self.mon:
            self.mon.leave(self, f)
        self.depth -= 1
        return r

    def run(self, f, args):
        locs = list(args)
        for t in f.locals[len(args):]:
            locs.append(0 if t[0] == 'i' else fpfrombits(0, W[t]))
        st = []
        labels = [('func', len(f.code) - 1, len(f.type[1]), 0)]   # kind, target pc, arity, height
        code = f.code
        pc = 0
        n = len(code)
        ctx = self.ctx
        mem = self.mem
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Bound("wasm steps")
            ins = code[pc]
            o = ins[0]
            if o == 'const':
                st.append(ins[2])
            elif o == 'op':
                kind, ty, op, ps, rs = ins[1]
                if len(ps) == 1:
                    st.append(self.unop(kind, ty, op, rs[0], st.pop()))
                else:
                    b = st.pop()
                    a = st.pop()
                    st.append(self.binop(kind, ty, op, a, b))
            elif o == 'load':
                ty, k, sg = ins[1]
                ea = self.addr(st.pop(), ins[2], k)
                if ty[0] == 'f':
                    st.append(mem.load_fp(ea, k))
                else:
                    v = mem.load_int(ea, k)
                    w = W[ty]
                    if sg == 's':
                        v = sext(v, 8 * k, w)
                    elif sg == 'u':
                        v = zext(v, 8 * k, w)
                    st.append(v)
            elif o == 'store':
                ty, k = ins[1]
                v = st.pop()
                ea = self.addr(st.pop(), ins[2], k)
                if ty[0] == 'i' and 8 * k < W[ty]:
                    v = extract(v, 8 * k - 1, 0)
                elif ty[0] == 'f' and z3.is_fp_value(v):
                    bits = fpbits(v)
                    v = bits if isinstance(bits, int) and not z3.is_true(z3.simplify(z3.fpIsNaN(v))) else v
                mem.store(ea, v, k)
            elif o == 'local.get':
                st.append(locs[ins[1]])
            elif o == 'local.set':
                locs[ins[1]] = st.pop()
            elif o == 'local.tee':
                locs[ins[1]] = st[-1]
            elif o == 'call':
                g = self.m.funcs[ins[1]]
                k = len(g.type[0])
                a = st[len(st) - k:] if k else []
                if k:
                    del st[len(st) - k:]
                st.extend(self.call(ins[1], a))
            elif o == 'block':
                labels.append(('block', ins[2] + 1, len(ins[1][1]), len(st) - len(ins[1][0])))
            elif o == 'loop':
                labels.append(('loop', pc + 1, len(ins[1][0]), len(st) - len(ins[1][0])))
            elif o == 'if':
                c = ctx.branch(truth(st.pop(), 32))
                labels.append(('block', ins[2] + 1, len(ins[1][1]), len(st) - len(ins[1][0])))
                if not c:
                    if ins[3] is not None:
                        pc = ins[3]
                    else:
                        pc = ins[2]
                        continue
            elif o == 'else':
                pc = ins[1]
                continue
            elif o == 'end':
                l = labels.pop()
                if not labels:
                    return st[len(st) - l[2]:] if l[2] else []
            elif o in ('br', 'br_if', 'br_table'):
                if o == 'br_if':
                    if not ctx.branch(truth(st.pop(), 32)):
                        pc += 1
                        continue
                    d = ins[1]
                elif o == 'br_table':
                    v = fold(st.pop())
                    d = None
                    for i, t in enumerate(ins[1]):
                        if ctx.branch(eq(v, i, 32)):
                            d = t
                            break
                    if d is None:
                        d = ins[2]
                else:
                    d = ins[1]
                l = labels[-1 - d]
                vals = st[len(st) - l[2]:] if l[2] else []
                if l[0] == 'func':
                    return vals
                del st[l[3]:]
                st.extend(vals)
                if l[0] == 'loop':
                    if d:
                        del labels[len(labels) - d:]
                    pc = l[1]
                else:
                    del labels[len(labels) - 1 - d:]
                    pc = l[1]
                continue
            elif o == 'return':
                k = len(f.type[1])
                return st[len(st) - k:] if k else []
            elif o == 'drop':
                st.pop()
            elif o == 'select':
                c = truth(st.pop(), 32)
                b = st.pop()
                a = st.pop()
                st.append(a if ctx.branch(c) else b)
            elif o == 'unreachable':
                raise Trap("unreachable")
            elif o == 'nop':
                pass
            elif o == 'memory.size':
                st.append(self.mem_limit // 65536)
            else:
                raise Inconclusive("wasm op " + o)
            pc += 1

    # --- numeric -----------------------------------------------------------
    def unop(self, kind, ty, op, rty, a):
        w = W[ty]
        if kind == 'eqz':
            return ite01(neg(truth(a, w)), 32)
        if kind == 'fari':
            if op == 'neg':
                return fsimp(z3.fpNeg(a))
            if op == 'abs':
                return fsimp(z3.fpAbs(a))
            if op == 'sqrt':
                return fsimp(z3.fpSqrt(RNE, a))
            raise Inconclusive(op)
        if kind == 'conv':
            rw = W[rty]
            if op == 'wrap':
                return extract(a, 31, 0)
            if op == 'extend_s':
                return sext(a, 32, 64)
            if op == 'extend_u':
                return zext(a, 32, 64)
            if op in ('convert_s', 'convert_u'):
                sort = F32 if rty == 'f32' else F64
                f = z3.fpSignedToFP if op == 'convert_s' else z3.fpUnsignedToFP
                return fsimp(f(RNE, bv(a, w), sort))
            if op == 'promote':
                return fsimp(z3.fpFPToFP(RNE, a, F64))
            if op == 'demote':
                return fsimp(z3.fpFPToFP(RNE, a, F32))
            if op in ('trunc_s', 'trunc_u'):
                s = op == 'trunc_s'
                if not self.ctx.branch(in_range(a, rw, s)):
                    raise Trap("float to int overflow")
                return fp_to_int(a, rw, s)
            if op == 'reinterpret':
                return fpbits(a) if ty[0] == 'f' else fpfrombits(a, rw)
            if op.startswith('ext'):
                k = int(op[3:])
                return sext(extract(a, k - 1, 0), k, w)
            if op in ('sat_s', 'sat_u'):
                raise Inconclusive(op)
        if kind == 'iari' and isinstance(a, int):
            if op == 'clz':
                return w - a.bit_length()
            if op == 'ctz':
                return w if a == 0 else (a & -a).bit_length() - 1
            if op == 'popcnt':
                return bin(a).count('1')
        raise Inconclusive("%s %s" % (kind, op))

    def binop(self, kind, ty, op, a, b):
        w = W[ty]
        if kind == 'icmp':
            if op == 'eq':
                return ite01(eq(a, b, w), 32)
            if op == 'ne':
                return ite01(neg(eq(a, b, w)), 32)
            return ite01(cmp(op, a, b, w), 32)
        if kind == 'iari':
            if op == 'add':
                return add(a, b, w)
            if op == 'sub':
                return sub(a, b, w)
            if op == 'mul':
                return mul(a, b, w)
            if op in ('div_s', 'div_u', 'rem_s', 'rem_u'):
                if not self.ctx.branch(neg(eq(b, 0, w))):
                    raise Trap("division by zero")
                if op == 'div_s':
                    if not (is_int(b) and b != mask(w)) and not (is_int(a) and a != 1 << (w - 1)):
                        ov = z3.And(bv(a, w) == z3.BitVecVal(1 << (w - 1), w), bv(b, w) == z3.BitVecVal(mask(w), w))
                        if self.ctx.branch(z3.simplify(ov)):
                            raise Trap("division overflow")
                    return sdiv(a, b, w)
                return {'div_u': udiv, 'rem_s': srem, 'rem_u': urem}[op](a, b, w)
            if op in ('and', 'or', 'xor'):
                return {'and': band, 'or': bor, 'xor': bxor}[op](a, b, w)
            if op == 'shl':
                return shl(a, sym._shamt(b, w), w)
            if op == 'shr_s':
                return ashr(a, sym._shamt(b, w), w)
            if op == 'shr_u':
                return lshr(a, sym._shamt(b, w), w)
            raise Inconclusive(op)
        if kind == 'fcmp':
            c = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'gt': z3.fpGT, 'le': z3.fpLEQ, 'ge': z3.fpGEQ}[op](a, b)
            if z3.is_fp_value(a) and z3.is_fp_value(b):
                c = z3.simplify(c)
            return ite01(c, 32)
        if kind == 'fari':
            if op in ('add', 'sub', 'mul', 'div'):
                f = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op]
                return fsimp(f(RNE, a, b))
            raise Inconclusive(op)
        raise Inconclusive(kind)


def in_range(a, rw, signed):
    """float value a truncates into the integer type"""
    sort = a.sort()
    lo = -(1 << (rw - 1)) if signed else 0
    hi = (1 << (rw - 1)) if signed else (1 << rw)
    t = z3.fpRoundToIntegral(RTZ, a)
    c = z3.And(z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsInf(a)),
               z3.fpGEQ(t, z3.FPVal(float(lo), sort)), z3.fpLT(t, z3.FPVal(float(hi), sort)))
    c = z3.simplify(c) if z3.is_fp_value(a) else c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def fp_to_int(a, rw, signed):
    e = z3.fpToSBV(RTZ, a, z3.BitVecSort(rw)) if signed else z3.fpToUBV(RTZ, a, z3.BitVecSort(rw))
    return fold(z3.simplify(e)) if z3.is_fp_value(a) else e
