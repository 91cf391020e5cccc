"""Built-in objects and functions of JavaScript, as far as the run-time library may use them."""
import math
import re as pyre

import z3

from jsym import (NULL, RNE, UNDEF, Arr, Big, Buf, Dec, Dig, Exit, Fn, Fp, JSThrow, Native, Obj, S, Scope, Sym,
                  Unsupported, VIEWS, View, code_bv, conc, elems, from_unsigned, is_conc_int, is_str, ival, kind_of, mk,
                  mkfp, mkstr, num, rng, sb, to_bv, to_fp, width)


class Regex:
    def __init__(self, src, flags):
        self.src, self.flags = src, flags
        self.serial = -1


class Memory:
    """WebAssembly.Memory"""

    def __init__(self, buf):
        self.buf = buf
        self.serial = -1


# --- typed arrays --------------------------------------------------------------

def load(it, v, i, kind=None, little=True):
    n, t = VIEWS[kind] if kind else (v.n, v.t)
    a = v.off + i
    bs = [v.buf.get(a + j) for j in range(n)]
    if not little:
        bs = bs[::-1]
    return from_bytes(bs, t)


def from_bytes(bs, t):
    if all(isinstance(b, int) for b in bs):
        raw = bytes(bs)
        if t == 'f':
            import struct
            d = struct.unpack('<d', raw)[0]
            if d != d:
                return Fp(z3.BitVecVal(int.from_bytes(raw, 'little'), 64))
            return num(d)
        x = int.from_bytes(raw, 'little', signed=t in 'iI')
        return Big(x) if t in 'UI' else x
    bv = z3.simplify(z3.Concat(*[b if z3.is_expr(b) else z3.BitVecVal(b, 8) for b in reversed(bs)])) if len(bs) > 1 else bs[0]
    if t == 'f':
        return Fp(bv)
    kind = 'big' if t in 'UI' else 'num'
    if t in 'uU':
        return from_unsigned(kind, bv)
    w = bv.size()
    return mk(kind, bv, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def to_bytes(it, v, n, t):
    if t == 'f':
        v = it.number(v)
        if isinstance(v, Fp):
            bv = v.bits
        elif isinstance(v, Sym):
            bv = mkfp(to_fp(v)).bits
        else:
            import struct
            return list(struct.pack('<d', float(v)))
    else:
        if t in 'UI':
            if kind_of(v) != 'big':
                raise JSThrow('TypeError: Cannot convert to a BigInt')
        else:
            if kind_of(v) == 'big':
                raise JSThrow('TypeError: Cannot convert a BigInt value to a number')
            v = it.number(v)
        if isinstance(v, Sym):
            bv = v.ext(8 * n)
        elif isinstance(v, Fp):
            raise Unsupported('store of a symbolic double to an integer view')
        else:
            if isinstance(v, float) and not v.is_integer():
                v = int(v) if v == v and abs(v) != math.inf else 0
            return list((ival(v) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
    return [z3.simplify(z3.Extract(8 * j + 7, 8 * j, bv)) for j in range(n)]


def store(it, v, i, val, kind=None, little=True):
    n, t = VIEWS[kind] if kind else (v.n, v.t)
    bs = to_bytes(it, val, n, t)
    if not little:
        bs = bs[::-1]
    it.touch(v.buf.serial)
    for j, b in enumerate(bs):
        if z3.is_expr(b) and z3.is_bv_value(b):
            b = b.as_long()
        v.buf.b[v.off + i + j] = b
        v.buf.written.add(v.off + i + j)


def index(it, k):
    if isinstance(k, Sym):
        return it.concrete(k, 'index')
    if is_conc_int(k):
        return ival(k)
    if isinstance(k, str) and k.isdigit():
        return int(k)
    return None


# --- property access -------------------------------------------------------------

def get(it, o, k):
    if o is UNDEF or o is NULL:
        raise JSThrow('TypeError: Cannot read properties of ' + repr(o))
    if is_str(o):
        if k == 'length':
            return it.strlen(o)
        i = index(it, k)
        if i is not None:
            o = it.expand(o)
            es = elems(o)
            return mkstr([es[i]]) if 0 <= i < len(es) else UNDEF
        return bound(it, o, k)
    if isinstance(o, View):
        if k == 'length':
            return o.length if o.length is not None else 65536 // o.n
        if k == 'buffer':
            return o.buf
        if k in ('byteLength', 'byteOffset'):
            return o.off if k == 'byteOffset' else (o.length or 65536) * o.n
        i = index(it, k)
        if i is None:
            return bound(it, o, k)
        ln = o.length if o.length is not None else 65536 // o.n
        if not 0 <= i < ln:
            return UNDEF
        return load(it, o, i * o.n)
    if isinstance(o, Memory):
        if k == 'buffer':
            return o.buf
        raise Unsupported('memory.' + str(k))
    if isinstance(o, Buf):
        if k == 'byteLength':
            return o.size if o.size is not None else 65536
        return bound(it, o, k)
    if isinstance(o, Arr):
        if k == 'length':
            return len(o.items)
        i = index(it, k)
        if i is not None:
            return o.items[i] if 0 <= i < len(o.items) else UNDEF
        return bound(it, o, k)
    if isinstance(o, Obj):
        k = it.tostr(k)
        if isinstance(k, S):
            for n in o.props:
                if it.truth(it.equal(k, n)):
                    return o.props[n]
            return UNDEF
        if k in o.props:
            return o.props[k]
        if k in ('hasOwnProperty', 'toString'):
            return bound(it, o, k)
        return UNDEF
    if isinstance(o, (Native, Fn)):
        if k in o.props:
            return o.props[k]
        return bound(it, o, k)
    return bound(it, o, k)


def bound(it, o, k):
    if not isinstance(k, str):
        return UNDEF
    return Native(lambda it_, a: method(it_, o, k, a, None), k)


def put(it, o, k, v):
    if isinstance(o, View):
        i = index(it, k)
        if i is None:
            raise Unsupported('property of a view')
        ln = o.length if o.length is not None else 65536 // o.n
        if 0 <= i < ln:
            store(it, o, i * o.n, v)
        return
    if isinstance(o, Arr):
        i = index(it, k)
        it.touch(o.serial)
        if k == 'length':
            del o.items[it.concrete(v):]
            return
        if i is None or i < 0:
            raise Unsupported('array property')
        while len(o.items) <= i:
            o.items.append(UNDEF)
        o.items[i] = v
        return
    if isinstance(o, Obj):
        it.touch(o.serial)
        k = it.tostr(k)
        if isinstance(k, S):
            raise Unsupported('symbolic property')
        o.props[k] = v
        return
    if isinstance(o, Fn):
        it.touch(o.serial)
        o.props[k] = v
        return
    if o is UNDEF or o is NULL:
        raise JSThrow('TypeError: Cannot set properties')
    raise Unsupported('store to %s' % type(o).__name__)


def iterate(it, o):
    if isinstance(o, Arr):
        i = 0
        while i < len(o.items):
            yield o.items[i]
            i += 1
    elif is_str(o):
        for e in elems(it.expand(o)):
            yield mkstr([e])
    elif isinstance(o, View):
        if o.length is None:
            raise Unsupported('iteration over memory')
        for i in range(o.length):
            yield load(it, o, i * o.n)
    elif isinstance(o, Obj) and 'next' in o.props:
        raise Unsupported('iterator')
    else:
        raise JSThrow('TypeError: not iterable')


def clampidx(it, v, n, default):
    if v is UNDEF:
        return default
    v = it.number(v)
    if isinstance(v, float) and v != v:
        return 0
    if isinstance(v, float) and abs(v) == math.inf:
        return n if v > 0 else 0
    i = int(it.concrete(v, 'index'))
    return max(0, n + i) if i < 0 else min(i, n)


def charclass(it, e, pred):
    """formula: the code unit satisfies pred (a predicate on 0..255)"""
    if isinstance(e, int):
        return pred(e)
    b = code_bv(e)
    runs = []
    for c in range(256):
        if pred(c):
            if runs and runs[-1][1] == c - 1:
                runs[-1][1] = c
            else:
                runs.append([c, c])
    return sb(z3.Or(*[z3.And(z3.UGE(b, lo), z3.ULE(b, hi)) for lo, hi in runs])) if runs else False


JSWS = lambda c: c in (9, 10, 11, 12, 13, 32, 160)


def find(it, s, t, start, last=False):
    """index of t in s, by forking on each possible offset"""
    s, t = it.expand(s), it.expand(t)
    es, et = elems(s), elems(t)
    r = range(start, len(es) - len(et) + 1)
    for i in (reversed(r) if last else r):
        if it.truth(it.equal(mkstr(es[i:i + len(et)]), mkstr(et))):
            return i
    return -1


def method(it, o, k, a, node):
    arg = lambda i, d=UNDEF: a[i] if i < len(a) else d
    if isinstance(k, (Sym, Big)) or not isinstance(k, str):
        return it.call(get(it, o, k), a, node)
    if is_str(o):
        f = STR.get(k)
        if not f:
            raise Unsupported('string.' + k)
        if k in MERGED:
            return it.merge(('m', k, id(node)), lambda: f(it, o, a, arg))
        return f(it, o, a, arg)
    kd = kind_of(o)
    if kd:
        if k == 'toString':
            if a and arg(0) is not UNDEF and it.concrete(arg(0)) != 10:
                if isinstance(o, (Sym, Fp)):
                    raise Unsupported('toString with a radix')
                return tobase(ival(o), it.concrete(arg(0)))
            return it.tostr(o)
        if k == 'toFixed':
            if isinstance(o, (Sym, Fp)) or not is_conc_int(o):
                raise Unsupported('toFixed')
            n = it.concrete(arg(0, 0))
            return str(ival(o)) + ('.' + '0' * n if n else '')
        if k in ('valueOf',):
            return o
        raise Unsupported('number.' + k)
    if isinstance(o, Arr):
        f = ARR.get(k)
        if f:
            return f(it, o, a, arg)
        raise Unsupported('array.' + k)
    if isinstance(o, View):
        m = pyre.match(r'(get|set)(Uint|Int|BigUint|BigInt|Float)(8|16|32|64)$', k)
        if m and o.kind == 'DataView':
            kind = m.group(2) + m.group(3) + 'Array'
            if kind == 'Float32Array':
                raise Unsupported('Float32')
            off = index(it, arg(0))
            if m.group(1) == 'get':
                n, t = VIEWS[kind]
                return load(it, o, off, kind, it.truth(arg(1, False)) if n > 1 else True)
            store(it, o, off, arg(1), kind, it.truth(arg(2, False)) if VIEWS[kind][0] > 1 else True)
            return UNDEF
        if k in ('subarray', 'slice'):
            n = o.length if o.length is not None else 65536 // o.n
            x, y = clampidx(it, arg(0), n, 0), clampidx(it, arg(1), n, n)
            if k == 'subarray':
                return View(o.kind, o.buf, o.off + x * o.n, max(0, y - x))
            b = Buf(it, max(0, y - x) * o.n, lambda q: 0)
            for q in range(max(0, y - x) * o.n):
                b.b[q] = o.buf.get(o.off + x * o.n + q)
            return View(o.kind, b)
        if k == 'set':
            off = it.concrete(arg(1, 0))
            for i, v in enumerate(list(iterate(it, arg(0)))):
                store(it, o, (off + i) * o.n, v)
            return UNDEF
        if k == 'fill':
            n = o.length if o.length is not None else 65536 // o.n
            for i in range(clampidx(it, arg(1), n, 0), clampidx(it, arg(2), n, n)):
                store(it, o, i * o.n, arg(0))
            return o
        if k == 'indexOf':
            i = clampidx(it, arg(1), 65536, 0)
            ln = o.length if o.length is not None else i + 300
            while i < ln:
                it.tick()
                if it.truth(it.equal(load(it, o, i * o.n), arg(0))):
                    return i
                i += 1
            return -1
        raise Unsupported('view.' + k)
    if isinstance(o, Buf):
        if k == 'slice':
            x, y = clampidx(it, arg(0), 65536, 0), clampidx(it, arg(1), 65536, 65536)
            b = Buf(it, y - x, lambda q: 0)
            for q in range(y - x):
                b.b[q] = o.get(x + q)
            return b
        raise Unsupported('buffer.' + k)
    if isinstance(o, Regex):
        if k == 'test':
            return regex_test(it, o, it.tostr(arg(0)))
        raise Unsupported('regex.' + k)
    if isinstance(o, (Fn, Native)):
        if k in o.props:
            return it.call(o.props[k], a, node)
        if k == 'call':
            return it.call(o, a[1:], node)
        if k == 'apply':
            return it.call(o, list(iterate(it, a[1])) if len(a) > 1 else [], node)
        if k == 'bind':
            return Native(lambda it_, b: it_.call(o, a[1:] + b))
        raise Unsupported('function.' + k)
    if isinstance(o, Obj):
        f = get(it, o, k)
        if k == 'hasOwnProperty' and k not in o.props:
            return it.tostr(arg(0)) in o.props
        if f is UNDEF:
            raise JSThrow('TypeError: %s is not a function' % k)
        return it.call(f, a, node)
    if o is UNDEF or o is NULL:
        raise JSThrow('TypeError: Cannot read properties of %r (reading %s)' % (o, k))
    raise Unsupported('%s.%s' % (type(o).__name__, k))


def regex_test(it, r, s):
    m = pyre.match(r'^(\^?)((?:\[\^?(?:\\.|[^\]\\])+\])|\\[dsw]|\.|[^\\.*+?()\[\]{}|^$])(\$?)$', r.src)
    if not m:
        if isinstance(s, str):
            return pyre.search(r.src, s, pyre.I if 'i' in r.flags else 0) is not None
        raise Unsupported('regex ' + r.src)
    p = pyre.compile(m.group(2), pyre.I if 'i' in r.flags else 0)
    pred = lambda c: p.fullmatch(chr(c)) is not None
    es = elems(it.expand(s))
    if m.group(1):
        es = es[:1] if not m.group(3) or len(es) == 1 else ()
    elif m.group(3):
        es = es[-1:]
    cs = [charclass(it, e, pred) for e in es]
    if any(c is True for c in cs):
        return True
    cs = [c for c in cs if c is not False]
    return sb(z3.Or(*cs)) if cs else False


def tobase(n, b):
    d = '0123456789abcdefghijklmnopqrstuvwxyz'
    s, m = '', abs(n)
    while m:
        s = d[m % b] + s
        m //= b
    return ('-' if n < 0 else '') + (s or '0')


# --- strings ----------------------------------------------------------------------

def s_code(it, o, a, arg):
    i = it.concrete(it.number(arg(0, 0)), 'index')
    es = elems(it.expand(o))
    if not 0 <= i < len(es):
        return float('nan')
    e = es[i]
    return e if isinstance(e, int) else mk('num', z3.ZeroExt(1, code_bv(e)), 0, 255 if isinstance(e, Dig) or True and small(e) else 65535)


def small(e):
    """a code unit built from one byte"""
    b = code_bv(e)
    return z3.is_app_of(b, z3.Z3_OP_CONCAT) and z3.is_bv_value(b.arg(0)) and b.arg(0).as_long() == 0 and b.arg(0).size() >= 8


def s_slice(it, o, a, arg):
    es = elems(it.expand(o))
    return mkstr(es[clampidx(it, arg(0), len(es), 0):clampidx(it, arg(1), len(es), len(es))])


def s_substring(it, o, a, arg):
    es = elems(it.expand(o))
    c = lambda v, d: d if v is UNDEF else max(0, min(len(es), it.concrete(it.number(v))))
    x, y = c(arg(0), 0), c(arg(1), len(es))
    return mkstr(es[min(x, y):max(x, y)])


def s_substr(it, o, a, arg):
    es = elems(it.expand(o))
    x = clampidx(it, arg(0), len(es), 0)
    n = len(es) if arg(1) is UNDEF else it.concrete(arg(1))
    return mkstr(es[x:x + max(0, n)])


def s_pad(front):
    def f(it, o, a, arg):
        n = it.concrete(arg(0))
        p = elems(it.tostr(arg(1, ' ')))
        es = elems(it.expand(o))
        fill = (p * (n // max(1, len(p)) + 1))[:max(0, n - len(es))]
        return mkstr(tuple(fill) + es if front else es + tuple(fill))
    return f


def s_trim(front, back):
    def f(it, o, a, arg):
        es = list(elems(it.expand(o)))
        if front:
            while es and it.truth(charclass(it, es[0], JSWS)):
                es.pop(0)
        if back:
            while es and it.truth(charclass(it, es[-1], JSWS)):
                es.pop()
        return mkstr(es)
    return f


def s_case(up):
    lo, hi, d = (97, 122, -32) if up else (65, 90, 32)

    def f(it, o, a, arg):
        out = []
        for e in elems(it.expand(o)):
            if isinstance(e, Dig):
                out.append(e)
            elif isinstance(e, int):
                c = chr(e).upper() if up else chr(e).lower()
                out += [ord(x) for x in c]
            else:
                if it.truth(z3.UGE(e, 128)):
                    raise Unsupported('case of a non-ASCII character')
                out.append(z3.simplify(z3.If(z3.And(z3.UGE(e, lo), z3.ULE(e, hi)), e + d, e)))
        return mkstr(out)
    return f


def s_split(it, o, a, arg):
    es = elems(it.expand(o))
    if arg(0) == '':
        return Arr(it, [mkstr([e]) for e in es])
    if arg(0) is UNDEF:
        return Arr(it, [o])
    t = elems(arg(0))
    out, cur, i = [], [], 0
    while i < len(es):
        if i + len(t) <= len(es) and it.truth(it.equal(mkstr(es[i:i + len(t)]), mkstr(t))):
            out.append(mkstr(cur))
            cur = []
            i += len(t)
        else:
            cur.append(es[i])
            i += 1
    return Arr(it, out + [mkstr(cur)])


def s_starts(it, o, a, arg):
    es, t = elems(it.expand(o)), elems(it.expand(arg(0)))
    p = clampidx(it, arg(1), len(es), 0)
    return it.equal(mkstr(es[p:p + len(t)]), mkstr(t)) if p + len(t) <= len(es) else False


def s_ends(it, o, a, arg):
    es, t = elems(it.expand(o)), elems(it.expand(arg(0)))
    return it.equal(mkstr(es[len(es) - len(t):]), mkstr(t)) if len(t) <= len(es) else False


def s_includes(it, o, a, arg):
    es, t = elems(it.expand(o)), elems(it.expand(arg(0)))
    cs = []
    for i in range(clampidx(it, arg(1), len(es), 0), len(es) - len(t) + 1):
        c = it.equal(mkstr(es[i:i + len(t)]), mkstr(t))
        if c is True:
            return True
        if c is not False:
            cs.append(c)
    return sb(z3.Or(*cs)) if cs else False


MERGED = ('indexOf', 'lastIndexOf')
STR = {
    'charCodeAt': s_code, 'codePointAt': s_code, 'slice': s_slice, 'substring': s_substring, 'substr': s_substr,
    'padStart': s_pad(True), 'padEnd': s_pad(False), 'trim': s_trim(1, 1), 'trimStart': s_trim(1, 0), 'trimEnd': s_trim(0, 1),
    'toUpperCase': s_case(True), 'toLowerCase': s_case(False), 'split': s_split, 'startsWith': s_starts, 'endsWith': s_ends,
    'includes': s_includes,
    'indexOf': lambda it, o, a, arg: find(it, o, it.tostr(arg(0)), clampidx(it, arg(1), len(elems(it.expand(o))), 0)),
    'lastIndexOf': lambda it, o, a, arg: find(it, o, it.tostr(arg(0)), 0, True),
    'charAt': lambda it, o, a, arg: s_slice(it, o, a, lambda i, d=UNDEF: a[0] if i == 0 else it.arith('+', a[0], 1)),
    'at': lambda it, o, a, arg: get(it, o, it.concrete(arg(0)) + (len(elems(it.expand(o))) if it.concrete(arg(0)) < 0 else 0)),
    'concat': lambda it, o, a, arg: it.join_str([o] + [it.tostr(x) for x in a], ''),
    'repeat': lambda it, o, a, arg: mkstr(elems(o) * it.concrete(arg(0))),
    'toString': lambda it, o, a, arg: o, 'valueOf': lambda it, o, a, arg: o,
    'match': lambda it, o, a, arg: (Arr(it, [o]) if it.truth(regex_test(it, arg(0), o)) else NULL),
    'search': lambda it, o, a, arg: s_search(it, o, arg(0)),
    'localeCompare': lambda it, o, a, arg: unsupported('localeCompare'),
}


def s_search(it, o, r):
    for i, e in enumerate(elems(it.expand(o))):
        if it.truth(regex_test(it, r, mkstr([e]))):
            return i
    return -1


def unsupported(w):
    raise Unsupported(w)


# --- arrays -----------------------------------------------------------------------

def a_push(it, o, a, arg):
    it.touch(o.serial)
    o.items += a
    return len(o.items)


def a_pop(i):
    def f(it, o, a, arg):
        it.touch(o.serial)
        return o.items.pop(i) if o.items else UNDEF
    return f


def a_find(what):
    def f(it, o, a, arg):
        for i, x in enumerate(o.items):
            if it.truth(it.call(a[0], [x, i, o])):
                return x if what == 'v' else i if what == 'i' else True
        return UNDEF if what == 'v' else -1 if what == 'i' else False
    return f


def a_reduce(it, o, a, arg):
    xs = list(o.items)
    acc = a[1] if len(a) > 1 else xs.pop(0)
    for i, x in enumerate(xs):
        acc = it.call(a[0], [acc, x, i, o])
    return acc


def a_index(it, o, x):
    for i, y in enumerate(o.items):
        if it.truth(it.equal(x, y)):
            return i
    return -1


def a_reverse(it, o, a, arg):
    it.touch(o.serial)
    o.items.reverse()
    return o


def a_each(it, o, a, arg):
    for i, x in enumerate(o.items):
        it.call(a[0], [x, i, o])
    return UNDEF


ARR = {
    'push': a_push, 'pop': a_pop(-1), 'shift': a_pop(0), 'reverse': a_reverse, 'reduce': a_reduce, 'forEach': a_each,
    'find': a_find('v'), 'findIndex': a_find('i'), 'some': a_find('b'),
    'every': lambda it, o, a, arg: all(it.truth(it.call(a[0], [x, i, o])) for i, x in enumerate(o.items)),
    'map': lambda it, o, a, arg: Arr(it, [it.call(a[0], [x, i, o]) for i, x in enumerate(o.items)]),
    'filter': lambda it, o, a, arg: Arr(it, [x for i, x in enumerate(o.items) if it.truth(it.call(a[0], [x, i, o]))]),
    'join': lambda it, o, a, arg: it.join_str([it.tostr(x) for x in o.items], it.tostr(arg(0, ','))),
    'slice': lambda it, o, a, arg: Arr(it, o.items[clampidx(it, arg(0), len(o.items), 0):clampidx(it, arg(1), len(o.items), len(o.items))]),
    'concat': lambda it, o, a, arg: Arr(it, o.items + [y for x in a for y in (x.items if isinstance(x, Arr) else [x])]),
    'indexOf': lambda it, o, a, arg: a_index(it, o, arg(0)),
    'includes': lambda it, o, a, arg: a_index(it, o, arg(0)) >= 0,
    'entries': lambda it, o, a, arg: Arr(it, [Arr(it, [i, x]) for i, x in enumerate(o.items)]),
    'keys': lambda it, o, a, arg: Arr(it, list(range(len(o.items)))),
    'values': lambda it, o, a, arg: Arr(it, list(o.items)),
    'at': lambda it, o, a, arg: o.items[it.concrete(arg(0))] if -len(o.items) <= it.concrete(arg(0)) < len(o.items) else UNDEF,
}


# --- globals ----------------------------------------------------------------------

def big(it, a):
    v = a[0]
    if kind_of(v) == 'big':
        return v
    if isinstance(v, Sym):
        return Sym('big', v.bv, v.lo, v.hi)
    if isinstance(v, bool):
        return Big(int(v))
    if isinstance(v, Fp):
        raise Unsupported('BigInt of a symbolic double')
    if isinstance(v, str):
        try:
            return Big(int(v.strip() or '0', 0 if v.strip()[:2].lower() in ('0x', '0o', '0b') else 10))
        except ValueError:
            raise JSThrow('SyntaxError: Cannot convert to a BigInt')
    if isinstance(v, S):
        return sym_bigint(it, v)
    if kind_of(v) == 'num':
        if not is_conc_int(v) and not (isinstance(v, float) and v.is_integer()):
            raise JSThrow('RangeError: not an integer')
        return Big(int(v))
    raise JSThrow('TypeError: Cannot convert to a BigInt')


def sym_bigint(it, s):
    """BigInt of a symbolic string: decimal digits with an optional sign only"""
    es = list(elems(it.expand(s)))
    neg = False
    while es and it.truth(charclass(it, es[0], JSWS)):
        es.pop(0)
    while es and it.truth(charclass(it, es[-1], JSWS)):
        es.pop()
    if not es:
        return Big(0)
    if len(es) > 1 and it.truth(charclass(it, es[0], lambda c: c in (43, 45))):
        neg = it.truth(charclass(it, es[0], lambda c: c == 45))
        es.pop(0)
    r = Big(0)
    if len(es) > 2 and it.truth(it.equal(mkstr(es[:1]), '0')) and it.truth(charclass(it, es[1], lambda c: chr(c) in 'xXoObB')):
        raise Unsupported('BigInt of a prefixed string')
    for e in es:
        if not it.truth(charclass(it, e, lambda c: 48 <= c <= 57)):
            raise JSThrow('SyntaxError: Cannot convert to a BigInt')
        r = it.iarith('big', '+', it.iarith('big', '*', r, Big(10)), digit(e))
    return it.unary('-', r) if neg else r


def digit(e):
    if isinstance(e, int):
        return Big(e - 48)
    return mk('big', z3.ZeroExt(1, z3.Extract(3, 0, code_bv(e) - 48)), 0, 9)


def number(it, a):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, Big):
        return num(float(v.v)) if abs(v.v) > 2 ** 53 else v.v
    if isinstance(v, Sym) and v.kind == 'big':
        lim = 2 ** 53
        if -lim <= v.lo and v.hi <= lim:
            return Sym('num', v.bv, v.lo, v.hi)
        w = v.bv.size() + 1
        x = v.ext(w)
        if it.truth(sb(z3.And(x <= z3.BitVecVal(lim, w), x >= z3.BitVecVal(-lim, w)))):
            return mk('num', x, max(v.lo, -lim), min(v.hi, lim))
        return mkfp(z3.fpSignedToFP(RNE, v.bv, z3.Float64()))
    if isinstance(v, S):
        b = None
        try:
            b = sym_bigint(it, v)
        except JSThrow:
            raise Unsupported('Number of a symbolic string')
        return number(it, [b])
    return it.number(v)


def parse_int(it, a):
    s = it.expand(it.tostr(a[0]))
    base = it.number(a[1]) if len(a) > 1 and a[1] is not UNDEF else 0
    base = it.concrete(base, 'base')
    if isinstance(base, float):
        base = 0
    es = list(elems(s))
    while es and it.truth(charclass(it, es[0], JSWS)):
        es.pop(0)
    neg = False
    if es and it.truth(charclass(it, es[0], lambda c: c in (43, 45))):
        neg = it.truth(charclass(it, es[0], lambda c: c == 45))
        es.pop(0)
    if base != 0 and not 2 <= base <= 36:
        return float('nan')
    if base in (0, 16) and len(es) >= 2 and it.truth(charclass(it, es[0], lambda c: c == 48)) and it.truth(
            charclass(it, es[1], lambda c: c in (120, 88))):
        es = es[2:]
        base = 16
    if base == 0:
        base = 10

    def dv(c):
        return c - 48 if 48 <= c <= 57 else c - 87 if 97 <= c <= 122 else c - 55 if 65 <= c <= 90 else 99
    r = Big(0)
    n = 0
    for e in es:
        if not it.truth(charclass(it, e, lambda c: dv(c) < base)):
            break
        if isinstance(e, int):
            d = Big(dv(e))
        else:
            b = code_bv(e)
            d = mk('big', z3.ZeroExt(1, z3.Extract(7, 0, z3.If(z3.ULE(b, 57), b - 48, z3.If(z3.UGE(b, 97), b - 87, b - 55)))), 0, 35)
        r = it.iarith('big', '+', it.iarith('big', '*', r, Big(base)), d)
        n += 1
    if n == 0:
        return float('nan')
    return number(it, [it.unary('-', r) if neg else r])


def as_n(signed):
    def f(it, a):
        n = it.concrete(a[0])
        v = a[1]
        if kind_of(v) != 'big':
            raise JSThrow('TypeError: not a BigInt')
        if n == 0:
            return Big(0)
        if isinstance(v, Big):
            r = v.v & ((1 << n) - 1)
            return Big(r - (1 << n) if signed and r >> (n - 1) else r)
        if signed and -(1 << (n - 1)) <= v.lo and v.hi < (1 << (n - 1)):
            return v
        if not signed and 0 <= v.lo and v.hi < (1 << n):
            return v
        b = v.ext(n)
        if signed:
            return mk('big', b, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        return from_unsigned('big', b)
    return f


def from_char(it, a):
    out = []
    for v in a:
        v = it.number(v)
        if kind_of(a[0]) == 'big':
            raise JSThrow('TypeError: Cannot convert a BigInt value to a number')
        if isinstance(v, Sym):
            out.append(z3.simplify(v.ext(16)))
        elif isinstance(v, float):
            out.append(int(v) & 0xffff if v == v and abs(v) != math.inf else 0)
        elif isinstance(v, Fp):
            raise Unsupported('fromCharCode of a symbolic double')
        else:
            out.append(ival(v) & 0xffff)
    return mkstr(out)


def is_nan(it, a):
    v = a[0] if a else UNDEF
    if isinstance(v, Fp):
        return sb(z3.fpIsNaN(v.fp()))
    return isinstance(v, float) and v != v


def is_finite(it, a):
    v = a[0] if a else UNDEF
    if isinstance(v, Fp):
        return sb(z3.Not(z3.Or(z3.fpIsNaN(v.fp()), z3.fpIsInf(v.fp()))))
    if kind_of(v) != 'num':
        return False
    return isinstance(v, Sym) or not (isinstance(v, float) and (v != v or abs(v) == math.inf))


def is_integer(it, a):
    v = a[0] if a else UNDEF
    if isinstance(v, Fp):
        x = v.fp()
        return sb(z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)), z3.fpRoundToIntegral(z3.RTZ(), x) == x))
    return kind_of(v) == 'num' and (isinstance(v, Sym) or is_conc_int(v) or isinstance(v, float) and v.is_integer())


def obj_is(it, a):
    x, y = a[0], a[1]
    if kind_of(x) in ('num', 'fp') and kind_of(y) in ('num', 'fp'):
        if isinstance(x, Fp) or isinstance(y, Fp):
            b = lambda v: v.bits if isinstance(v, Fp) else mkfp(to_fp(v)).bits
            return sb(z3.Or(b(x) == b(y), z3.And(z3.fpIsNaN(to_fp(x)), z3.fpIsNaN(to_fp(y)))))
        if isinstance(x, Sym) or isinstance(y, Sym):
            for v in (x, y):
                if isinstance(v, float):
                    return False
            return it.equal(x, y)
        if x != x and y != y:
            return True
        return x == y and math.copysign(1, x) == math.copysign(1, y)
    return it.equal(x, y)


def math_fn(name):
    def f(it, a):
        vs = [it.number(v) for v in a]
        if any(kind_of(v) == 'big' for v in a):
            raise JSThrow('TypeError: Cannot convert a BigInt value to a number')
        if name in ('floor', 'trunc', 'ceil', 'round'):
            v = vs[0]
            if isinstance(v, Sym) or is_conc_int(v):
                return v
            if isinstance(v, Fp):
                if name == 'round':
                    raise Unsupported('Math.round')
                m = {'floor': z3.RTN(), 'trunc': z3.RTZ(), 'ceil': z3.RTP()}[name]
                return mkfp(z3.fpRoundToIntegral(m, v.fp()))
            if v != v or abs(v) == math.inf:
                return v
            return num(float({'floor': math.floor, 'trunc': math.trunc, 'ceil': math.ceil,
                              'round': lambda x: math.floor(x + 0.5)}[name](v)))
        if name == 'abs':
            v = vs[0]
            if isinstance(v, Fp):
                return mkfp(z3.fpAbs(v.fp()))
            if isinstance(v, Sym):
                return v if not it.truth(it.compare('<', v, 0)) else it.unary('-', v)
            return abs(v)
        if name in ('min', 'max'):
            r = vs[0]
            for v in vs[1:]:
                if it.truth(it.compare('<' if name == 'min' else '>', v, r)):
                    r = v
            return r
        if name == 'pow':
            return it.arith('**', vs[0], vs[1])
        if name == 'sign':
            v = vs[0]
            return -1 if it.truth(it.compare('<', v, 0)) else 1 if it.truth(it.compare('>', v, 0)) else 0
        if any(isinstance(v, (Sym, Fp)) for v in vs):
            raise Unsupported('Math.' + name)
        return num(float(getattr(math, name)(*vs)))
    return f


def write_out(it, a):
    """process.stdout.write(string or bytes[, encoding]): bytes of the output"""
    it.effect()
    v = a[0]
    enc = a[1] if len(a) > 1 and isinstance(a[1], str) else 'utf8'
    if isinstance(v, View):
        it.out += [mkbyte(load(it, v, i)) for i in range(v.length)]
        return True
    if not is_str(v):
        raise JSThrow('TypeError: The "chunk" argument must be of type string')
    it.out += encode(it, v, enc)
    return True


def mkbyte(x):
    return x if isinstance(x, int) else z3.simplify(z3.ZeroExt(8, x.ext(8)))


def encode(it, s, enc):
    out = []
    for e in elems(s):
        if isinstance(e, (Dec, Dig)):
            out.append(e)
        elif enc in ('latin1', 'binary'):
            out.append(e & 255 if isinstance(e, int) else z3.simplify(e & 255))
        elif enc == 'ascii':
            out.append(e & 255 if isinstance(e, int) else z3.simplify(e & 255))
        elif isinstance(e, int):
            out += list(chr(e).encode('utf8', 'replace'))
        elif it.truth(z3.ULT(e, 128)):
            out.append(e)
        elif it.truth(z3.ULT(e, 0x800)):
            out += [z3.simplify(0xc0 | z3.LShR(e, 6)), z3.simplify(0x80 | (e & 63))]
        else:
            raise Unsupported('three-byte UTF-8')
    return out


def console_log(it, a):
    it.effect()
    it.console.append(a)
    it.out += list(elems(it.join_str([it.tostr(x) for x in a], ' '))) + [10]
    return UNDEF


def do_exit(it, a):
    it.effect()
    it.exit = a[0] if a else 0
    raise Exit(it.exit)


def construct(it, f, a):
    n = f.name if isinstance(f, Native) else None
    if n in VIEWS:
        if not a:
            return View(n, Buf(it, 0, lambda q: 0))
        v = a[0]
        if isinstance(v, Memory):
            v = v.buf
        if isinstance(v, Buf):
            return View(n, v, it.concrete(a[1]) if len(a) > 1 and a[1] is not UNDEF else 0,
                        it.concrete(a[2]) if len(a) > 2 and a[2] is not UNDEF else None)
        if isinstance(v, (Arr, View)) or is_str(v):
            items = list(iterate(it, v))
            r = View(n, Buf(it, len(items) * VIEWS[n][0], lambda q: 0))
            for i, x in enumerate(items):
                store(it, r, i * r.n, x)
            return r
        k = it.concrete(v)
        return View(n, Buf(it, k * VIEWS[n][0], lambda q: 0))
    if n == 'ArrayBuffer':
        return Buf(it, it.concrete(a[0]), lambda q: 0)
    if n == 'Array':
        return Arr(it, [UNDEF] * it.concrete(a[0]) if len(a) == 1 else list(a))
    if n == 'Error' or n and n.endswith('Error'):
        return Obj(it, {'message': a[0] if a else ''})
    if n == 'TextEncoder':
        def enc(it_, b):
            bs = encode(it_, it_.tostr(b[0]), 'utf8')
            r = View('Uint8Array', Buf(it_, len(bs), lambda q: 0))
            for i, x in enumerate(bs):
                r.buf.b[i] = x if isinstance(x, int) else z3.simplify(z3.Extract(7, 0, code_bv(x)))
            return r
        return Obj(it, {'encode': Native(enc)})
    if n == 'TextDecoder':
        raise Unsupported('TextDecoder')
    if n == 'Memory':
        return it.make_memory(a)
    if n == 'Object':
        return Obj(it)
    raise Unsupported('new ' + str(n))


def buffer_from(it, a):
    if is_str(a[0]):
        enc = a[1] if len(a) > 1 else 'utf8'
        bs = encode(it, a[0], enc)
        r = View('Uint8Array', Buf(it, len(bs), lambda q: 0))
        for i, x in enumerate(bs):
            if isinstance(x, Dec):
                raise Unsupported('buffer of a number')
            r.buf.b[i] = x if isinstance(x, int) else z3.simplify(z3.Extract(7, 0, code_bv(x)))
        return r
    return construct(it, Native(None, 'Uint8Array'), a)


def make_globals(it):
    N = Native
    g = {}
    for k in VIEWS:
        g[k] = N(None, k)
    g['Uint8Array'].props['from'] = N(lambda i, a: construct(i, Native(None, 'Uint8Array'), a))
    for k in ('ArrayBuffer', 'TextEncoder', 'TextDecoder', 'Error', 'TypeError', 'RangeError'):
        g[k] = N((lambda name: lambda i, a: construct(i, Native(None, name), a))(k), k)
    g['BigInt'] = N(big, 'BigInt', {'asIntN': N(as_n(True)), 'asUintN': N(as_n(False))})
    g['Number'] = N(number, 'Number', {
        'isNaN': N(is_nan), 'isFinite': N(is_finite), 'isInteger': N(is_integer), 'MAX_SAFE_INTEGER': 2 ** 53 - 1,
        'MIN_SAFE_INTEGER': -(2 ** 53) + 1, 'NaN': float('nan'), 'POSITIVE_INFINITY': math.inf,
        'NEGATIVE_INFINITY': -math.inf, 'parseInt': N(parse_int),
        'isSafeInteger': N(lambda i, a: kind_of(a[0]) == 'num' and (isinstance(a[0], Sym) or is_conc_int(a[0]) and abs(ival(a[0])) < 2 ** 53))})
    g['String'] = N(lambda i, a: i.tostr(a[0]) if a else '', 'String', {'fromCharCode': N(from_char), 'fromCodePoint': N(from_char)})
    g['Boolean'] = N(lambda i, a: i.boolean(a[0]) if a else False)
    g['Array'] = N(lambda i, a: construct(i, Native(None, 'Array'), a), 'Array', {
        'from': N(array_from), 'isArray': N(lambda i, a: isinstance(a[0], Arr)), 'of': N(lambda i, a: Arr(i, list(a)))})
    g['Object'] = N(None, 'Object', {
        'is': N(obj_is), 'keys': N(lambda i, a: Arr(i, list(a[0].props))), 'freeze': N(lambda i, a: a[0]),
        'values': N(lambda i, a: Arr(i, list(a[0].props.values()))),
        'entries': N(lambda i, a: Arr(i, [Arr(i, [k, v]) for k, v in a[0].props.items()])),
        'assign': N(obj_assign)})
    g['Math'] = Obj(it, {k: N(math_fn(k)) for k in ('floor', 'trunc', 'ceil', 'round', 'abs', 'min', 'max', 'pow', 'sign',
                                                     'log2', 'log10', 'sqrt')})
    g['isNaN'] = N(lambda i, a: is_nan(i, [i.number(a[0])]))
    g['isFinite'] = N(lambda i, a: is_finite(i, [i.number(a[0])]))
    g['parseInt'] = g['Number'].props['parseInt']
    g['NaN'], g['Infinity'] = float('nan'), math.inf
    g['console'] = Obj(it, {k: N(console_log) for k in ('log',)} | {k: N(lambda i, a: UNDEF) for k in ('error', 'warn', 'debug')})
    g['process'] = Obj(it, {
        'stdout': Obj(it, {'write': N(write_out)}), 'stderr': Obj(it, {'write': N(lambda i, a: True)}),
        'argv': Arr(it, it.argv), 'exit': N(do_exit), 'env': Obj(it, {}), 'exitCode': UNDEF})
    g['Buffer'] = N(None, 'Buffer', {'from': N(buffer_from), 'concat': N(lambda i, a: unsupported('Buffer.concat'))})
    g['Date'] = N(None, 'Date', {'now': N(lambda i, a: 1700000000000)})
    g['WebAssembly'] = Obj(it, {'Memory': N(None, 'Memory'), 'instantiate': N(instantiate),
                                'Module': N(None, 'Module')})
    g['globalThis'] = Obj(it, g)
    return g


def obj_assign(it, a):
    it.touch(a[0].serial)
    for x in a[1:]:
        a[0].props.update(x.props)
    return a[0]


def array_from(it, a):
    v = a[0]
    xs = [UNDEF] * it.concrete(v.props['length']) if isinstance(v, Obj) else list(iterate(it, v))
    if len(a) > 1:
        xs = [it.call(a[1], [x, i]) for i, x in enumerate(xs)]
    return Arr(it, xs)


def instantiate(it, a):
    """WebAssembly.instantiate(bytes, imports): the module is the harness"""
    it.effect()
    imports = a[1]
    main = Native(lambda i, b: i.wasm_main(i, imports, b))
    inst = Obj(it, {'exports': Obj(it, {'main': main})})
    return Obj(it, {'instance': inst, 'module': Obj(it), 'exports': inst.props['exports']})


def append_file(it, a):
    it.effect()
    it.files.append((a[0], a[1]))
    return UNDEF


def builtin_module(it, name):
    N = Native
    name = name.replace('node:', '')
    if name == 'fs':
        def ws(i, a):
            if a[0] == 1:
                write_out(i, a[1:])
                return i.strlen(a[1]) if is_str(a[1]) else a[1].length
            return 0
        return {'readFileSync': N(lambda i, a: Obj(i)), 'appendFileSync': N(append_file), 'writeFileSync': N(append_file),
                'writeSync': N(ws)}
    if name == 'path':
        import posixpath
        return {'basename': N(lambda i, a: posixpath.basename(a[0])), 'dirname': N(lambda i, a: posixpath.dirname(a[0])),
                'join': N(lambda i, a: posixpath.normpath(posixpath.join(*a)))}
    if name == 'url':
        return {'fileURLToPath': N(lambda i, a: a[0].replace('file://', '')), 'pathToFileURL': N(lambda i, a: Obj(i, {'href': a[0]}))}
    if name == 'process':
        p = it.globals.vars['process']
        return dict(p.props, default=p)
    raise Unsupported('module ' + name)
