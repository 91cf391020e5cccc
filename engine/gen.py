"""Systematic program generators, one per property. Every function yields
(name, source) pairs; the programs are the same on every run."""
import itertools
import random

from corpus import wrap

# name -> (declaration, input expression or None, width, signed)
TY = {
    'char': ('char', 'in_char()', 8, True),
    'uchar': ('unsigned char', 'in_uchar()', 8, False),
    'short': ('short', None, 16, True),
    'ushort': ('unsigned short', None, 16, False),
    'int': ('int', 'in_int()', 32, True),
    'uint': ('unsigned int', 'in_uint()', 32, False),
    'long': ('long', 'in_long()', 64, True),
    'ulong': ('unsigned long', 'in_ulong()', 64, False),
    'double': ('double', 'in_double()', 64, True),
}
INTS = ['char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']
WIDE = ['int', 'uint', 'long', 'ulong']
SPEC = {'int': '%d', 'uint': '%u', 'long': '%ld', 'ulong': '%lu', 'double': '%f'}


def cdecl(t):
    return TY[t][0]


def decl(t, v):
    """declare v of type t holding an arbitrary value"""
    d, i, w, s = TY[t]
    if i:
        return '%s %s=%s;' % (d, v, i)
    return 'int t_%s=in_int(); %s %s=*(%s*)&t_%s;' % (v, d, v, d, v)


def promote(t):
    if t == 'double':
        return t
    return 'int' if TY[t][2] < 32 else t


def usual(a, b):
    if 'double' in (a, b):
        return 'double'
    a, b = promote(a), promote(b)
    if a == b:
        return a
    rank = {'int': 0, 'uint': 1, 'long': 2, 'ulong': 3}
    return a if rank[a] > rank[b] else b


def pr(t, e):
    return 'printf("%s\\n",%s);' % (SPEC[promote(t)], e)


def prs(items):
    return 'printf("%s\\n",%s);' % (' '.join(SPEC[promote(t)] for t, _ in items), ','.join(e for _, e in items))


CONSTS = {
    'char': ['0', '1', '-1', '63', '64', '127', '-128', '128', '255', "'a'"],
    'int': ['0', '1', '-1', '63', '64', '-64', '-65', '127', '128', '8191', '8192', '-8193', '65535', '65536',
            '1048575', '1048576', '134217727', '134217728', '2147483647', '-2147483647', '0x7fff', '0x80'],
    'uint': ['0', '1', '128', '65535', '2147483647', '0xffffffff', '0x80000000', '0xfffffffe', '037777777777'],
    'long': ['0', '1', '-1', '127', '128', '2147483647', '-4294967296', '4294967296', '4294967297',
             '34359738367', '34359738368', '4398046511103', '4398046511104', '562949953421311', '562949953421312',
             '72057594037927935', '72057594037927936', '9223372036854775807', '-9223372036854775807'],
    'ulong': ['0', '1', '255', '0xffffffff', '4294967296', '9223372036854775807', '0x8000000000000000',
              '0xffffffffffffffff', '01777777777777777777777'],
}


# --- C01 integer arithmetic --------------------------------------------------------

def c01(thorough=False):
    for a, b in itertools.product(INTS, INTS):
        t = usual(a, b)
        d = decl(a, 'a') + decl(b, 'b')
        yield 'ops_%s_%s' % (a, b), wrap(d + prs([(t, 'a+b'), (t, 'a-b'), (t, 'b-a')]) +
                                         prs([(t, 'a&b'), (t, 'a|b'), (t, 'a^b')]))
        yield 'mul_%s_%s' % (a, b), wrap(d + pr(t, 'a*b'))
        yield 'div_%s_%s' % (a, b), wrap(d + pr(t, 'a/b') + pr(t, 'a%b'))
        yield 'shift_%s_%s' % (a, b), wrap(d + pr(a, 'a<<b') + pr(a, 'a>>b'))
    for a in INTS:
        yield 'unary_%s' % a, wrap(decl(a, 'a') + prs([(a, '-a'), (a, '~a'), (a, '+a'), ('int', '!a')]) +
                                   prs([(a, '-(-a)'), (a, '~~a'), (a, '-~a'), (a, '~-a')]))
    for a in ['char', 'int', 'uint', 'long', 'ulong']:
        cs = CONSTS[a]
        for op in ['+', '-', '*', '/', '%', '&', '|', '^']:
            for k in range(0, len(cs), 5):
                ex = []
                for c in cs[k:k + 5]:
                    ct = ctype(c, a)
                    if not (op in '/%' and c in ('0', '-1')):
                        ex.append(pr(usual(a, ct), 'a%s%s' % (op, '(%s)' % c)))
                    if op not in '/%':
                        ex.append(pr(usual(a, ct), '(%s)%sa' % (c, op)))
                yield 'const_%s_%s_%d' % (a, NAMES[op], k), wrap(decl(a, 'a') + '\n'.join(ex))
        w = 64 if 'long' in a else 32
        yield 'shconst_%s' % a, wrap(decl(a, 'a') + '\n'.join(
            prs([(a, 'a<<%d' % k), (a, 'a>>%d' % k)]) for k in [0, 1, 7, 8, 15, 16, 31] + ([32, 33, 63] if w == 64 else [])))
        yield 'constsh_%s' % a, wrap(decl(a, 'a') + '\n'.join(
            pr(ctype(c, a), '(%s)>>a' % c) for c in cs[:6]))
    rnd = random.Random(101)
    for i in range(60 if not thorough else 400):
        yield 'expr%d' % i, wrap(rand_expr_prog(rnd))


NAMES = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl',
         '>>': 'shr', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne', '&&': 'land', '||': 'lor'}


def ctype(c, want='int'):
    """type of a constant as the C standard has it (64-bit long); hexadecimal may be unsigned"""
    s = c.strip('()')
    neg = s.startswith('-')
    s = s.lstrip('-')
    if s.startswith("'"):
        return 'int'
    suf = ''
    while s[-1] in 'uUlL':
        suf += s[-1].lower()
        s = s[:-1]
    v = int(s, 8) if s[0] == '0' and s.isdigit() else int(s, 0)
    hexa = s.lower().startswith('0x') or (s.startswith('0') and len(s) > 1)
    if 'u' in suf:
        return 'ulong' if 'l' in suf or v >= 2 ** 32 else 'uint'
    if 'l' in suf:
        return 'long' if v < 2 ** 63 else 'ulong'
    if v < 2 ** 31:
        return 'int'
    if hexa and v < 2 ** 32:
        return 'uint'
    if v < 2 ** 63:
        return 'long'
    return 'ulong'


def rand_expr(rnd, vs, depth):
    """random integer expression over typed variables; returns (text, type)"""
    if depth == 0 or rnd.random() < 0.12:
        if rnd.random() < 0.75:
            v, t = rnd.choice(vs)
            return v, promote(t)
        t = rnd.choice(['int', 'long', 'ulong', 'int', 'int'])
        c = rnd.choice(CONSTS[t])
        return '(%s)' % c, ctype(c)
    r = rnd.random()
    if r < 0.12:
        e, t = rand_expr(rnd, vs, depth - 1)
        o = rnd.choice('-~!')
        return ('%s(%s)' % (o, e), 'int' if o == '!' else t)
    if r < 0.24:
        e, t = rand_expr(rnd, vs, depth - 1)
        t2 = rnd.choice(['char', 'uchar', 'int', 'uint', 'long', 'ulong'])
        return '(%s)(%s)' % (cdecl(t2), e), promote(t2)
    if r < 0.34:
        c, _ = rand_expr(rnd, vs, depth - 1)
        e, t = rand_expr(rnd, vs, depth - 1)
        f, u = rand_expr(rnd, vs, depth - 1)
        return '((%s)?(%s):(%s))' % (c, e, f), usual(t, u)
    e, t = rand_expr(rnd, vs, depth - 1)
    f, u = rand_expr(rnd, vs, depth - 1)
    if r < 0.44:
        o = rnd.choice(['<', '>', '<=', '>=', '==', '!='])
        return '((%s)%s(%s))' % (e, o, f), 'int'
    if r < 0.50:
        return '((%s)%s(%s))' % (e, rnd.choice(['&&', '||']), f), 'int'
    if r < 0.58:
        k = rnd.randint(0, 31)
        return '((%s)%s%d)' % (e, rnd.choice(['<<', '>>']), k), t
    if r < 0.64:
        return '((%s)%s%d)' % (e, rnd.choice('/%'), rnd.choice([3, 7, 16, 10])), usual(t, 'int')
    if r < 0.70:
        return '((%s)*%d)' % (e, rnd.choice([2, 3, 5, -7, 100])), usual(t, 'int')
    return '((%s)%s(%s))' % (e, rnd.choice('+-&|^'), f), usual(t, u)


def rand_expr_prog(rnd):
    ts = [rnd.choice(INTS) for _ in range(4)]
    vs = [('v%d' % i, t) for i, t in enumerate(ts)]
    s = ''.join(decl(t, v) for v, t in vs) + '\n'
    for _ in range(3):
        e, t = rand_expr(rnd, vs, 3)
        s += pr(t, e) + '\n'
    return s


# --- C02 conversions ----------------------------------------------------------------

def c02(thorough=False):
    for f, t in itertools.product(INTS, INTS):
        if t in ('short', 'ushort') and (f in WIDE or f in ('short', 'ushort') and f != t):
            continue        # the compiler does not accept narrowing to short
        s = '''%(T)s g; %(T)s arr[2]; struct S { char pad; %(T)s m; char tail; }; struct S gs;
%(T)s ret(%(F)s x) { return x; }
void arg(%(T)s x) { %(px)s }
int main(int argc, char **argv) {
%(D)s
%(T)s l = a; %(pl)s
l = a; %(pl)s
%(pc)s
g = a; %(pg)s
arr[1] = a; %(pa)s
gs.pad = 1; gs.tail = 2; gs.m = a; %(pm)s printf("%%d %%d\\n", gs.pad, gs.tail);
%(T)s *p = &l; *p = a; %(pl)s
%(pr)s
arg(a);
return 0; }
''' % dict(T=cdecl(t), F=cdecl(f), D=decl(f, 'a'), px=pr(t, 'x'), pl=pr(t, 'l'), pc=pr(t, '(%s)a' % cdecl(t)),
           pg=pr(t, 'g'), pa=pr(t, 'arr[1]'), pm=pr(t, 'gs.m'), pr=pr(t, 'ret(a)'))
        yield 'conv_%s_%s' % (f, t), s
    for f in INTS:
        for m in ['char', 'uchar', 'int', 'uint', 'long', 'ulong']:
            yield 'via_%s_%s' % (f, m), wrap(decl(f, 'a') + ''.join(
                pr(t, '(%s)(%s)a' % (cdecl(t), cdecl(m))) for t in ['char', 'uchar', 'int', 'uint', 'long', 'ulong']))
        yield 'cond_%s' % f, wrap(decl(f, 'a') + decl('long', 'b') + 'int c=in_int();' +
                                  pr(usual(f, 'long'), 'c?a:b') + pr(usual(f, 'int'), 'c?c:a') +
                                  pr(usual(f, 'ulong'), 'c?a:0x8000000000000005') + pr(usual(f, 'uint'), 'c?a:0x80000005'))
    for t in ['char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']:
        cs = ['0', '1', '-1', '127', '128', '255', '256', '-129', '65535', '65536', '-32769', '2147483647', '4294967296',
              '-4294967297', '1099511627775']
        if t in ('short', 'ushort'):
            cs = ['0', '1', '127', '255', '256', '32767']
        s = ''
        for i, c in enumerate(cs):
            s += '%s c%d=%s; %s\n' % (cdecl(t), i, c, pr(t, 'c%d' % i))
        yield 'cinit_%s' % t, wrap(s)


# --- C03 comparisons, logic -----------------------------------------------------------

CMP = ['<', '>', '<=', '>=', '==', '!=']


def c03(thorough=False):
    for a, b in itertools.product(INTS, INTS):
        d = decl(a, 'a') + decl(b, 'b')
        yield 'cmp_%s_%s' % (a, b), wrap(d + prs([('int', 'a%sb' % o) for o in CMP]))
        yield 'if_%s_%s' % (a, b), wrap(d + 'int r=0;' + ''.join(
            'if(a%sb) r+=%d; else r-=1;' % (o, 1 << i) for i, o in enumerate(CMP)) + pr('int', 'r'))
    for a in ['char', 'int', 'uint', 'long', 'ulong']:
        cs = CONSTS[a]
        for k in range(0, len(cs), 4):
            ex = ''
            for c in cs[k:k + 4]:
                ex += prs([('int', 'a%s%s' % (o, '(%s)' % c)) for o in CMP])
                ex += prs([('int', '(%s)%sa' % (c, o)) for o in CMP]) + '\n'
            yield 'ccmp_%s_%d' % (a, k), wrap(decl(a, 'a') + ex)
    for a in INTS:
        yield 'truth_%s' % a, wrap(decl(a, 'a') + '''int n=0; if(a) n+=1; if(!a) n+=2; n+= a?4:8; while(a){ n+=16; break; }
do { n+=32; if(n>200) break; } while(!a); for(;a;){ n+=1000; break; } if(!!a) n+=64; printf("%d %d\\n",n,!!a);''')
    for a, b in itertools.product(INTS, INTS):
        if a <= b:
            yield 'logic_%s_%s' % (a, b), wrap(decl(a, 'a') + decl(b, 'b') + '''
int n=0; if(a&&b) n+=1; if(a||b) n+=2; if(!a&&b) n+=4; if(a||!b) n+=8; printf("%d %d %d %d %d\\n",n,a&&b,a||b,!(a&&b),!(a||b));''')
    # short circuit: the right operand's side effects happen exactly when C says so
    conds = ['a>0 && t(1)', 'a>0 || t(1)', 'a>0 && t(1) && t(2)', 'a>0 || t(0) || t(2)', '(a>0 && t(0)) || t(3)',
             '(a>0 || t(0)) && t(3)', 't(a) && !t(b)', '!(t(a) || t(b))', 'a ? t(1) && b : t(2) || b',
             't(a && b) || t(a || b)', '(a>b && t(a)) + (a<b)', '3 - (a && t(1))', 't(a) == 1 && t(b) != 2',
             'a>0 && (b>0 ? t(1) : t(0))', '(a||b) ? t(1) : t(2)']
    for i, c in enumerate(conds):
        yield 'sc%d' % i, '''int t(int x) { printf("t%%d\\n", x); return x; }
int main(int argc, char **argv) { int a=in_int(), b=in_int(); int r = %(c)s; printf("%%d\\n", r);
if (%(c)s) printf("y\\n"); else printf("n\\n");
int k=0; while ((%(c)s) && k<2) { k++; a--; } printf("%%d\\n", k);
return 0; }
''' % dict(c=c)
    rnd = random.Random(303)
    for i in range(60 if not thorough else 300):
        yield 'bool%d' % i, bool_prog(rnd)


def rand_bool(rnd, depth):
    if depth == 0:
        return rnd.choice(['a', 'b', 'c', 'a>b', 'b>=c', 'a==c', 'c<5', 'a!=-1', 't(a)', 't(b)', 't(1)', 't(0)', '!c', 'u>3',
                           'u<a', 'l>a', 'l==b', '!l', 'l', 'ch', 'ch>b', '(n+=1)', '(n-=2)', 'n'])
    r = rnd.random()
    if r < 0.4:
        return '(%s && %s)' % (rand_bool(rnd, depth - 1), rand_bool(rnd, depth - 1))
    if r < 0.8:
        return '(%s || %s)' % (rand_bool(rnd, depth - 1), rand_bool(rnd, depth - 1))
    if r < 0.9:
        return '!%s' % rand_bool(rnd, depth - 1).join('()')
    return '(%s ? %s : %s)' % tuple(rand_bool(rnd, depth - 1) for _ in range(3))


def bool_prog(rnd):
    s = '''int n;
int t(int x) { printf("t%d\\n", x); return x; }
int main(int argc, char **argv) { int a=in_int(), b=in_int(), c=in_int(); unsigned int u=in_uint(); long l=in_long(); char ch=in_char();
'''
    for i in range(2):
        e = rand_bool(rnd, 3)
        s += rnd.choice(['if (%s) printf("y\\n"); else printf("n\\n");', 'printf("%%d\\n", %s);',
                         '{ int r = %s; printf("%%d\\n", r); }', '{ int r = 3; if (%s) r = 5; printf("%%d\\n", r); }',
                         'for (int i=0; i<2 && %s; i++) printf("%%d\\n", i);']) % e + '\n'
    return s + 'printf("%d\\n", n); return 0; }\n'


# --- C04 assignment operators ----------------------------------------------------------

def c04(thorough=False):
    lvs = [('local', '', '%(D)s', 'a'),
           ('global', '%(T)s g;\n', '%(D)s g=a;', 'g'),
           ('elem', '', '%(D)s %(T)s arr[3]; int i=in_int()&1; arr[0]=a; arr[1]=a; arr[2]=a;', 'arr[i]'),
           ('deref', '', '%(D)s %(T)s *p=&a;', '*p'),
           ('member', 'struct S { char c; %(T)s m; char d; };\n', '%(D)s struct S s; s.c=1; s.d=2; s.m=a;', 's.m'),
           ('arrow', 'struct S { char c; %(T)s m; char d; };\n',
            '%(D)s struct S s; struct S *p=&s; s.c=1; s.d=2; s.m=a;', 'p->m'),
           ('garr', '%(T)s ga[3];\n', '%(D)s int i=in_int()&1; ga[0]=a; ga[1]=a; ga[2]=a;', 'ga[i]')]
    ops = ['+=', '-=', '*=', '&=', '|=', '^=']
    for t in INTS:
        if t in ('short', 'ushort'):
            continue
        for n, pre, setup, lv in lvs:
            m = dict(D=decl(t, 'a'), T=cdecl(t))
            rest = {'elem': pr(t, 'arr[0]') + pr(t, 'arr[1]') + pr(t, 'arr[2]'),
                    'garr': pr(t, 'ga[0]') + pr(t, 'ga[1]') + pr(t, 'ga[2]'),
                    'member': 'printf("%d %d\\n",s.c,s.d);', 'arrow': 'printf("%d %d\\n",s.c,s.d);'}.get(n, '')
            for b in ['char', 'uint', 'long'] + (['int', 'uchar', 'ulong'] if n == 'local' else []):
                body = setup % m + decl(b, 'b') + ''.join(
                    '%s %s b; %s' % (lv, o, pr(t, lv)) for o in ops) + rest
                yield 'cmpd_%s_%s_%s' % (n, t, b), (pre % m) + wrap(body)
            body = setup % m + 'int b=in_int();' + '{ %s /= b; %s } { %s %%= b; %s }' % (lv, pr(t, lv), lv, pr(t, lv)) + rest
            yield 'cmpdiv_%s_%s' % (n, t), (pre % m) + wrap(body)
            body = setup % m + 'int b=in_int();' + '%s <<= 1; %s %s >>= b; %s' % (lv, pr(t, lv), lv, pr(t, lv)) + rest
            yield 'cmpsh_%s_%s' % (n, t), (pre % m) + wrap(body)
            body = setup % m + '%s x=%s++; %s y=++%s; %s z=%s--; %s w=--%s;' % tuple(
                k for _ in range(4) for k in (cdecl(t), '(%s)' % lv)) + prs(
                [(t, lv), (t, 'x'), (t, 'y'), (t, 'z'), (t, 'w')]) + '(%s)++; ++(%s); (%s)--; --(%s); (%s)++;' % ((lv,) * 5) + \
                pr(t, lv) + rest
            yield 'incdec_%s_%s' % (n, t), (pre % m) + wrap(body)
            body = setup % m + decl('long', 'b') + 'long v=(%s=b); long w=(%s+=3); printf("%%ld %%ld\\n",v,w);' % (lv, lv) + pr(t, lv) + rest
            yield 'asnval_%s_%s' % (n, t), (pre % m) + wrap(body)
    for a, b in itertools.product(['char', 'uchar', 'int', 'uint', 'long', 'ulong'], repeat=2):
        yield 'chain_%s_%s' % (a, b), wrap('%s a; %s b; long c; a=b=c=in_long();' % (cdecl(a), cdecl(b)) +
                                            prs([(a, 'a'), (b, 'b'), ('long', 'c')]) +
                                            'b=a=in_int(); a+=b+=3;' + prs([(a, 'a'), (b, 'b')]))


# --- C19 tail recursion ------------------------------------------------------------------

FMTS = {'char': '%d', 'uchar': '%d', 'int': '%d', 'uint': '%u', 'long': '%ld', 'ulong': '%lu'}


def c19(thorough=False):
    """self-tail-recursive functions of random signatures, arguments and positions"""
    rnd = random.Random(19)
    for k in range(400 if thorough else 60):
        ts = [rnd.choice(list(FMTS)) for _ in range(rnd.randint(1, 5))]
        ps = ['p%d' % i for i in range(len(ts))]
        ni = rnd.randint(0, len(ps))          # where the counter stands
        rt = rnd.choice(ts)
        sig = ['%s %s' % (cdecl(t), q) for t, q in zip(ts, ps)]
        sig.insert(ni, 'int n')

        def args(step):
            out = []
            for i, (t, q) in enumerate(zip(ts, ps)):
                same = [b for a, b in zip(ts, ps) if a == t]
                r = rnd.random()
                if r < 0.45:
                    out.append(rnd.choice(same))
                elif r < 0.6:
                    out.append(str(rnd.randint(0, 100)))
                elif r < 0.8:
                    out.append('%s+%d' % (q, rnd.randint(1, 9)))
                else:
                    out.append('%s^%s' % (q, rnd.choice(ps)))
            out.insert(ni, 'n-%d' % step)
            return ', '.join(out)
        pf = 'printf("%s\\n",%s);' % (' '.join(['%d'] + [FMTS[t] for t in ts]), ','.join(['n'] + ps))
        res = rnd.choice(ps)
        shape = k % 6
        call = lambda st=1: 'return f(%s);' % args(st)
        if shape == 0:
            body = '%s if(n<=0) return %s; %s' % (pf, res, call())
        elif shape == 1:
            body = '%s if(n>0){ if(n&1){ %s } else { %s } } return %s;' % (pf, call(), call(2), res)
        elif shape == 2:
            body = '%s switch(n){ case 0: return %s; case 1: %s case 2: case 3: %s default: %s }' % (
                pf, res, call(), call(2), call(3))
        elif shape == 3:
            body = 'while(n>0){ %s if(n==3) { n--; continue; } %s } return %s;' % (pf, call(), res)
        elif shape == 4:
            body = 'long t=%s; int q=n*2; %s if(n<=0) return %s; printf("%%ld %%d\\n",t,q); %s' % (
                rnd.choice(ps), pf, res, call())
        else:
            body = '%s if(n<=0) goto out; if(n>2) goto two; %s two: %s out: return %s;' % (pf, call(), call(2), res)
        ds = ''.join(decl(t, 'a%d' % i) for i, t in enumerate(ts))
        act = ['a%d' % i for i in range(len(ts))]
        act.insert(ni, 'm')
        yield 'tail%d' % k, '%s f(%s){ %s }\n' % (cdecl(rt), ', '.join(sig), body) + \
            'int main(int argc, char **argv){ %s int m=in_int()&7; %s r=f(%s); printf("r %s\\n",r); return 0; }\n' % (
                ds, cdecl(rt), ', '.join(act), FMTS[rt])


GENS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C19': c19}


# --- C21 big modules -----------------------------------------------------------------------

def c21(thorough=False):
    """modules whose counts, sizes, indices and offsets cross the one-, two- and three-byte
    boundaries of their encodings"""
    for n in (1, 126, 127, 128, 129, 300, 16500) if thorough else (127, 128, 300, 16500):
        s = ''.join(chr(97 + i % 26) for i in range(n))
        yield 'str%d' % n, wrap('char *s="%s"; int i=in_int(); if(i<0||i>=%d) return 1; printf("%%c\\n",s[i]);' % (s, n))
    for n in (127, 128, 140):
        f = ''.join('int f%d(int x){ return x+%d; }\n' % (i, i) for i in range(n))
        yield 'funs%d' % n, f + wrap('int a=in_int(); printf("%%d %%d %%d\\n",f0(a),f%d(a),f%d(a));' % (n // 2, n - 1))
    for n in (60, 130, 140):
        g = ''.join('int g%d=%d;\n' % (i, i * 3) for i in range(n))
        yield 'globals%d' % n, g + wrap('g%d=in_int(); printf("%%d %%d %%d\\n",g0,g%d,g%d);' % (n - 1, n // 2, n - 1))
    for n in (20, 100, 250):
        b = ''.join('a=a*3+%d; b=b^a;' % i for i in range(n))
        yield 'body%d' % n, wrap('unsigned int a=in_uint(),b=1; %s printf("%%u %%u\\n",a,b);' % b)
    for n in (100, 127, 128, 140):
        c = ''.join('case %d: printf("c%d\\n"); break; ' % (i, i) for i in range(n))
        yield 'cases%d' % n, wrap('int a=in_int(); if(a<%d) return 2; switch(a){ %s default: printf("d\\n"); }' % (n - 8, c))
    for n in (10, 40, 70):
        s = ''.join('if(a>%d){ ' % i for i in range(n)) + 'printf("in\\n");' + '}' * n
        yield 'nest%d' % n, wrap('int a=in_int(); if(a<%d) return 3; %s printf("%%d\\n",a);' % (n - 3, s))
    for n in (6, 10):
        s = ''.join('for(int i%d=0;i%d<1;i%d++){ ' % (i, i, i) for i in range(n)) + 'a=a+1; if(a==5) break;' + '}' * n
        yield 'loops%d' % n, wrap('int a=in_int(); %s printf("%%d\\n",a);' % s)
    for n in (40, 70):
        v = ''.join('unsigned int v%d=a+%d; ' % (i, i) for i in range(n))
        p = ''.join('s=s*3+v%d; ' % i for i in range(n))
        yield 'locals%d' % n, wrap('unsigned int a=in_uint(); unsigned int s=0; %s %s printf("%%u\\n",s);' % (v, p))
    for n in (20, 40):
        ps = ', '.join('int p%d' % i for i in range(n))
        yield 'params%d' % n, 'int f(%s){ return p0*3+p%d-p%d; }\n' % (ps, n - 1, n // 2) + wrap(
            'int a=in_int(); int b=in_int(); printf("%%d\\n",f(%s));' % ', '.join('a' if i % 2 else 'b' for i in range(n)))
    for n in (127, 128, 129, 16384, 16385):
        yield 'arr%d' % n, wrap('char a[%d]; int i=in_int(); if(i<0||i>1) return 1; a[0]=3; a[%d]=4; printf("%%d\\n",a[i*%d]);' % (n, n - 1, n - 1))
    for v in (63, 64, 127, 128, 8191, 8192, 16383, 16384, 1048575, 1048576, 134217727, 134217728, 2147483647,
              34359738367, 34359738368, 4398046511104, 9223372036854775807):
        yield 'const%d' % v, wrap('long a=in_long(); printf("%%ld %%ld %%d\\n",a^%d,a^-%d,a==%d);' % (v, v, v))


GENS['C21'] = c21
GENS['C15'] = c19


# --- C14 constants and constant expressions ---------------------------------------------------

def cval(op, a, b):
    """value of a op b in int, None where C leaves it undefined"""
    if op in ('/', '%'):
        if b == 0:
            return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        v = q if op == '/' else a - q * b
    elif op in ('<<', '>>'):
        if not 0 <= b < 32 or (op == '<<' and a < 0):
            return None
        v = a << b if op == '<<' else a >> b
    else:
        v = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b,
             '^': lambda: a ^ b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
             '==': lambda: a == b, '!=': lambda: a != b, '&&': lambda: a != 0 and b != 0,
             '||': lambda: a != 0 or b != 0}[op]()
    return int(v) if -2**31 <= v < 2**31 else None


COPS = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
CVALS = [0, 1, 2, 3, 7, 10, 31, -1, -2, -7, 100, 127, 128, -128, 255, 256, -129, 32767, 65536, 2147483647, -2147483647]


def clit(rnd, v):
    """v written as a constant, in one of the notations"""
    a = abs(v)
    forms = ['%d' % a, '0x%x' % a, '0X%X' % a, '0%o' % a]
    if 32 <= a < 127 and chr(a) not in "'\\":
        forms.append("'%s'" % chr(a))
    if a < 128:
        forms += ["'\\x%02x'" % a, "'\\%o'" % a]
    s = rnd.choice(forms)
    return '(-%s)' % s if v < 0 else s


def cexpr(rnd, depth):
    """(text, value) of a constant expression"""
    while True:
        k = rnd.random()
        if depth == 0 or k < 0.15:
            v = rnd.choice(CVALS)
            return clit(rnd, v), v
        a, x = cexpr(rnd, depth - 1)
        if k < 0.3:
            op = rnd.choice('+-~!')
            v = {'+': x, '-': -x, '~': ~x, '!': int(x == 0)}[op]
            if -2**31 < v < 2**31:
                return '(%s %s)' % (op, a), v
            continue
        b, y = cexpr(rnd, depth - 1)
        if k < 0.4:
            c, z = cexpr(rnd, depth - 1)
            return '(%s ? %s : %s)' % (a, b, c), y if x else z
        op = rnd.choice(COPS)
        v = cval(op, x, y)
        if v is not None:
            return '(%s %s %s)' % (a, op, b), v


def c14(thorough=False):
    rnd = random.Random(14)
    # every operator over pairs of constants: as enumerators, in initialisers, in expressions, as case labels
    for op in COPS:
        es = []
        for a in CVALS:
            for b in (CVALS if thorough else rnd.sample(CVALS, 7)):
                v = cval(op, a, b)
                if v is not None:
                    es.append('%s %s %s' % (clit(rnd, a), op, clit(rnd, b)))
        es = rnd.sample(es, min(len(es), 150 if thorough else 24))
        nm = 'op%d' % COPS.index(op)
        yield nm + 'enum', 'enum e { %s };\n' % ', '.join('E%d = %s' % (i, e) for i, e in enumerate(es)) + wrap(
            'int x=in_int(); int k; %s printf("%%d\\n",k);' % ''.join(
                'k=E%d; printf("%%d %%d ",k,x==k);' % i for i in range(len(es))))
        yield nm + 'glob', ''.join('int g%d = %s; long h%d = %s;\n' % (i, e, i, e) for i, e in enumerate(es)) + wrap(
            ''.join('printf("%%d %%ld ",g%d,h%d);' % (i, i) for i in range(len(es))))
        yield nm + 'expr', wrap('int x=in_int(); unsigned int u=in_uint(); ' + ''.join(
            'printf("%%d %%u ",x & (%s),u + (%s));' % (e, e) for e in es))
    for n in range(60 if thorough else 16):
        es = [cexpr(rnd, 3) for _ in range(12)]
        yield 'nest%d' % n, 'enum { %s };\n' % ', '.join('E%d = %s' % (i, e) for i, (e, v) in enumerate(es)) + \
            'int g[12] = {%s};\n' % ', '.join(e for e, v in es) + wrap(
            'int x=in_int(); unsigned int i=in_uint(); int k; if (i > 11) return 1; printf("%d\\n", g[i]); ' +
            ''.join('k=E%d; printf("%%d %%d ",k,x^(%s));' % (j, e) for j, (e, v) in enumerate(es)))
    for n in range(40 if thorough else 12):
        seen, arms = set(), ''
        for _ in range(7):
            e, v = cexpr(rnd, 2)
            if v not in seen:
                seen.add(v)
                arms += 'case %s: printf("k%d "); %s' % (e, len(seen), 'break; ' if rnd.random() < .6 else '')
        yield 'case%d' % n, wrap('int x=in_int(); switch(x){ %s default: printf("d "); } return 0;' % arms)
    for n in range(40 if thorough else 12):
        dims = []
        while len(dims) < 3:
            e, v = cexpr(rnd, 2)
            if 0 < v < 2000:
                dims.append((e, v))
        (a, x), (b, y), (c, z) = dims
        yield 'dim%d' % n, 'char ga[%s];\nint gb[%s];\n' % (a, b) + wrap(
            'char l[%s]; int i=in_int(); int v=in_int(); if(i<0||i>1) return 1; ga[%d]=1; gb[%d]=v; l[%d]=3; gb[i*%d]=gb[i*%d]+2; '
            'printf("%%d %%d %%d %%d\\n",(int)sizeof(ga),(int)sizeof(gb),(int)sizeof(l),ga[%d]+l[%d]);'
            'printf("%%d\\n",gb[%d]);' % (c, x - 1, y - 1, z - 1, y - 1, y - 1, x - 1, z - 1, y - 1))
    # the type of a constant: its size, and how an unsigned one compares
    for base, f in (('d', '%d'), ('x', '0x%x'), ('o', '0%o')):
        vs = sorted({v + d for k in (7, 8, 15, 16, 31, 32, 33, 62, 63, 64) for v in (2**k,) for d in (-2, -1, 0, 1)})
        vs = [v for v in vs if v < 2**64 and not (base == 'd' and (2**31 <= v < 2**32 or v >= 2**63))]
        s = 'long l=in_long(); unsigned long u=in_ulong(); int i=in_int(); unsigned int w=in_uint();'
        for v in vs:
            t = f % v
            s += 'printf("%%d %%d %%d %%d ",(int)sizeof(%s),l<%s,u<%s,i<%s);' % (t, t, t, t)
            # (the negation of an unsigned constant is a known finding: C14.neg_unsigned_const)
            neg = '0' if 2**31 <= v < 2**32 or v >= 2**63 else '-%s<0' % t
            s += 'printf("%%d %%d %%d ",w<%s,l==%s,%s);' % (t, t, neg)
        yield 'type_' + base, wrap(s)
        for j in range(0, len(vs), 8):
            yield 'arith_%s%d' % (base, j), wrap(
                'long l=in_long(); int i=in_int(); unsigned int w=in_uint();' + ''.join(
                    'printf("%%ld %%ld %%lu ",l+%s,(long)(i^%s),(unsigned long)(w+%s));' % ((f % v,) * 3) for v in vs[j:j + 8]))
    # every character code, in a string and as a constant, in every escape notation
    for j in range(0, 256, 64):
        s = ''.join('printf("%%d %%d ",\'\\x%x\',\'\\%o\');' % (c, c) for c in range(j, j + 64))
        yield 'chars%d' % j, wrap(s)
        lo = max(j, 1)
        yield 'strs%d' % j, wrap('char *s="%s"; char t[]="%s"; unsigned int i=in_uint(); if(i>=%d) return 1; printf("%%d %%d %%d\\n",'
                                 's[i],t[i],(int)sizeof(t));' % (''.join('\\x%02x' % c for c in range(lo, j + 64)),
                                                                 ''.join('\\%03o' % c for c in range(lo, j + 64)), j + 64 - lo))
    pl = [c for c in range(32, 127)]
    yield 'printable', wrap('char *s="%s"; unsigned int i=in_uint(); if(i>%d) return 1; printf("%%d ",s[i]);%s' % (
        ''.join('\\' + chr(c) if chr(c) in '"\\' else chr(c) for c in pl), len(pl),
        ''.join("printf(\"%%d \",'%s');" % ('\\' + chr(c) if chr(c) in "'\\" else chr(c)) for c in pl)))
    # floating constants
    fl = ['0.0', '1.0', '1.5', '.5', '5.', '0.1', '3.141592653589793', '1e10', '1E-10', '2.5e+3', '123456789.123', '1e308',
          '4.9e-324', '2.2250738585072014e-308', '1e-7', '0.333333333333333333333', '9007199254740993.0', '16777217.0', '1e22', '1e23']
    yield 'float', wrap('double x=in_double(); ' + ''.join(
        'printf("%%f %%d %%d ",%s,x<%s,-%s==x);' % (c, c, c) for c in fl) + 'printf("%d ",(int)sizeof(1.5));')
    yield 'floatint', wrap('long l=in_long(); ' + ''.join('double d%d=%s; printf("%%f ",d%d);' % (i, c, i) for i, c in enumerate(
        ['0', '1', '-7', '2147483647', '4294967296', '0xffffffff', '9223372036854775807', "'a'", '16777217'])))


GENS['C14'] = c14
