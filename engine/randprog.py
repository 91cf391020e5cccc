"""Random C programs inside the subset the compiler documents: structured control flow,
switch, goto, calls, pointers, arrays, structs, globals. All inputs are symbolic; every
loop and goto is fuelled, so each program terminates on every path."""
import random

CD = {'char': 'char', 'uchar': 'unsigned char', 'int': 'int', 'uint': 'unsigned int', 'long': 'long',
      'ulong': 'unsigned long'}
SPEC = {'char': '%d', 'uchar': '%d', 'int': '%d', 'uint': '%u', 'long': '%ld', 'ulong': '%lu'}
INP = {'char': 'in_char()', 'uchar': 'in_uchar()', 'int': 'in_int()', 'uint': 'in_uint()', 'long': 'in_long()',
       'ulong': 'in_ulong()'}


class Gen:
    def __init__(self, seed, feats, size=10):
        self.r = random.Random(seed)
        self.f = set(feats)
        self.size = size
        self.uid = 0
        self.out = []
        self.globals = []     # (name, type)
        self.fns = []         # (name, ret, [param types])
        self.labels = []
        self.loop = 0
        self.in_switch = 0
        self.budget = 0
        self.incall = False
        self.fn = None
        self.arrays = []      # (name, type, mask)
        self.ptrs = []        # (name, type)
        self.structs = []     # (lvalue expr, type)

    def n(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    # -- expressions
    def var(self, types=None):
        vs = [v for v in self.vars + self.globals + self.structs if types is None or v[1] in types]
        if not vs:
            return None
        return self.r.choice(vs)

    def atom(self):
        r = self.r.random()
        if r < 0.2:
            return str(self.r.choice([0, 1, 2, 3, 5, 7, -1, -2, 10, 100, 255, 1000]))
        if r < 0.3 and self.arrays:
            a = self.r.choice(self.arrays)
            return '%s[%s]' % (a[0], self.index(a))
        if r < 0.4 and self.ptrs:
            p = self.r.choice(self.ptrs)
            return '*%s' % p[0]
        v = self.var()
        return v[0] if v else '1'

    def index(self, a):
        if self.r.random() < 0.6:
            return str(self.r.randint(0, a[2]))
        v = self.var(['int', 'uint', 'char', 'uchar'])
        return '%s&%d' % (v[0], a[2]) if v else '0'

    def expr(self, d=2):
        r = self.r.random()
        if d == 0 or r < 0.3:
            return self.atom()
        if 'logic' in self.f and r < 0.42:
            return '(%s)' % self.pcond(1)
        if r < 0.48:
            return '(%s)%s' % (CD[self.r.choice(list(CD))], self.expr(d - 1).join('()'))
        if r < 0.54:
            return '%s%s' % (self.r.choice('-~'), self.expr(d - 1).join('()'))
        if r < 0.60:
            return '(%s %s %d)' % (self.expr(d - 1), self.r.choice(['<<', '>>']), self.r.randint(0, 7))
        if r < 0.66:
            return '(%s ? %s : %s)' % (self.pcond(1), self.expr(d - 1), self.expr(d - 1))
        return '(%s %s %s)' % (self.expr(d - 1), self.r.choice(['+', '-', '^', '&', '|', '+', '-']), self.expr(d - 1))

    def call(self, d=1):
        f = self.r.choice(self.fns)
        self.incall = True
        a = [self.atom() if self.r.random() < 0.6 else self.expr(1) for _ in f[2]]
        self.incall = False
        if f[3]:            # recursive: first argument bounds the depth
            a[0] = str(self.r.randint(0, 3))
        return '%s(%s)' % (f[0], ', '.join(a))

    def cond(self, d=1):
        r = self.r.random()
        # a call stands alone between sequence points: C leaves its order against
        # the other operands open
        if self.fns and 'call' in self.f and not self.nocall and self.r.random() < 0.12 and not self.incall:
            return '%s %s %d' % (self.call(), self.r.choice(['<', '==', '!=', '>']), self.r.randint(-2, 8))
        if d > 0 and r < 0.25:
            return '%s %s %s' % (self.cond(d - 1).join('()'), self.r.choice(['&&', '||']), self.cond(d - 1).join('()'))
        if r < 0.32:
            return '!%s' % self.atom()
        if r < 0.40:
            return self.atom()
        if r < 0.5:
            return '(%s & %d)' % (self.atom(), self.r.choice([1, 2, 4, 7]))
        return '%s %s %s' % (self.atom(), self.r.choice(['<', '>', '<=', '>=', '==', '!=']),
                             self.atom() if self.r.random() < 0.4 else str(self.r.randint(-2, 8)))

    def pcond(self, d):
        i, self.incall = self.incall, True
        c = self.cond(d)
        self.incall = i
        return c

    def lv(self):
        r = self.r.random()
        if self.arrays and r < 0.2:
            a = self.r.choice(self.arrays)
            return '%s[%s]' % (a[0], self.index(a)), a[1]
        if self.ptrs and r < 0.4:
            p = self.r.choice(self.ptrs)
            return '*%s' % p[0], p[1]
        return self.var()

    # -- statements
    def stmts(self, depth, k=None):
        return '\n'.join(self.stmt(depth) for _ in range(k or self.r.randint(1, 3)))

    def block(self, depth, k=None):
        return '{\n%s\n}' % self.stmts(depth, k)

    def stmt(self, depth):
        self.budget -= 1
        R = self.r
        if depth <= 0 or self.budget <= 0 or R.random() < 0.3:
            return self.simple()
        kinds = ['if', 'if']
        if 'loop' in self.f and self.loop < 2:
            kinds += ['loop', 'loop']
        if 'switch' in self.f:
            kinds += ['switch', 'switch']
        if self.labels is not None:
            kinds += ['goto', 'goto', 'goto']
        if 'scope' in self.f:
            kinds += ['scope']
        kind = R.choice(kinds)
        if kind == 'if':
            s = 'if (%s) %s' % (self.cond(), self.block(depth - 1))
            if R.random() < 0.5:
                s += ' else ' + (self.block(depth - 1) if R.random() < 0.8 else self.stmt(depth - 1))
            return s
        if kind == 'loop':
            return self.loops(depth)
        if kind == 'switch':
            return self.switch(depth)
        if kind == 'goto':
            return self.goto()
        if kind == 'scope':
            v = self.n('v')
            t = R.choice(list(CD))
            init = self.expr(1)
            self.vars.append((v, t))
            s = self.stmts(depth - 1)
            self.vars.pop()
            return '{ %s %s = %s;\n%s\n}' % (CD[t], v, init, s)
        return self.simple()

    def goto(self):
        R = self.r
        if R.random() < 0.5 or not self.labels:
            l = self.n('L')
            self.labels.append(l)
            return '%s: %s' % (l, self.simple())
        self.pending += 1
        return 'if (fuel > 0 && (%s)) { fuel--; goto @LABEL%d@; }' % (self.cond(0), R.randint(0, 9999))

    def loops(self, depth):
        R = self.r
        self.loop += 1
        i = self.n('i')
        k = R.randint(1, 3)
        kind = R.randint(0, 3)
        sw, self.in_switch = self.in_switch, 0
        if kind == 0:
            self.vars.append((i, 'int'))
            self.ro.append(i)
            body = self.block(depth - 1)
            self.vars.pop()
            s = 'for (int %s = 0; %s < %d; %s++) %s' % (i, i, k, i, body)
        elif kind == 1:
            s = 'int %s = 0; while (%s && %s++ < %d) %s' % (i, self.cond().join('()'), i, k, self.block(depth - 1))
        elif kind == 2:
            s = 'int %s = 0; do %s while (%s++ < %d && %s);' % (i, self.block(depth - 1), i, k, self.cond().join('()'))
        else:
            s = 'int %s = 0; for (;;) { if (++%s > %d) break;\n%s\n}' % (i, i, k, self.stmts(depth - 1))
        s = '{ %s }' % s
        self.in_switch = sw
        self.loop -= 1
        return s

    def switch(self, depth):
        R = self.r
        v = self.atom() if R.random() < 0.5 else self.expr(1)
        self.in_switch += 1
        lp = self.loop
        cs = R.sample([0, 1, 2, 3, -1, 5, 7, 10, 255, 100], R.randint(1, 4))
        parts = ['case %d:' % c for c in cs]
        if R.random() < 0.7:
            parts.insert(R.randint(0, len(parts)), 'default:')
        s = 'switch (%s) {\n' % v
        for p in parts:
            s += p + '\n'
            if R.random() < 0.8:
                s += self.stmts(depth - 1, R.randint(1, 2)) + '\n'
                if R.random() < 0.65:
                    s += 'break;\n'
        if s.rstrip().endswith(':'):
            s += ';\n' if False else 'break;\n'
        self.in_switch -= 1
        return s + '}'

    def simple(self):
        R = self.r
        r = R.random()
        if r < 0.12 and self.loop:
            return 'if (%s) %s;' % (self.cond(0), R.choice(['break', 'continue']))
        if r < 0.17 and self.in_switch:
            return 'if (%s) break;' % self.cond(0)
        if r < 0.21 and self.fn and 'ret' in self.f:
            return 'if (%s) return %s;' % (self.cond(0), self.expr(1))
        if r < 0.35:
            v = self.var()
            return 'printf("%s\\n", %s);' % (SPEC[v[1]], v[0])
        if r < 0.42 and self.ptrs:
            p = R.choice(self.ptrs)
            tg = self.addressable(p[1])
            if tg:
                return '%s = %s;' % (p[0], R.choice(tg))
        l = self.lv()
        if l[0] in self.ro:
            return 'printf("%d\\n", ' + l[0] + ');'
        if r < 0.55:
            return R.choice(['%s++;', '++%s;', '%s--;', '--%s;']) % ('(%s)' % l[0] if l[0][0] == '*' else l[0])
        if r < 0.75:
            return '%s %s %s;' % (l[0], R.choice(['+=', '-=', '^=', '|=', '&=']), self.expr(1))
        if r < 0.86 and self.fns and 'call' in self.f and not self.nocall:
            if R.random() < 0.3:
                return self.call() + ';'
            t = R.choice(list(CD))
            v = self.n('c')
            return '{ %s %s = %s; %s %s %s; }' % (CD[t], v, self.call(), l[0], R.choice(['=', '+=', '^=']), v)
        return '%s = %s;' % (l[0], self.expr(2))

    def addressable(self, t):
        out = ['&%s' % v for v, vt in self.vars0 + self.globals + self.structs if vt == t]
        for a, at, m in self.arrays:
            if at == t:
                out += ['&%s[%d]' % (a, self.r.randint(0, m)), a, '%s+%d' % (a, self.r.randint(0, m))]
        return out

    def body(self, params, size, depth):
        R = self.r
        self.vars = list(params)
        self.ro = []
        self.labels = [] if 'goto' in self.f else None
        self.pending = 0
        self.budget = size
        self.ptrs = []
        g_arr, g_str = list(self.garrays), list(self.gstructs)
        self.arrays, self.structs = g_arr, g_str
        decl = ''
        if 'goto' in self.f:
            decl += 'int fuel = 3;\n'
        for _ in range(R.randint(1, 3)):
            t = R.choice(list(CD))
            v = self.n('v')
            decl += '%s %s = %s;\n' % (CD[t], v, self.expr(1) if self.vars else str(R.randint(0, 9)))
            self.vars.append((v, t))
        if 'array' in self.f and R.random() < 0.8:
            a, t = self.n('arr'), R.choice(list(CD))
            if R.random() < 0.5:
                decl += '%s %s[4] = {%s};\n' % (CD[t], a, ', '.join(str(R.randint(0, 100)) for _ in range(4)))
            else:
                decl += '%s %s[4]; for (int k = 0; k < 4; k++) %s[k] = k + %s;\n' % (CD[t], a, a, self.atom())
            self.arrays = self.arrays + [(a, t, 3)]
        if 'struct' in self.f and R.random() < 0.8:
            s = self.n('s')
            decl += 'struct S %s;\n' % s
            for m, mt in self.smembers:
                decl += '%s.%s = %s;\n' % (s, m, self.atom())
            self.structs = self.structs + [('%s.%s' % (s, m), mt) for m, mt in self.smembers]
            if R.random() < 0.6:
                p = self.n('ps')
                decl += 'struct S *%s = &%s;\n' % (p, s)
                self.structs = self.structs + [('%s->%s' % (p, m), mt) for m, mt in self.smembers]
        self.vars0 = list(self.vars)
        if 'ptr' in self.f:
            for _ in range(R.randint(1, 2)):
                t = R.choice(list(CD))
                tg = self.addressable(t)
                if tg:
                    p = self.n('p')
                    decl += '%s *%s = %s;\n' % (CD[t], p, R.choice(tg))
                    self.ptrs.append((p, t))
        s = ''
        while self.budget > 0:
            s += self.stmt(depth) + '\n'
        if self.labels is not None:
            if not self.labels:
                self.labels.append(self.n('L'))
                s += '%s: printf("end\\n");\n' % self.labels[0]
            import re
            s = re.sub(r'@LABEL(\d+)@', lambda m: self.labels[int(m.group(1)) % len(self.labels)], s)
        s += ''.join('printf("%s\\n", %s);\n' % (SPEC[t], v) for v, t in self.vars0[-3:] + self.structs[-2:])
        for a, t, m in self.arrays[-1:]:
            s += 'for (int k = 0; k < %d; k++) printf("%s ", %s[k]);\n' % (m + 1, SPEC[t], a)
        return decl + s

    def program(self):
        R = self.r
        pre = ''
        self.nocall = True
        self.garrays, self.gstructs, self.smembers, self.ptrs = [], [], [], []
        self.vars = self.vars0 = []
        self.ro = []
        if 'struct' in self.f:
            self.smembers = [('m%d' % i, R.choice(list(CD))) for i in range(R.randint(2, 4))]
            pre += 'struct S { %s };\n' % ' '.join('%s %s;' % (CD[t], m) for m, t in self.smembers)
        if 'global' in self.f:
            for _ in range(R.randint(1, 3)):
                g, t = self.n('g'), R.choice(list(CD))
                pre += '%s %s%s;\n' % (CD[t], g, R.choice(['', ' = %d' % R.randint(-5, 100)]))
                self.globals.append((g, t))
            if 'array' in self.f and R.random() < 0.6:
                g, t = self.n('ga'), R.choice(list(CD))
                pre += '%s %s[4] = {1, 2, 3, 4};\n' % (CD[t], g)
                self.garrays.append((g, t, 3))
            if 'struct' in self.f and R.random() < 0.6:
                pre += 'struct S gs;\n'
                self.gstructs = [('gs.%s' % m, t) for m, t in self.smembers]
        if 'call' in self.f:
            for k in range(R.randint(1, 3)):
                rec = R.random() < 0.4
                f = self.n('f')
                rt = R.choice(list(CD))
                ps = [(self.n('a'), R.choice(list(CD))) for _ in range(R.randint(1, 4))]
                if rec:
                    ps[0] = (ps[0][0], 'int')
                self.nocall = not self.fns or R.random() < 0.5
                self.fn = rt
                s = '%s %s(%s) {\n' % (CD[rt], f, ', '.join('%s %s' % (CD[t], p) for p, t in ps))
                lp = self.loop
                if rec:
                    s += 'if (%s <= 0) return %s;\n' % (ps[0][0], ps[-1][0])
                    self.ro0 = ps[0][0]
                    body = self.body(ps[1:] or [], max(2, self.size // 4), 1)
                    a = ['%s - 1' % ps[0][0]] + [self.expr(1) if R.random() < 0.5 else self.atom() for _ in ps[1:]]
                    if R.random() < 0.5:
                        tail = 'return %s(%s);\n' % (f, ', '.join(a))
                    else:
                        tail = 'return %s + %s(%s);\n' % (R.choice(self.vars)[0] if self.vars else '1', f, ', '.join(a))
                    s += body + tail + '}\n'
                else:
                    s += self.body(ps, max(2, self.size // 3), 2) + 'return %s;\n}\n' % self.expr(1)
                pre += s
                self.fns.append((f, rt, [t for _, t in ps], rec))
        self.fn = None
        self.nocall = False
        ins = [(self.n('x'), R.choice(list(CD))) for _ in range(R.randint(2, 3))]
        d = ''.join('%s %s = %s;\n' % (CD[t], v, INP[t]) for v, t in ins)
        return pre + 'int main(int argc, char **argv) {\n' + d + self.body(ins, self.size, 3) + 'return 0;\n}\n'


def program(seed, feats, size=10):
    return Gen(seed, feats, size).program()


if __name__ == '__main__':
    import sys
    print(program(int(sys.argv[1]), sys.argv[2].split(','), int(sys.argv[3]) if len(sys.argv) > 3 else 10))
