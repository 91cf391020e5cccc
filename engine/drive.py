"""Translation validation driver: C source -> real compiler -> wasm, executed
symbolically and compared with the symbolic execution of clang's IR of the same
source, for every value of the program's inputs (within the stated bounds)."""
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import z3

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sym
from sym import *
import llir
import mon
import wasm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
COMPILER = os.path.join(BUILD, "target", "debug", "c_to_wasm_compiler")

# The programs get their inputs from the library functions the compiler can import:
# every call of strtol/strtoul returns a fresh arbitrary 64-bit value (one symbolic
# variable per call), argv strings can hold symbolic bytes; outputs are printf calls
# and the exit value.
PRELUDE = """#include <stdlib.h>
#include <stdio.h>
#define in_long() strtol("", (void *)0, 10)
#define in_ulong() strtoul("", (void *)0, 10)
#define in_int() ((int)strtol("", (void *)0, 10))
#define in_char() ((char)strtol("", (void *)0, 10))
#define in_uchar() ((unsigned char)strtoul("", (void *)0, 10))
#define in_uint() ((unsigned int)(int)strtol("", (void *)0, 10))
"""
PRELUDE_F = """double in_double() { long l = strtol("", (void *)0, 10); return *(double *)&l; }
"""


def prelude(src):
    p = PRELUDE
    if re.search(r'\bin_double\b', src):
        p += PRELUDE_F
    return p


FLAGSETS = {
    'default': [],
    'noopt': ['--noopt-tailcall', '--noopt-unreachable-procedure', '--noopt-stack-allocation'],
    'notail': ['--noopt-tailcall'],
    'nostack': ['--noopt-stack-allocation'],
    'nounreach': ['--noopt-unreachable-procedure'],
    'prof': ['--prof-stack'],
    'prof-noopt': ['--prof-stack', '--noopt-tailcall', '--noopt-unreachable-procedure', '--noopt-stack-allocation'],
    'tail-only': ['--noopt-unreachable-procedure', '--noopt-stack-allocation'],
    'stack-only': ['--noopt-tailcall', '--noopt-unreachable-procedure'],
    'unreach-only': ['--noopt-tailcall', '--noopt-stack-allocation'],
}


def build_compiler():
    """build the compiler from /repo's working tree in our own target dir"""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    env.update(CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never',
               CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    seed = os.path.join(REPO, "target")
    tgt = os.path.join(BUILD, "target")
    if not os.path.isdir(tgt) and os.path.isdir(seed):
        # reuse the dependency artefacts when they are there (cargo checks freshness)
        subprocess.run(["cp", "-a", seed, tgt], check=False)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "c_to_wasm_compiler"], cwd=REPO, env=env,
                       capture_output=True, text=True)
    if r.returncode != 0:
        # a stale copied target dir must not stand in the way
        shutil.rmtree(tgt, ignore_errors=True)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "c_to_wasm_compiler"], cwd=REPO,
                           env=env, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        raise RuntimeError("cannot build the compiler")


def compile_wasm(cpath, out, flags, timeout=60):
    """returns (ok, message)"""
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ)
    env.pop("RUST_LOG", None)
    env["RUST_BACKTRACE"] = "0"
    try:
        r = subprocess.run([COMPILER, cpath, "-o", out] + flags, cwd=REPO, env=env, capture_output=True, text=True,
                           timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return False, "compiler timeout"
    if r.returncode != 0:
        return False, "exit %d: %s" % (r.returncode, (r.stderr.strip() or r.stdout.strip())[-400:])
    if not os.path.exists(out):
        return False, "no output file"
    return True, ""


def clang_ir(cpath):
    r = subprocess.run(["clang", "-std=gnu99", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-strict-aliasing",
                        "-ffp-contract=off", "-fno-builtin", "-w", "-S", "-emit-llvm", cpath, "-o", "-"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("clang rejects the reference program: " + r.stderr[:800])
    return llir.Prog(r.stdout)


class Run:
    """shared between reference and wasm executions on one path: inputs and events"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.inputs = []      # terms: 64-bit, in call order
        self.argbytes = []    # terms: 8-bit argv bytes
        self.events = []

    def input(self, k):
        if k >= len(self.inputs):
            self.inputs.append(z3.BitVec("in%d" % k, 64))
        return self.inputs[k]


class Side:
    def __init__(self, run, ref):
        self.run = run
        self.ref = ref
        self.nin = 0
        self.nev = 0

    def next_input(self):
        if not self.ref and self.nin >= self.run.ref_nin:
            raise Mismatch("more input calls than the reference makes", self.model())
        v = self.run.input(self.nin)
        self.nin += 1
        return v

    def model(self):
        if not self.run.ctx.check():
            raise Prune("infeasible")
        return self.run.ctx.last_model

    def event(self, name, args):
        """args: list of (value, kind, width)"""
        run = self.run
        if self.ref:
            run.events.append((name, args))
            return
        k = self.nev
        self.nev += 1
        if k >= len(run.events):
            raise Mismatch("extra output %s" % name, self.model())
        rn, ra = run.events[k]
        if rn != name or len(ra) != len(args):
            raise Mismatch("output %d is %r, the reference has %r" % (k, name, rn), self.model())
        for i, ((v, kd, w), (rv, rkd, rw)) in enumerate(zip(args, ra)):
            run.ctx.prove(same(v, rv, kd, w), "output %d %s argument %d" % (k, name, i))


def same(a, b, kind, w):
    if kind == 'f':
        if a.eq(b):
            return True
        if z3.is_fp_value(a) and z3.is_fp_value(b):
            return z3.is_true(z3.simplify(a == b))
        return a == b          # SMT identity: NaN = NaN, +0 != -0
    if kind == 's':
        return a == b
    return eq(a, b, w)


FMT = re.compile(r'%(%|h?[diu]|l[diu]|f|c|s|[^%])')


def fmt_items(fmt):
    items = []
    for m in re.finditer(r'%(h[diu]|l[diu]|.)', fmt, re.S):
        k = m.group(1)
        if k != '%':
            items.append(k)
    return items


def ref_host(side, interp_box):
    ctx = side.run.ctx

    def rd_str(p):
        out = []
        off = p.off
        while True:
            ob, o = interp_box[0].locate(llir.Ptr(p.obj, off), 1)
            c = interp_box[0].get(ob, o, ('i', 8))
            if ctx.branch(eq(c, 0, 8)):
                return out
            out.append(c)
            off = add(off, 1, 64)
            if len(out) > 64:
                raise Bound("string length")

    def host(it, name, args, types=None, rt=None):
        if name in ('strtol', 'strtoul'):
            return side.next_input()
        if name == 'printf':
            fmt = rd_str(args[0])
            if not all(isinstance(c, int) for c in fmt):
                raise Unsupported("symbolic format")
            fmt = bytes(fmt).decode('latin-1')
            ev = []
            ai = 1
            for it_ in fmt_items(fmt):
                a = args[ai]
                ai += 1
                if it_ == 'f':
                    ev.append((a, 'f', 64))
                elif it_ == 's':
                    s = rd_str(a)
                    ev.append((len(s), 'i', 32))
                    ev += [(c, 'i', 8) for c in s]
                else:
                    w = {'c': 8, 'h': 16, 'l': 64}.get(it_[0], 32)
                    ev.append((extract(a, w - 1, 0), 'i', w))
            side.event('printf:' + fmt, ev)
            return 0
        if name == 'strlen':
            return len(rd_str(args[0]))
        raise Unsupported("reference calls " + name)
    return host


from llir import Unsupported


def wasm_host(side, mach_box):
    ctx = side.run.ctx

    def rd_str(a):
        m = mach_box[0]
        out = []
        a = ctx.concretise(a, 32)
        while True:
            if a >= m.mem_limit:
                raise Trap("string runs off memory")
            c = m.mem.byte(a)
            if ctx.branch(eq(c, 0, 8)):
                return out
            out.append(c)
            a += 1
            if len(out) > 96:
                raise Mismatch("unterminated string", side.model())

    def host(m, name, wargs):
        if name == 'log_stack_ptr':
            return []
        fp = m.mem.load_int(0, 4)
        fp = ctx.concretise(fp, 32)
        if name in ('strtol', 'strtoul'):
            m.mem.store(fp + 4, side.next_input(), 8)
            return []
        if name == 'printf':
            fmt = rd_str(m.mem.load_int(fp + 8, 4))
            if not all(isinstance(c, int) for c in fmt):
                raise Unsupported("symbolic format")
            fmt = bytes(fmt).decode('latin-1')
            p = fp + 12
            ev = []
            for it in fmt_items(fmt):
                if it == 'f':
                    ev.append((m.mem.load_fp(p, 8), 'f', 64))
                    p += 8
                elif it == 's':
                    s = rd_str(m.mem.load_int(p, 4))
                    p += 4
                    ev.append((len(s), 'i', 32))
                    ev += [(c, 'i', 8) for c in s]
                else:
                    w = {'c': 8, 'h': 16, 'l': 64}.get(it[0], 32)
                    ev.append((m.mem.load_int(p, w // 8), 'i', w))
                    p += 8 if w == 64 else 4
            side.event('printf:' + fmt, ev)
            m.mem.store(fp + 4, 0, 4)
            return []
        if name == 'strlen':
            s = rd_str(m.mem.load_int(fp + 8, 4))
            m.mem.store(fp + 4, len(s), 4)
            return []
        raise Unsupported("wasm imports " + name)
    return host


def init_args(mem, args):
    """what runtime/init_memory.mjs does (its own check compares it with the real file)"""
    sp = mem.load_int(8, 4)
    argv = sp
    sp += 4 * len(args)
    for i, a in enumerate(args):
        mem.store(argv + 4 * i, sp, 4)
        for c in a:
            mem.store(sp, c, 1)
            sp += 1
        mem.store(sp, 0, 1)
        sp += 1
    mem.store(8, sp, 4)
    return len(args), argv


def make_args(run, spec):
    """argv strings: a str is concrete, a number k is k arbitrary characters 1..127"""
    out = []
    for i, a in enumerate(spec):
        if isinstance(a, str):
            out.append(list(a.encode()))
        else:
            bs = []
            for j in range(a):
                v = z3.BitVec("arg%d_%d" % (i, j), 8)
                run.argbytes.append(v)
                run.ctx.assume(z3.And(z3.UGE(v, 1), z3.ULE(v, 127)))
                bs.append(v)
            out.append(bs)
    return out


def path_fn(ref, mods, opts):
    """ref: llir.Prog; mods: list of (variant name, wasm.Module)"""

    def fn(ctx):
        run = Run(ctx)
        ctx.run = run
        args = make_args(run, opts.get('args', ['prog']))
        rs = Side(run, True)
        box = [None]
        it = llir.Interp(ctx, ref, ref_host(rs, box), max_steps=opts.get('ref_steps', 30000))
        box[0] = it
        params = ref.funcs['@main'][1]
        margs = []
        if params:
            ob = llir.Obj('argv', 8 * (len(args) + 1))
            for i, a in enumerate(args):
                so = llir.Obj('arg%d' % i, len(a) + 1)
                for j, c in enumerate(a + [0]):
                    so.mem.store(j, c, 1)
                it.put(ob, 8 * i, ('ptr',), llir.Ptr(so, 0))
            it.put(ob, 8 * len(args), ('ptr',), llir.NULL)
            margs = [len(args), llir.Ptr(ob, 0)]
        ret = it.call('@main', margs)
        run.ref_nin = rs.nin
        if not ctx.model and not ctx.check():
            raise Prune("infeasible")
        for name, mod in mods:
            ctx.variant = name
            ws = Side(run, False)
            box = [None]
            try:
                m = wasm.Machine(ctx, mod, wasm_host(ws, box), max_steps=opts.get('wasm_steps', 600000),
                                 mem_limit=65536)
                box[0] = m
                if opts.get('mon'):
                    m.mon = ctx.mon = mon.Monitor(ctx, opts['mon'])
                m.max_depth = opts.get('wasm_depth', 300)
                argc, argv = init_args(m.mem, args)
                k, idx = mod.exports['main']
                r = m.call(idx, [argc, argv])
            except Trap as e:
                raise Mismatch("wasm trap: %s" % e, ws.model())
            except Bound as e:
                if 'wasm' in str(e):
                    raise Mismatch("wasm does not finish: %s" % e, ws.model())
                raise
            if m.mon:
                opts['_mon'] = opts.get('_mon', 0) + m.mon.checks
            if ws.nev != len(run.events):
                raise Mismatch("missing output: %d of %d" % (ws.nev, len(run.events)), ws.model())
            if ws.nin != run.ref_nin:
                raise Mismatch("missing input calls", ws.model())
            ctx.prove(eq(extract(r[0], 7, 0), extract(ret, 7, 0), 8), "exit status")
        return (len(run.inputs), len(run.events))
    return fn


def model_inputs(model, run):
    """concrete inputs: (64-bit values, argv byte values)"""
    return ([model.eval(v, model_completion=True).as_long() for v in run.inputs],
            [max(1, model.eval(v, model_completion=True).as_long() & 127) for v in run.argbytes])


# --- replay against the real code ------------------------------------------------

REPLAY_C = r"""
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <stdlib.h>
static const uint64_t V[] = {%(vals)s 0};
static int K;
static void put(const char *s, int n){ while(n>0){ int k=write(1,s,n); if(k<=0) _exit(97); s+=k; n-=k; } }
static void num(uint64_t v, int sg){ char b[32]; int i=31; int neg=sg&&(int64_t)v<0; if(neg) v=-v;
  b[i--]=0; do { b[i--]='0'+v%%10; v/=10; } while(v); if(neg) b[i--]='-'; put(b+i+1, 30-i); }
long strtol(const char *s, char **e, int b){ if(K>=%(n)d) _exit(99); return (long)V[K++]; }
unsigned long strtoul(const char *s, char **e, int b){ if(K>=%(n)d) _exit(99); return V[K++]; }
int printf(const char *f, ...){ va_list a; va_start(a,f);
  for(;*f;f++){ if(*f!='%%'){ put(f,1); continue; } f++;
    if(*f=='%%') put(f,1); else if(*f=='d'||*f=='i') num((int64_t)va_arg(a,int),1);
    else if(*f=='u') num(va_arg(a,unsigned),0);
    else if(*f=='c'){ char c=va_arg(a,int); put(&c,1); }
    else if(*f=='s'){ const char*s=va_arg(a,char*); put(s,strlen(s)); }
    else if(*f=='f'){ double d=va_arg(a,double); uint64_t b; memcpy(&b,&d,8); if(d!=d) b=0x7ff8000000000000ull; put("f",1); num(b,0); }
    else if(*f=='h'){ f++; if(*f=='u') num((unsigned short)va_arg(a,int),0); else num((int64_t)(short)va_arg(a,int),1); }
    else if(*f=='l'){ f++; if(*f=='u') num(va_arg(a,unsigned long),0); else num(va_arg(a,long),1); } }
  va_end(a); return 0; }
"""


def conc_args(spec, argbytes):
    out, k = [], 0
    for a in spec:
        if isinstance(a, str):
            out.append(a)
        else:
            out.append(''.join(chr(c) for c in argbytes[k:k + a]))
            k += a
    return out


def replay(cpath, wasmpath, vals, args, workdir, timeout=20, trace=None):
    """run the natively compiled reference and the real wasm module (under node)
    on the same concrete inputs"""
    ip = os.path.join(workdir, "inputs.c")
    with open(ip, "w") as f:
        f.write(REPLAY_C % {'vals': ''.join('%dull,' % b for b in vals), 'n': len(vals)})
    exe = os.path.join(workdir, "ref.exe")
    r = subprocess.run(["gcc", "-std=gnu99", "-O0", "-w", "-fwrapv", "-fno-builtin", cpath, ip, "-o", exe],
                       capture_output=True, text=True)
    if r.returncode != 0:
        return None
    jp = os.path.join(workdir, "inputs.json")
    with open(jp, "w") as f:
        json.dump({"inputs": [str(b) for b in vals], "args": list(args)}, f)

    def runit(cmd):
        try:
            p = subprocess.run(cmd, capture_output=True, timeout=timeout)
            return (p.returncode, p.stdout.decode('latin-1')[:20000], p.stderr.decode('latin-1')[-600:])
        except subprocess.TimeoutExpired as e:
            return ("timeout", (e.stdout or b'').decode('latin-1')[:2000], "")
    a = runit([exe] + list(args[1:]))
    if trace:
        if os.path.exists(trace):
            os.remove(trace)
        os.environ["VP_TRACE"] = trace
    b = runit(["node", os.path.join(VERIF, "engine", "replay.mjs"), os.path.join(REPO, "runtime"), wasmpath, jp])
    os.environ.pop("VP_TRACE", None)
    return a, b


# --- one program --------------------------------------------------------------------

def validate(job):
    """job: dict(name, src, variants, opts, workdir). Returns a result dict."""
    t0 = time.time()
    res = {"name": job["name"], "status": "ok", "paths": 0, "obligations": 0, "discharged": 0, "trivial": 0,
           "pruned": 0, "bounded": 0, "truncated": False, "inconclusive": [], "queries": 0, "solver_s": 0.0,
           "modules": 0, "expect": job.get("expect")}
    wd = os.path.join(job["workdir"], re.sub(r'\W', '_', job["name"]))
    os.makedirs(wd, exist_ok=True)
    for k in STATS:
        STATS[k] = 0
    try:
        _validate(job, res, wd)
    except Exception as e:
        res["status"] = "error"
        res["detail"] = "%s: %s" % (type(e).__name__, e) + "\n" + traceback.format_exc()[-1500:]
    res["mon_checks"] = job.get("opts", {}).get('_mon', 0)
    res["queries"] = STATS["queries"]
    res["solver_s"] = STATS["solver_s"]
    res["wall"] = time.time() - t0
    return res


def _validate(job, res, wd):
    src = job["src"]
    full = prelude(src) + src
    cpath = os.path.join(wd, "prog.c")
    with open(cpath, "w") as f:
        f.write(full)
    opts = job.get("opts", {})
    mods = []
    seen = {}
    for v in job.get("variants", ["default"]):
        base = v.split('#')[0]
        out = os.path.join(wd, v.replace('#', '_') + ".wasm")
        ok, msg = compile_wasm(cpath, out, FLAGSETS[base])
        if not ok:
            res["status"] = "compile"
            res["variant"] = v
            res["detail"] = msg
            return
        data = open(out, "rb").read()
        h = hashlib.sha1(data).hexdigest()
        if h in seen:
            continue
        seen[h] = v
        try:
            mod = wasm.Module(data)
        except (wasm.Malformed, IndexError) as e:
            res["status"] = "invalid"
            res["variant"] = v
            res["detail"] = "module is not valid wasm: %s" % e
            res["module"] = out
            return
        if 'main' not in mod.exports:
            res["status"] = "invalid"
            res["variant"] = v
            res["detail"] = "no main export"
            res["module"] = out
            return
        mods.append((v, mod))
        res["modules"] += 1
    # the reference need not see the repository's headers
    rpath = cpath
    if job.get("refsrc"):
        rpath = os.path.join(wd, "ref.c")
        with open(rpath, "w") as f:
            f.write(prelude(src) + job["refsrc"])
    ref = clang_ir(rpath)
    ex = Explorer(path_fn(ref, mods, opts), max_paths=opts.get("max_paths", 300),
                  timeout_ms=opts.get("timeout_ms", 15000), budget_s=opts.get("budget_s", 60))
    ex.run()
    res.update(paths=ex.paths, obligations=ex.obligations, discharged=ex.discharged, trivial=ex.trivial,
               pruned=ex.pruned, bounded=ex.bounded, truncated=ex.truncated, inconclusive=ex.inconclusive[:5])
    if ex.mismatches:
        m, ctx = ex.mismatches[0]
        vals, ab = model_inputs(m.model, ctx.run)
        cargs = conc_args(opts.get("args", ["prog"]), ab)
        v = getattr(ctx, "variant", mods[0][0])
        res["status"] = "mismatch"
        res["variant"] = v
        res["detail"] = m.what
        res["inputs"] = vals
        res["args"] = cargs
        wpath = os.path.join(wd, v.replace('#', '_') + ".wasm")
        res["module"] = wpath
        tr = os.path.join(wd, "trace.txt") if m.what.startswith("stack:") else None
        rp = replay(rpath, wpath, vals, cargs, wd, trace=tr)
        res["replay"] = rp
        res["confirmed"] = bool(rp) and differs(rp)
        if tr and os.path.exists(tr):
            # a broken stack need not show in the output: the real run has to go through the
            # same frame and stack pointers as the symbolic one
            want = ["%s %d %d" % t for t in ctx.mon.trace]
            got = open(tr).read().split("\n")[:len(want)]
            res["trace"] = got
            res["confirmed"] = res["confirmed"] or (got == want)
    elif ex.paths == 0:
        res["status"] = "vacuous"
        res["detail"] = "no complete path (pruned %d bounded %d inconclusive %s)" % (ex.pruned, ex.bounded, ex.inconclusive[:2])


def differs(rp):
    a, b = rp
    if a[0] in (99, "timeout"):
        return False
    return a[0] != b[0] or a[1] != b[1]
