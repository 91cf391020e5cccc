"""Bounded model checking of the compiler's own Rust functions with Kani (CBMC, SAT).

The harness crate (../kani) depends on /repo's crate built with --cfg vp_hooks, so the code
checked is compiled from /repo's working tree by this run. A failed harness yields concrete
values; they are replayed against a native build of the same code before anything is reported."""
import os
import re
import shutil
import signal
import subprocess
import time

from drive import BUILD, REPO, VERIF

CRATE = os.path.join(BUILD, "kani")


def env():
    e = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', RUSTFLAGS='--cfg vp_hooks', CARGO_TERM_COLOR='never')
    return e


def prepare():
    src = os.path.join(VERIF, "kani")
    shutil.rmtree(CRATE, ignore_errors=True)
    shutil.copytree(os.path.join(src, "src"), os.path.join(CRATE, "src"))
    with open(os.path.join(CRATE, "Cargo.toml"), "w") as f:
        f.write(open(os.path.join(src, "Cargo.toml.in")).read().replace("@REPO@", REPO))
    shutil.copy(os.path.join(src, "Cargo.lock.in"), os.path.join(CRATE, "Cargo.lock"))


def kani(args, timeout):
    cmd = ["cargo", "kani", "--lib", "--target-dir", os.path.join(BUILD, "kt")] + args
    p = subprocess.Popen(cmd, cwd=CRATE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors='replace', start_new_session=True)
    try:
        return p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        return p.communicate()[0] + "\nTIMEOUT"


def replay(name, hexbytes):
    """exit code of the native run: 0 holds, 1 broken, 3 assumption"""
    e = env()
    e["RUSTUP_TOOLCHAIN"] = 'stable-x86_64-unknown-linux-gnu'
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "kt_replay")
    r = subprocess.run(["cargo", "build", "--offline", "--bin", "replay"], cwd=CRATE, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-800:]
    exe = os.path.join(BUILD, "kt_replay", "debug", "replay")
    try:
        p = subprocess.run([exe, name, hexbytes], capture_output=True, text=True, timeout=60)
        return p.returncode, p.stderr[-600:]
    except subprocess.TimeoutExpired:
        return 1, "does not finish"


def playback(out):
    """hex strings of the concrete values of each generated test"""
    res = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];', out, re.S):
        h = ''
        for v in re.finditer(r'^\s*vec!\[([\d, ]*)\]', m.group(1), re.M):
            h += ''.join('%02x' % int(x) for x in v.group(1).split(',') if x.strip())
        res.append(h)
    return res


def stage(rep, harnesses, functions, budget=400):
    prepare()
    t0 = time.time()
    args = []
    for h in harnesses:
        args += ["--harness", "proofs::" + h]
    out = kani(["-j", "8", "--output-format", "terse", "--exact"] + args, budget)
    if "Checking harness" not in out:
        # the hooks name internal functions; when those are renamed or moved the modules alone decide
        rep.cov["harnesses"] = 0
        rep.cov["kani"] = "not run: the harness crate does not build on this tree: " + out[-300:]
        print("NOTE the harness crate does not build on this tree; the property is decided on the modules only")
        return
    # terse output of parallel harnesses: results carry the thread number
    state, cur = {}, {}
    last = None
    for l in out.split('\n'):
        m = re.match(r'(?:Thread (\d+): )?Checking harness proofs::(\w+)', l)
        if m:
            cur[m.group(1)] = m.group(2)
            continue
        m = re.match(r'Thread (\d+):\s*$', l)
        if m:
            last = m.group(1)
            continue
        m = re.match(r'VERIFICATION:- (\w+)', l)
        if m:
            state[cur.get(last)] = m.group(1)
            continue
        m = re.match(r'Verification Time: ([\d.]+)', l)
        if m:
            rep.add("solver_s", float(m.group(1)))
        m = re.match(r' \*\* \d+ of (\d+) failed', l)
        if m:
            rep.add("solver_queries", int(m.group(1)))
    rep.cov.setdefault("functions_encoded_kani", functions)
    for h in harnesses:
        rep.add("harnesses", 1)
        if state.get(h) == "SUCCESSFUL":
            rep.add("harnesses_proved", 1)
            continue
        if len(rep.violations) >= 2 or time.time() - t0 > 420:
            rep.undecided.append("kani.%s: not looked at again" % h)
            continue
        failed(rep, h)


def failed(rep, h):
    for unwind in (None, 26, 70):
        a = ["--harness", "proofs::" + h, "--exact", "-Z", "concrete-playback", "--concrete-playback", "print"]
        out = kani(a + (["--unwind", str(unwind)] if unwind else []), 120)
        if "VERIFICATION:- SUCCESSFUL" in out:
            rep.add("harnesses_proved", 1)
            return
        for hx in playback(out):
            code, msg = replay(h, hx)
            if code == 1:
                rep.violation("kani." + h, "property %s of the encoders fails on the bytes %s (drawn in order, little "
                              "endian); replayed natively: %s" % (h, hx, (msg or 'false').strip()[-300:]), [],
                              "cargo run --bin replay -- %s %s   (in the harness crate, RUSTFLAGS='--cfg vp_hooks')" % (h, hx))
                return
        if "unwinding assertion" not in out:
            break
    rep.errors.append("kani %s: no verdict: %s" % (h, ' '.join(out.split('\n')[-12:])[-500:]))
