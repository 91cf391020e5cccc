"""Runs the validation jobs of one property, reports violations, writes evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import drive
import jobrun
from drive import VERIF

NODE_VALIDATE = ("const fs=require('fs');process.exit(WebAssembly.validate("
                 "fs.readFileSync(process.argv[1]))?0:1)")


def known_findings(pid):
    """lines 'known: property=<id> program=<name> <what>' of KNOWN_FINDINGS.txt"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) program=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


class Report:
    """what one check run found; the stages add to it"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []      # (name, what, replay path)
        self.known = []
        self.errors = []
        self.undecided = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.level = "translation_validation"
        self.kf = known_findings(pid)
        self.rdir = os.path.join(VERIF, "evidence", "replay", pid)
        shutil.rmtree(self.rdir, ignore_errors=True)

    def add(self, k, n):
        self.cov[k] = self.cov.get(k, 0) + n

    def violation(self, name, what, files=(), note=None):
        d = os.path.join(self.rdir, re.sub(r'\W', '_', name))
        os.makedirs(d, exist_ok=True)
        for f in files:
            if f and os.path.exists(f):
                shutil.copy(f, d)
        with open(os.path.join(d, "replay.txt"), "w") as fh:
            fh.write("property %s, program %s\n%s\n%s\n" % (self.pid, name, what, note or ''))
        if name in self.kf:
            self.known.append((name, self.kf[name]))
        else:
            self.violations.append((name, what, d))

    def finish(self):
        cov = dict(self.cov)
        cov["samples"] = self.samples[:6] or ["none"]
        cov["undecided"] = self.undecided[:20]
        cov["undecided_count"] = len(self.undecided)
        cov["known_findings"] = [n for n, _ in self.known]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n, w in self.known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, n, w))
        for u in self.undecided[:20]:
            print("UNDECIDED %s" % (u,))
        for e in self.errors[:20]:
            print("ERROR %s" % (e,))
        for n, w, d in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, d))
            print("  %s: %s" % (n, w[:400]))
        print("%s %s: %s, %.1f s" % (self.pid, self.tier, ", ".join(
            "%s=%s" % (k, round(v, 1) if isinstance(v, float) else v) for k, v in cov.items()
            if isinstance(v, (int, float))), time.time() - self.t0))
        if self.violations:
            return 1
        return 2 if self.errors else 0


def tv_stage(rep, jobs, budget=600, workers=8):
    """translation validation of the jobs: [(name, src, opts, variants)]"""
    wd = tempfile.mkdtemp(prefix="vp_%s_" % rep.pid)
    js = []
    seen = set()
    for name, src, opts, variants in jobs:
        assert name not in seen, "duplicate program " + name
        seen.add(name)
        o = dict(budget_s=60)
        o.update(opts)
        js.append(dict(name=name, src=src, variants=variants, workdir=wd, opts=o, refsrc=o.get('refsrc')))
    try:
        for j, kind, r in jobrun.run(drive.validate, js, workers, budget, limit=lambda j: 2 * j["opts"]["budget_s"] + 60,
                                     stop=lambda: len(rep.violations) >= 25):
            if kind == 'ok':
                take(rep, j, r)
            elif kind == 'exc':
                rep.errors.append("%s: %s" % (j["name"], r))
            else:
                rep.undecided.append("%s: %s" % (j["name"], r))
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def take(rep, job, r):
    name = r["name"]
    wd = os.path.join(job["workdir"], re.sub(r'\W', '_', name))
    cpath = os.path.join(wd, "prog.c")
    rep.add("programs", 1)
    rep.add("modules", r["modules"])
    rep.add("paths", r["paths"])
    rep.add("disagreements_checked", r["obligations"])
    rep.add("solver_queries", r["queries"])
    rep.add("solver_s", r["solver_s"])
    rep.add("paths_cut_by_bounds", r["bounded"] + (1 if r["truncated"] else 0))
    rep.add("paths_undefined_in_c", r["pruned"])
    st = r["status"]
    if st == "ok":
        if r["inconclusive"]:
            rep.undecided.append("%s: solver gave no answer: %s" % (name, r["inconclusive"][:1]))
        if len(rep.samples) < 4 and r["paths"] > 1:
            rep.samples.append({"program": name, "source": job["src"][:600], "paths": r["paths"],
                                "modules": r["modules"], "obligations": r["obligations"]})
    elif st == "mismatch":
        what = "%s [%s] inputs=%s args=%s" % (r["detail"], r["variant"], r["inputs"], r["args"])
        if r["confirmed"]:
            a, b = r["replay"]
            note = "variant %s\nnative reference: %r\ncompiled module under node: %r" % (r["variant"], a, b)
            rep.violation(name, what, [cpath, r["module"], os.path.join(wd, "inputs.json")], note)
        else:
            rep.errors.append("%s: counterexample does not reproduce: %s %s" % (name, what, r.get("replay")))
    elif st == "compile":
        # once more, so that an overloaded machine is not mistaken for a rejection
        base = r["variant"].split('#')[0]
        tries = [drive.compile_wasm(cpath, os.path.join(wd, "again.wasm"), drive.FLAGSETS[base], timeout=120)
                 for _ in range(3)]
        if not all(t[0] for t in tries):
            rep.violation(name, "the compiler rejects a program it has to accept [%s]: %s" % (r["variant"], r["detail"]),
                          [cpath], "c_to_wasm_compiler prog.c -o out.wasm %s" % ' '.join(drive.FLAGSETS[base]))
        else:
            rep.errors.append("%s: compiler failed once: %s" % (name, r["detail"]))
    elif st == "invalid":
        k = subprocess.run(["node", "-e", NODE_VALIDATE, r["module"]])
        if k.returncode != 0 or "no main" in r["detail"]:
            rep.violation(name, "%s [%s]" % (r["detail"], r["variant"]), [cpath, r["module"]])
        else:
            rep.errors.append("%s: %s, but node accepts the module" % (name, r["detail"]))
    elif st == "vacuous" and re.search(r'\.r\d+$', name):
        rep.add("random_programs_undefined", 1)      # a random program without one defined path decides nothing
    else:
        # the engine could not run the program symbolically: try what a plain run shows
        v = concrete(r, job, wd, cpath)
        if v:
            rep.violation(name, "%s; on zero inputs the module differs: %s" % ((r.get("detail") or '')[:200], v), [cpath])
        else:
            rep.errors.append("%s: %s %s" % (name, st, (r.get("detail") or '')[:600]))


def concrete(r, job, wd, cpath):
    rpath = os.path.join(wd, "ref.c") if job.get("refsrc") else cpath
    try:
        for v in job["variants"]:
            m = os.path.join(wd, v.replace('#', '_') + ".wasm")
            args = drive.conc_args(job["opts"].get("args", ["prog"]), [97] * 64)
            rp = drive.replay(rpath, m, [0] * 64, args, wd) if os.path.exists(m) else None
            if rp and drive.differs(rp) and rp[0][0] != 98:
                return repr(rp)[:300]
    except Exception:
        pass
    return None
