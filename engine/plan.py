"""What each property's check runs."""
import corpus
import gen
import randprog
import runner
import re

BASE = ['default', 'noopt']
ALL = ['C%02d' % i for i in range(1, 19)] + ['C25']

# features of the generated programs, by property
FEATS = {
    'C03': 'logic,loop',
    'C04': 'array,ptr,struct,global',
    'C05': 'loop,logic,scope',
    'C06': 'loop,logic,switch',
    'C07': 'loop,logic,switch,goto',
    'C08': 'call,ret,global,loop',
    'C09': 'ptr,array,global,loop',
    'C10': 'array,loop,global',
    'C11': 'struct,loop,array',
    'C12': 'global,call,struct,array',
    'C15': 'call,ret,loop,logic',
    'C16': 'loop,switch,goto,call,ret,array,ptr,logic,scope',
    'C17': 'call,ret,logic,loop',
    'C18': 'call,ret,loop,global,array',
    'C19': 'call,ret,loop,logic',
    'C20': 'call,ret,loop,global,logic,switch',
    'C24': 'loop,switch,goto,call,ret,global,struct,array,ptr,logic,scope',
    'C25': 'loop,switch,goto,call,ret,global,struct,array,ptr,logic,scope',
}

# corpora of neighbouring properties that exercise the same guarantee
ALSO = {
    'C01': [], 'C02': ['C08'], 'C03': ['C05'], 'C04': ['C09'], 'C05': ['C06', 'C07'], 'C06': ['C07', 'C05'],
    'C07': ['C05', 'C06'], 'C08': ['C15', 'C12'], 'C09': ['C10', 'C11'], 'C10': ['C09'], 'C11': ['C09'],
    'C12': ['C10'], 'C14': ['C12'], 'C15': ['C08'], 'C17': ['C08', 'C15'], 'C20': ['C08', 'C15', 'C25'],
}

VARIANTS = {
    'C15': ['default', 'notail', 'tail-only', 'noopt'],
    'C16': ['default', 'nostack', 'stack-only', 'default#1', 'stack-only#1'],
    'C17': ['default', 'nounreach', 'unreach-only'],
    'C18': ['prof', 'prof-noopt'],
    'C19': ['default', 'tail-only'],
    'C20': ['default', 'noopt', 'tail-only', 'stack-only'],
    'C24': ['default', 'default#1', 'default#2', 'default#3', 'noopt', 'noopt#1', 'stack-only', 'tail-only'],
}

WHOLE = ('C16', 'C18', 'C24')        # these run on the corpora of all properties

RAND_Q, RAND_T = 80, 700


def programs(pid, thorough):
    """hand-written and systematic programs of a property"""
    out = corpus.load(pid)
    if pid in gen.GENS:
        for n, s in gen.GENS[pid](thorough):
            out.append(('%s.g.%s' % (pid, n), s, {}, None))
    return out


def random_programs(pid, n, seed, size=14):
    base = (seed - 1) * 100000 + int(pid[1:]) * 2000
    feats = FEATS[pid].split(',')
    return [('%s.r%d' % (pid, base + i), randprog.program(base + i, feats, size if i % 3 else size + 8),
             dict(budget_s=12, max_paths=30, timeout_ms=4000), None) for i in range(n)]


def jobs_for(pid, tier, seed):
    th = tier == 'thorough'
    js = []
    if pid in WHOLE:
        for q in ALL:
            ps = programs(q, th)
            if not th and q in ('C01', 'C02', 'C03', 'C04', 'C14'):
                # the large operator tables: every third program in the quick tier
                ps = [p for i, p in enumerate(ps) if '.g.' not in p[0] or i % 3 == 0]
            js += [p for p in ps if not p[2].get('own')]      # known findings of q stay q's
        if pid not in ALL:
            js += programs(pid, th)
    else:
        js += programs(pid, th)
        for q in ALSO.get(pid, []):
            js += [p for p in corpus.load(q) if not p[2].get('own')]
    if pid in FEATS:
        js += random_programs(pid, RAND_T if th else RAND_Q, seed)
    vs = VARIANTS.get(pid, BASE)
    if th:
        vs = vs + [v + '#7' for v in vs if '#' not in v] + ([] if pid in VARIANTS else ['stack-only', 'tail-only'])
    out = []
    for name, src, opts, v in js:
        o = dict(opts)
        if pid == 'C19' and '.g.' in name:
            o['mon'] = 'tbf'
        if pid == 'C20' and 'mon' not in o:
            # generated C20 programs have no arrays and no pointers
            o['mon'] = 'bf' if re.search(r'\.r\d+$', name) else 'l'
        if th:
            for k in ('budget_s', 'max_paths'):
                if k in o:
                    o[k] *= 3
        out.append((name, src, o, v or vs))
    return out


def run(rep, pid, tier, seed):
    import special
    if pid in special.STAGES:
        special.STAGES[pid](rep, tier, seed)
        return
    tv(rep, pid, tier, seed)


def tv(rep, pid, tier, seed, extra=None):
    jobs = jobs_for(pid, tier, seed)
    if extra:
        for j in jobs:
            j[2].update(extra)
    rep.cov["variants"] = sorted({v for j in jobs for v in j[3]})
    rep.cov["bounds"] = ("per program: at most %d paths and 60 s; reference 30000 and module 600000 instructions per "
                         "path; generated programs 30 paths (x3 thorough); inputs are arbitrary 64-bit values" % 300)
    rep.cov["functions_encoded"] = ("every function of every emitted module (all instructions reached) and of the "
                                    "reference's LLVM IR; regenerated from /repo by this run")
    rep.assumptions += [
        "clang 18 -O0 gives the C meaning of the source (x86-64; pointers of the subject are 4 bytes, no program "
        "depends on their size); paths on which C leaves the behaviour undefined are excluded",
        "the run-time library is represented by stubs with the frame protocol (its own behaviour is C22's)",
        "z3's verdicts"]
    runner.tv_stage(rep, jobs, budget=640 if tier == 'quick' else 3000)
