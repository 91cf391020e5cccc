"""Programs the checks decide: hand-written corpora (corpus/<id>*.c) and systematic
generators (gen.py). A program without main is the body of main."""
import glob
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MAIN = 'int main(int argc, char **argv){\n%s\nreturn 0;}\n'


def wrap(src):
    return src if re.search(r'\bmain\s*\(', src) else MAIN % src


def wrap_in(body):
    """like wrap, with #include lines kept in front"""
    inc = ''.join(l + '\n' for l in body.split('\n') if l.startswith('#'))
    return inc + wrap('\n'.join(l for l in body.split('\n') if not l.startswith('#'))) if inc else wrap(body)


def load(pid):
    """[(name, src, opts, variants or None)] of corpus/<pid>*.c"""
    out = []
    for fn in sorted(glob.glob(os.path.join(VERIF, "corpus", pid + "*.c"))):
        parts = re.split(r'^////[ ]*(.*)$', open(fn, encoding='utf-8').read(), flags=re.M)
        for head, body in zip(parts[1::2], parts[2::2]):
            out.append(parse(pid, head, body))
    return out


def parse(pid, head, body):
    toks = head.split()
    opts, variants = {}, None
    for t in toks[1:]:
        k, v = t.split('=', 1)
        if k == 'variants':
            variants = v.split(',')
        elif k == 'args':
            opts['args'] = [int(x) if x.isdigit() else x for x in v.split(',')]
        elif k in ('only', 'ref', 'mon'):
            opts[k] = v
        else:
            opts[k] = int(v)
    if '\n//ref\n' in body:      # the reference's own source, which does not see the repository's headers
        body, ref = body.split('\n//ref\n')
        opts['refsrc'] = wrap_in(ref)
    return (pid + '.' + toks[0], wrap_in(body), opts, variants)
