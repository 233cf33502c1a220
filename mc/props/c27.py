"""C27 the generator of the string headers"""
import os, shutil, sys
from concurrent.futures import ThreadPoolExecutor
from universe import *
from engine import Cfg, Case, sh, REPO, HERE, JOBS, first_error
import c13
from c13 import q, TEXT, LIM
STDS = ('11', '14', '17')
SHIM = os.path.join(HERE, 'py2shim.py')

class GCfg(Cfg):
    def __init__(self, std, inc, name, mx):
        # headers generated for less than the default limit need the limit lowered before they are included
        Cfg.__init__(self, std, ('BOOST_METAPARSE_LIMIT_STRING_SIZE=%d' % mx,) if mx < 32 else (), prelude='prelude_gen.hpp', name=name)
        self.inc = inc
    def flags(self): return ['-I' + self.inc] + Cfg.flags(self)

def generate(e, mx, step, default_dir=False):
    """(include directory, None) or (None, why)"""
    d = os.path.join(e.tmp, 'g%d' % e.uniq())
    inc = os.path.join(d, 'include')
    out = os.path.join(inc, 'boost', 'metaparse', 'v1', 'cpp11', 'impl')
    os.makedirs(out)
    script = os.path.join(REPO, 'tools', 'string_headers.py')
    args = []
    if default_dir:
        os.mkdir(os.path.join(d, 'tools'))
        shutil.copy(script, os.path.join(d, 'tools', 'string_headers.py'))
        script = os.path.join(d, 'tools', 'string_headers.py')
    else:
        args = ['--boost_dir', os.path.join(inc, 'boost')]
    if mx is not None:
        args += ['--max_length_limit', str(mx)]
    if step is not None:
        args += ['--length_limit_step', str(step)]
    rc, o, err, to = sh([sys.executable, '-B', SHIM, script] + args, 120, cwd=d)
    if rc != 0 or not os.path.exists(os.path.join(out, 'string.hpp')):
        return None, 'exit %s %s' % (rc, err.strip()[-400:])
    if sorted(os.listdir(out)) != ['string.hpp']:
        return None, 'produces %s' % sorted(os.listdir(out))
    return inc, None

def cases_for(mx, all_limits):
    cases, n = [], 0
    def add(lim, s):
        nonlocal n
        n += 1
        cases.append(Case('limit %d, literal of %d characters' % (lim, len(s)), (LIM % lim + 'typedef BOOST_METAPARSE_STRING(%s) X%d;' % (q(s), n),), 'lits<X%d>(@ID@, %s, %d);' % (n, q(s), len(s)), '%d same' % len(s)))
    for lim in all_limits:
        for k in sorted({lim, max(lim - 1, 0), lim // 2, min(lim, 1), 0}):
            add(lim, TEXT[lim % 9:][:k])
    return cases

def check(e, thorough):
    pairs = [(m, s) for m in range(1, 11) for s in range(1, 8)]
    pairs += [(m, s) for m in (12, 16, 17, 31, 32, 33, 40, 64, 65) for s in (1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 128)]
    pairs += [(m, s) for m in (100, 127, 128, 129, 130, 256, 257) for s in (1, 10, 64, 127, 128, 129, 300)]
    if thorough:
        pairs += [(m, s) for m in range(1, 34) for s in range(1, 36)] + [(m, s) for m in range(120, 140) for s in (8, 16, 60, 64, 127, 128, 129, 130)] + [(m, s) for m in (511, 512, 513, 600, 1023, 1024, 1025) for s in (64, 100, 128, 512)]
    pairs = sorted(set(pairs))
    jobs = [(m, s, STDS[i % 3]) for i, (m, s) in enumerate(pairs)] + [(600, 100, '11'), (1030, 512, '14'), (None, None, '17'), (None, None, '11'), (None, 100, '14'), (300, None, '11'), (2100, None, '17')]
    def one(j):
        m, s, std = j
        if e.violations:
            return None
        inc, why = generate(e, m, s, default_dir=m is None and std == '17')
        what = 'generator for maximum %s, step %s' % (m, s)
        if inc is None:
            return ('gen', what, why, 0, 0)
        mx = m or 2048
        if mx <= 70:
            lims = range(0, mx + 1)
        else:
            st = s or 128
            lims = sorted({x for b in range(0, mx + st, st) for x in (b - 1, b, b + 1) if 0 <= x <= mx} | {0, 1, 2, 127, 128, 129, mx - 1, mx}) if st > 20 else sorted({0, 1, 2, 31, 32, 33, 63, 64, 65, mx - 2, mx - 1, mx} | set(range(0, mx, 11)))
        lims = [x for x in lims if x <= mx]
        cfg = GCfg(std, inc, '%s c++%s' % (what, std), mx)
        cs = cases_for(mx, lims)
        bad = []
        def rec(c):
            stt, r = e.attempt(c, cfg, 300, use_pch=False)
            if stt == 'ok':
                for x, g in zip(c, r):
                    if g not in x.expect:
                        bad.append((x, g))
                return
            if stt == 'timeout':
                return
            if len(c) == 1:
                bad.append((c[0], '<%s: %s>' % (stt, first_error(r))))
                return
            h = (len(c) + 3) // 4
            for i in range(0, len(c), h):
                rec(c[i:i + h])
                if bad:
                    return
        rec(cs)
        # too long for the limit in force
        nf = 0
        for lim in sorted({0, 1, mx // 2, mx}) if not bad and (mx in (1, 5, 16, 33, 128) or thorough) else ():
            k = lim + 1
            ok, err, to = e.compile_text('#include "prelude_gen.hpp"\nnamespace vf { std::string out; }\n' + LIM % lim + 'typedef BOOST_METAPARSE_STRING(%s) X; X x; int main() {}' % q(TEXT[:k]), cfg, use_pch=False)
            nf += 1
            if ok:
                return ('long', what, 'limit %d, literal of %d characters compiles' % (lim, k), 0, 0)
        if bad:
            x, g = bad[0]
            return ('lit', '%s [c++%s]: %s' % (what, std, x.desc), g, e.source([x], cfg, standalone=True), 0)
        shutil.rmtree(os.path.dirname(inc), ignore_errors=True)
        return ('ok', len(cs) + nf, len(lims))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    for j, r in zip(jobs, res):
        if r is None:
            continue
        e.states += 1
        if r[0] == 'ok':
            e.executions += r[1]
            e.transitions += r[2]
            e.outcomes['all literals reproduced'] = e.outcomes.get('all literals reproduced', 0) + 1
            if len(e.samples) < 5 and e.states % 40 == 1:
                e.samples.append({'case': 'maximum %s step %s c++%s' % j, 'observed': '%d limits, %d literals reproduced or rejected as they should' % (r[2], r[1])})
        elif len(e.violations) < 3:
            e.violation(r[1], 'every limit up to the maximum works and literals are reproduced', r[2], str(r[3]))
    return dict(assumptions=['(maximum, step) pairs: 1..10 x 1..7, and families around 16..257, 600, 1030, 2048; the Python 2 generator runs under Python 3 through mc/py2shim.py (tuple parameters, xrange, integer division, text written to binary files)'])
