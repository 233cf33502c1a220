"""Compiles batches of cases against /repo's headers, runs them and compares the observations with what the
model allows; finds single failing cases by splitting, confirms them and writes replayable artefacts."""
import os, sys, json, time, re, shutil, subprocess, tempfile, itertools, atexit, signal, resource
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
os.environ['LC_ALL'] = 'C'
REPO = os.environ.get('MC_REPO', '/repo')
JOBS = int(os.environ.get('MC_JOBS', str(os.cpu_count() or 4)))
ALL_STDS = ('98', '11', '14', '17')

class Cfg(object):
    """a compiler configuration"""
    def __init__(self, std, defs=(), cxx='g++', prelude='prelude.hpp', name=None):
        self.std, self.defs, self.cxx, self.prelude = std, tuple(defs), cxx, prelude
        self.name = name or ('%s-c++%s%s' % (cxx, std, ''.join('-' + d for d in self.defs)))
    def key(self): return (self.std, self.defs, self.cxx, self.prelude)
    def flags(self):
        f = ['-std=c++' + self.std, '-w', '-O0', '-I' + os.path.join(REPO, 'include'), '-I' + HERE]
        if self.cxx == 'g++':
            f += ['-fno-var-tracking', '-ftemplate-depth=' + os.environ.get('MC_DEPTH', '900'), '-fmax-errors=5', '-ftemplate-backtrace-limit=6']
        else:
            f += ['-ftemplate-depth=1024', '-Wno-enum-constexpr-conversion', '-ferror-limit=5', '-fbracket-depth=1024']
        return f + ['-D' + d for d in self.defs]

class Case(object):
    __slots__ = ('desc', 'decls', 'stmt', 'expect', 'cfgs', 'key')
    def __init__(self, desc, decls, stmt, expect, cfgs=None):
        """stmt contains @ID@; expect: frozenset of allowed observations (a '?' matches anything)"""
        self.desc, self.decls, self.stmt, self.cfgs = desc, decls, stmt, cfgs
        self.expect = frozenset([expect]) if isinstance(expect, str) else expect

def allowed(expect, got):
    if expect is None:
        return not got.startswith('<')
    if got in expect:
        return True
    for e in expect:
        if '?' in e and re.fullmatch(re.escape(e).replace('\\?', '.*'), got):
            return True
    return False

class ToolError(Exception):
    pass

def limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    os.setsid()

def sh(cmd, timeout, cwd=None, env=None):
    """(rc, stdout, stderr, timed out)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=limit, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        o, e = p.communicate()
    return p.returncode, o.decode('latin-1'), e.decode('latin-1'), to

class Engine(object):
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='mc_%s_' % prop)
        atexit.register(self.cleanup)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
        self.pch = {}
        self.violations = []     # (case desc, cfg name, expected, observed, replay)
        self.executions = 0
        self.compiles = 0
        self.outcomes = {}
        self.samples = []
        self.notes = {}
        self.states = 0
        self.transitions = 0
        self.seq = 0
        self.known = load_known(prop)
        self.known_hit = {}
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay', prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        self.record = None       # optional hook: (case, cfg, observation)
        self.max_reports = 3

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- building
    def uniq(self):
        self.seq += 1
        return self.seq

    def prepare(self, cfg):
        """builds the precompiled prelude; a failure is reported as a violation (the library does not compile)"""
        k = cfg.key()
        if k in self.pch:
            return self.pch[k]
        d = os.path.join(self.tmp, 'pch%d' % self.uniq())
        os.mkdir(d)
        h = os.path.join(d, 'prelude_.hpp')
        with open(h, 'w') as f:
            f.write('#include "%s"\n' % cfg.prelude)
        ext = '.gch' if cfg.cxx == 'g++' else '.pch'
        rc, o, e, to = sh([cfg.cxx] + cfg.flags() + ['-x', 'c++-header', h, '-o', h + ext], 300)
        self.compiles += 1
        self.pch[k] = (h, rc == 0, e)
        return self.pch[k]

    def source(self, cases, cfg, standalone=False):
        L = []
        if standalone:
            L.append('#include "%s"' % os.path.join(HERE, cfg.prelude))
        L.append('namespace vf { std::string out; }')
        L.append('namespace vf {')
        seen = set()
        for c in cases:
            for d in c.decls:
                if d not in seen:
                    seen.add(d)
                    L.append(d)
        L.append('}')
        n = 0
        for i in range(0, len(cases), 40):
            L.append('static void f%d() { using namespace vf;' % n)
            for j, c in enumerate(cases[i:i + 40]):
                L.append(c.stmt.replace('@ID@', str(i + j)))
            L.append('}')
            n += 1
        L.append('int main() { ')
        for k in range(n):
            L.append('f%d();' % k)
        L.append('std::fwrite(vf::out.data(), 1, vf::out.size(), stdout); return 0; }')
        return '\n'.join(L) + '\n'

    def attempt(self, cases, cfg, timeout, use_pch=True):
        """('ok', [observations]) | ('compile', err) | ('run', err) | ('timeout', err)"""
        h, okpch, err = self.prepare(cfg) if use_pch else (None, True, '')
        if not okpch:
            return ('compile', err)
        b = os.path.join(self.tmp, 't%d' % self.uniq())
        with open(b + '.cpp', 'w', encoding='latin-1') as f:
            f.write(self.source(cases, cfg, standalone=not use_pch))
        inc = []
        if use_pch:
            inc = ['-include', h] if cfg.cxx == 'g++' else ['-include-pch', h + '.pch']
        rc, o, e, to = sh([cfg.cxx] + cfg.flags() + inc + [b + '.cpp', '-o', b + '.x'], timeout)
        self.compiles += 1
        os.unlink(b + '.cpp')
        if to:
            return ('timeout', 'compilation did not end in %d s' % timeout)
        if rc != 0 or not os.path.exists(b + '.x'):
            return ('compile', e)
        rc, o, e, to = sh([b + '.x'], 60)
        os.unlink(b + '.x')
        if to or rc != 0:
            return ('run', 'exit %s %s' % (rc, e[:500]))
        res = {}
        for line in o.split('\n'):
            if '\t' in line:
                i, _, r = line.partition('\t')
                res[int(i)] = r
        return ('ok', [res.get(i, '<no observation>') for i in range(len(cases))])

    # ---- checking
    def check_batch(self, cases, cfg):
        """returns list of (case, cfg, observed) mismatches"""
        st, r = self.attempt(cases, cfg, 200)
        if st == 'ok':
            bad = []
            for c, g in zip(cases, r):
                self.executions += 1
                if self.record:
                    self.record(c, cfg, g)
                k = g.split(' ')[0] if g else ''
                self.outcomes[g] = self.outcomes.get(g, 0) + 1
                if len(self.samples) < 6 and self.executions % 997 == 1:
                    self.samples.append({'case': c.desc, 'config': cfg.name, 'observed': g})
                if not allowed(c.expect, g):
                    bad.append((c, cfg, g))
            return bad
        if len(cases) == 1:
            self.executions += 1
            if st == 'timeout':
                st, r = self.attempt(cases, cfg, 400)
                if st == 'ok':
                    return [] if allowed(cases[0].expect, r[0]) else [(cases[0], cfg, r[0])]
            return [(cases[0], cfg, '<%s: %s>' % ('does not compile' if st == 'compile' else st, first_error(r)))]
        # split: find one failing case quickly, then stop
        n = max(1, (len(cases) + 7) // 8)
        bad = []
        for i in range(0, len(cases), n):
            b = self.check_batch(cases[i:i + n], cfg)
            bad += b
            if len(bad) >= 1 and any(x[2].startswith('<') for x in bad):
                break
        return bad

    def run(self, cases, cfgs=None, batch=250, alternate=None):
        """checks all cases under all configurations; stops early after the first violations"""
        if alternate is None:
            alternate = self.tier != 'thorough'    # C++14 and C++17 select the same implementation: share the cases
        cfgs = cfgs or [Cfg(s) for s in ALL_STDS]
        work = []
        for cfg in cfgs:
            cs = [c for i, c in enumerate(cases) if (c.cfgs is None or cfg.std in c.cfgs)
                  and not (alternate and cfg.std in ('14', '17') and (i // 7) % 2 != (cfg.std == '17'))]
            nb = max(1, min((len(cs) + batch - 1) // batch, 10 ** 6))
            if len(cs) > 8 * 60:       # balance
                nb = ((nb + 1) // 2) * 2
            size = (len(cs) + nb - 1) // nb if cs else 1
            for i in range(0, len(cs), size):
                work.append((cs[i:i + size], cfg))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(self.prepare, cfgs))
            stop = []
            def one(wk):
                if stop:
                    return None
                b = self.check_batch(*wk)
                if b:
                    real = [x for x in b if not self.is_known(x)]
                    if real:
                        stop.append(1)
                return b
            res = list(ex.map(one, work))
        skipped = sum(1 for r in res if r is None)
        if skipped:
            self.notes['batches_skipped_after_violation'] = skipped
        for b in res:
            for x in (b or []):
                if self.is_known(x):
                    continue
                self.report(*x)

    def compile_text(self, text, cfg, timeout=300, extra=(), use_pch=True):
        """(compiled?, diagnostics, timed out?)"""
        inc = []
        if use_pch:
            h, okpch, err = self.prepare(cfg)
            if not okpch:
                return (False, err, False)
            inc = ['-include', h] if cfg.cxx == 'g++' else ['-include-pch', h + '.pch']
        b = os.path.join(self.tmp, 's%d.cpp' % self.uniq())
        with open(b, 'w', encoding='latin-1') as f:
            f.write(text)
        rc, o, e, to = sh([cfg.cxx] + cfg.flags() + inc + ['-fsyntax-only'] + list(extra) + [b], timeout)
        self.compiles += 1
        os.unlink(b)
        return (rc == 0 and not to, e, to)

    def must_fail(self, items, use_pch=True):
        """items: (desc, text, cfg, predicate on the diagnostics or None); every one has to be rejected by the compiler"""
        def one(it):
            desc, text, cfg, pred = it
            ok, err, to = self.compile_text(text, cfg, use_pch=use_pch)
            if to or 'internal compiler error' in err or 'out of memory' in err:
                return (it, 'no answer', err) if not to else None
            if ok:
                return (it, 'compiles', '')
            if pred is not None:
                m = pred(err)
                if m is not None:
                    return (it, m, err)
            return None
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(self.prepare, list({i[2].key(): i[2] for i in items}.values())))
            res = list(ex.map(one, items))
        self.executions += len(items)
        for (it, r) in zip(items, res):
            k = 'rejected at compile time' if r is None else r[1]
            self.outcomes[k] = self.outcomes.get(k, 0) + 1
            if r is not None:
                c = Case(it[0], (), '', 'does not compile')
                if self.is_known((c, it[2], r[1])) or len(self.violations) >= self.max_reports:
                    continue
                self.violation(it[0] + ' [' + it[2].name + ']', 'rejected at compile time' + (' with the right diagnostic' if it[3] else ''), r[1],
                               '// %s %s\n#include "%s"\n%s\n/*\n%s\n*/' % (it[2].cxx, ' '.join(it[2].flags()), it[2].prelude, it[1], r[2][:20000]))

    def is_known(self, x):
        c, cfg, g = x
        for k in self.known:
            if k['case'] == c.desc and k.get('config') in (None, cfg.name):
                self.known_hit[k['what']] = 1
                return True
        return False

    def report(self, c, cfg, got):
        """confirm alone, from scratch, then record"""
        if len(self.violations) >= self.max_reports:
            self.violations.append(None)
            return
        st, r = self.attempt([c], cfg, 400, use_pch=False)
        g2 = r[0] if st == 'ok' else '<%s: %s>' % ('does not compile' if st == 'compile' else st, first_error(r))
        note = ''
        if allowed(c.expect, g2):
            note = 'NOTE: only observed in a batch; alone it gave %r' % g2
            if got.startswith('<'):
                self.notes.setdefault('unconfirmed', []).append(c.desc)
                return
        self.write_replay(c, cfg, got if note else g2, note)

    def write_replay(self, c, cfg, got, note=''):
        os.makedirs(self.replay_dir, exist_ok=True)
        p = os.path.join(self.replay_dir, 'v%d.cpp' % (len(self.violations) + 1))
        exp = ' OR '.join(sorted(c.expect)) if c.expect is not None else '(compiles and runs)'
        with open(p, 'w', encoding='latin-1', errors='backslashreplace') as f:
            f.write('// property %s violated\n// case: %s\n// configuration: %s\n// allowed by the model: %s\n// observed: %s\n// %s\n'
                    '// replay: %s %s -o /tmp/replay.x THISFILE && /tmp/replay.x\n'
                    % (self.prop, c.desc.replace('\n', '\\n'), cfg.name, exp.replace('\n', '\\n'), got.replace('\n', '\\n'), note,
                       cfg.cxx, ' '.join(cfg.flags())))
            f.write(self.source([c], cfg, standalone=True))
        self.violations.append((c.desc, cfg.name, exp, got, p))

    def violation(self, desc, exp, got, text):
        """violation found by something other than a Case"""
        os.makedirs(self.replay_dir, exist_ok=True)
        p = os.path.join(self.replay_dir, 'v%d.txt' % (len(self.violations) + 1))
        with open(p, 'w', encoding='latin-1', errors='backslashreplace') as f:
            f.write('property %s violated\ncase: %s\nallowed: %s\nobserved: %s\n\n%s\n' % (self.prop, desc, exp, got, text))
        self.violations.append((desc, '', exp, got, p))

    # ---- finishing
    def finish(self, level='model_checking', exhaustive=True, assumptions=(), extra=None):
        for what in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        cov = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.executions,
            'samples': self.samples or [{'note': 'no sample'}],
            'distinct_observations': len(self.outcomes),
            'compilations': self.compiles,
            'exhaustive': bool(exhaustive) and not self.violations,
        }
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        ev = {'property': self.prop, 'tier': 'thorough' if self.tier == 'thorough' else 'quick', 'seed': self.seed, 'level': level,
              'coverage': cov, 'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d model states, %d transitions, %d executions compared, %d distinct observations, %.1f s' % (
            self.prop, ev['tier'], self.states, self.transitions, self.executions, len(self.outcomes), ev['wall_s']))
        vs = [v for v in self.violations if v]
        for d, cfg, exp, got, p in vs:
            print('  case: %s [%s]\n    allowed:  %s\n    observed: %s' % (esc_line(d), cfg, esc_line(exp)[:600], esc_line(got)[:600]))
        if vs:
            print('VIOLATION property=%s replay=%s' % (self.prop, vs[0][4]))
            return 1
        return 0

def esc_line(s):
    return s.replace('\n', '\\n').replace('\r', '\\r')

def first_error(e):
    for l in e.split('\n'):
        if 'error' in l:
            return l.strip()[:300]
    return e.strip()[:300]

def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]
