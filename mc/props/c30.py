"""C30 the environment builder pins exactly what the dependency file says, and loses nothing when a command fails"""
import itertools, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from engine import HERE, REPO, JOBS

PATHS = {'': 'boost', 'libs/a': 'a', 'libs/b': 'b', 'tools/c': 'c'}
GITCONF = '''[user]
 name = n
 email = n@example.org
[protocol "file"]
 allow = always
[safe]
 directory = *
[init]
 defaultBranch = master
[gc]
 auto = 0
[maintenance]
 auto = false
[advice]
 detachedHead = false
'''
WRAP = '''#!/bin/sh
# counts the git commands of one run; one of them fails, or something happens right before it
n=$(cat "$MC_DIR/count" 2>/dev/null); n=$((${n:-0}+1)); echo $n > "$MC_DIR/count"
echo "$*" >> "$MC_DIR/log"
if [ "$n" = "$MC_AT" ]; then
  case "$MC_MODE" in
    before) exit 1;;
    after) %(git)s "$@"; exit 1;;
    signal) kill -9 $$;;
    kill) kill -9 $PPID; exit 1;;
    move) (unset GIT_DIR; for p in $MC_MOVE; do cd "$MC_WORLD/$p" && %(git)s update-ref refs/heads/master refs/next/master; done);;
  esac
fi
exec %(git)s "$@"
'''

def demote():
    os.setsid()
    try:
        os.setgroups([]); os.setgid(65534); os.setuid(65534)
    except OSError:
        pass

class World(object):
    def __init__(self, e):
        self.e = e
        self.root = os.path.join(e.tmp, 'scratch')
        os.mkdir(self.root)
        os.chmod(e.tmp, 0o755); os.chmod(self.root, 0o777)
        self.git = shutil.which('git')
        self.env = {'PATH': os.environ.get('PATH', ''), 'LC_ALL': 'C.UTF-8', 'HOME': self.root, 'GIT_CONFIG_NOSYSTEM': '1', 'GIT_TERMINAL_PROMPT': '0',
                    'GIT_AUTHOR_DATE': '2020-01-01T00:00:00Z', 'GIT_COMMITTER_DATE': '2020-01-01T00:00:00Z', 'TMPDIR': self.root}
        self.conf = os.path.join(e.tmp, 'gitconfig')
        open(self.conf, 'w').write(GITCONF)
        self.env['GIT_CONFIG_GLOBAL'] = self.conf
        os.mkdir(os.path.join(e.tmp, 'bin'))
        self.wrap = os.path.join(e.tmp, 'bin', 'git')
        open(self.wrap, 'w').write(WRAP % {'git': self.git})
        os.chmod(self.wrap, 0o755); os.chmod(self.conf, 0o644)
        self.tool = os.path.join(e.tmp, 'tools')
        os.mkdir(self.tool)
        for f in os.listdir(os.path.join(REPO, 'tools')):
            if f.endswith('.py'):
                open(os.path.join(self.tool, f), 'wb').write(open(os.path.join(REPO, 'tools', f), 'rb').read())
        shim = os.path.join(e.tmp, 'shim.py')
        open(shim, 'w').write(open(os.path.join(HERE, 'py2shim.py')).read())
        self.cmd = [sys.executable, '-W', 'ignore', '-B', shim, os.path.join(self.tool, 'build_environment.py')]
        self.src = os.path.join(self.root, 'world')
        self.ids = {}
        self.build()

    def sh(self, cmd, cwd, ok=True, env=None, timeout=120):
        p = subprocess.Popen(cmd, cwd=cwd, env=dict(self.env, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=demote)
        try:
            o, er = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            o, er = p.communicate()
            return 'timeout', '', ''
        if ok and p.returncode:
            raise RuntimeError('%s: %s' % (cmd, er.decode('latin-1')[-800:]))
        return p.returncode, o.decode('latin-1'), er.decode('latin-1')

    def build(self):
        """master: m0 m1 m2 (m3 comes later), develop: m1 d0; the same in every project"""
        for path in ['libs/a', 'libs/b', 'tools/c', '']:
            n = PATHS[path]
            d = os.path.join(self.src, n)
            S = ['mkdir -p "%s"' % d, 'cd "%s"' % d, 'g=%s' % self.git, '$g init -q', '$g symbolic-ref HEAD refs/heads/master']
            def commit(i):
                S.extend(['echo %s %s > f' % (n, i), '$g add f', '$g commit -qm "%s %s"' % (n, i)])
            if path == '':
                for k in ('libs/a', 'libs/b', 'tools/c'):
                    S.append('$g submodule add -q ../%s %s' % (PATHS[k], k))
                    S.append('(cd %s && $g checkout -q %s)' % (k, self.ids[k]['m0']))
                    S.append('$g add %s' % k)
                S.append('$g remote add origin "%s"' % d)
            for i in ('m0', 'm1'):
                commit(i)
                S.append('$g update-ref refs/keep/%s HEAD' % i)
            S.append('$g checkout -q -b develop')
            commit('d0')
            S.append('$g update-ref refs/keep/d0 HEAD')
            S.append('$g checkout -q master')
            commit('m2'); S.append('$g update-ref refs/keep/m2 HEAD')
            commit('m3'); S.append('$g update-ref refs/next/master HEAD')
            S.append('$g reset -q --hard refs/keep/m2')
            # a branch of another name that ends alike, and a tag
            S.append('$g branch feature/master refs/keep/m0')
            S.append('$g tag v1 refs/keep/m1')
            S.append('$g for-each-ref refs/keep refs/next > "%s.refs"' % d)
            self.sh(['sh', '-e', '-c', '\n'.join(S)], self.root)
            ids = {}
            for l in open(d + '.refs'):
                h, _, r = l.split()
                ids[r.split('/')[-1] if 'next' not in r else 'm3'] = h
            self.ids[path] = ids

    def heads(self, clone, base, src):
        """the commit each project of the clone is at (None: not there)"""
        r = {}
        for path in PATHS:
            d = os.path.join(clone, path)
            if not os.path.exists(os.path.join(d, '.git')):
                r[path] = None
                continue
            rc, o, _ = self.sh([self.git, 'rev-parse', 'HEAD'], d, ok=False)
            r[path] = o.strip() if rc == 0 else None
            # what is checked out is what HEAD says
            if r[path]:
                names = [k for k, v in self.ids[path].items() if v == r[path]]
                try:
                    got = open(os.path.join(d, 'f')).read().strip()
                except OSError:
                    got = 'no file'
                if names and got != '%s %s' % (PATHS[path], names[0]):
                    r[path] = 'files of ' + got
        return r

    def run(self, job):
        """job: action, deps (text), opts, mode, at, move, steps -> observation"""
        w = os.path.join(self.root, 'r%d' % job['n'])
        self.sh(['mkdir', w], self.root)
        src = self.src
        if job.get('move'):
            src = os.path.join(w, 'world')
            self.sh(['cp', '-a', self.src, src], w)
            # relative addresses of the submodules follow the copy
            self.sh([self.git, 'remote', 'set-url', 'origin', os.path.join(src, 'boost')], os.path.join(src, 'boost'))
        deps = os.path.join(w, 'deps.json')
        with open(deps, 'w') as f:
            f.write(job['deps'])
        os.chmod(deps, 0o666)
        os.chown(deps, 65534, 65534) if os.getuid() == 0 else None
        env = {'MC_DIR': w, 'MC_AT': str(job.get('at', 0)), 'MC_MODE': job.get('mode', ''), 'MC_WORLD': src, 'MC_MOVE': ' '.join(PATHS[p] for p in job.get('move') or ())}
        if job.get('pathgit'):
            env['PATH'] = os.path.dirname(self.wrap) + ':' + self.env['PATH']
        out = job.get('out', 'boost')
        if job.get('occupied'):
            self.sh(['sh', '-c', 'mkdir -p "%s" && echo mine > "%s/mine"' % (out, out)], w)
        args = ['--dep_json', 'deps.json' if job.get('rel') else deps, '--action', job['action'], '--boost_repository', os.path.join(src, 'boost')]
        if out != 'boost':
            args += ['--out', out]
        if not job.get('pathgit'):
            args += ['--git', self.wrap]
        if job.get('ref'):
            args += ['--ref', job['ref']]
        rc, o, er = self.sh(self.cmd + args, w, ok=False, env=env)
        try:
            after = open(deps).read()
        except OSError:
            after = None
        try:
            n = int(open(os.path.join(w, 'count')).read())
        except (OSError, ValueError):
            n = 0
        res = dict(rc=rc, deps=after, calls=n, err=er[-300:], heads=None, mine=None)
        if job.get('occupied'):
            p = os.path.join(w, out)
            res['mine'] = sorted(os.listdir(p)) if os.path.isdir(p) else None
        elif rc == 0:
            res['heads'] = self.heads(os.path.join(w, out), w, src)
        log = os.path.join(w, 'log')
        res['log'] = open(log).read() if os.path.exists(log) else ''
        self.sh(['rm', '-rf', w], self.root)
        return res

def text(d, style=0):
    if style == 0:
        return json.dumps(d, sort_keys=True, indent=2)
    if style == 1:
        return json.dumps(dict(sorted(d.items(), reverse=True))) + '\n'
    return json.dumps(d, sort_keys=True, indent=2).replace(',\n', ', \n') + '\n'

def check(e, thorough):
    w = World(e)
    ids = w.ids
    jobs = []
    def add(**k):
        k['n'] = len(jobs)
        jobs.append(k)
        e.states += 1
    def pin(a): return {p: ids[p][c] for p, c in a.items() if c}
    # every assignment of commits to projects
    C = ('', 'm0', 'm1', 'm2', 'd0')
    k = 0
    for c in itertools.product(C, C, ('', 'm1') if not thorough else C, ('', 'm2', 'd0')):
        a = dict(zip(PATHS, c))
        if thorough or c[3] == '' or c[2] == '':
            k += 1
            add(action='checkout', pins=a, deps=text(pin(a), k % 3), pathgit=k % 2, rel=k % 3 == 0, out='boost' if k % 4 else 'x/env')
    # every set of projects and every kind of reference
    for c in itertools.product(('', 'm0', 'm2'), repeat=4):
        a = dict(zip(PATHS, c))
        if not thorough and c.count('') < 2 and len(set(c)) > 1 and c[0] != '':
            continue
        for ref, want in ((None, 'm2'), ('origin/develop', 'd0'), ('refs/tags/v1', 'm1'), ('origin/feature/master', 'm0')):
            if not thorough and ref and len(set(c)) > 2:
                continue
            k += 1
            add(action='update', pins=a, deps=text(pin(a), k % 3), ref=ref, want=want, pathgit=k % 2, rel=k % 3 == 0)
    # things that cannot work
    bad = 'f' * 40
    good = pin({'': 'm1', 'libs/a': 'm1', 'tools/c': 'm2'})
    for p in PATHS:
        add(action='checkout', deps=text(dict(good, **{p: bad})), fails='unknown commit for %r' % p)
    for action in ('checkout', 'update'):
        add(action=action, deps=text(dict(good, **{'libs/none': bad})), fails='unknown project')
        add(action=action, deps='{', fails='malformed file')
        add(action=action, deps='', fails='empty file')
        add(action=action, deps=text(good), occupied=True, fails='the target directory is occupied')
    for ref in ('origin/none', 'v2', 'refs/heads/none'):
        for a in ({'': 'm0'}, {'libs/a': 'm0'}, {'': 'm0', 'libs/a': 'm1', 'libs/b': 'm2', 'tools/c': 'm0'}):
            add(action='update', deps=text(pin(a)), ref=ref, fails='unknown reference')
    add(action='destroy', deps=text(good), fails='unknown action')
    # first the number of commands of each action
    sets = [{'': 'm1', 'libs/a': 'm1', 'tools/c': 'd0'}, {'libs/b': 'm0'}, {'': 'm0'}] if not thorough else \
           [{'': 'm1', 'libs/a': 'm1', 'tools/c': 'd0'}, {'libs/b': 'm0'}, {'': 'm0'}, {'libs/a': 'm0', 'libs/b': 'm1'}, {p: 'm1' for p in PATHS}]
    faults = []
    base = []
    for a in sets:
        for action in ('checkout', 'update'):
            base.append((action, a, w.run(dict(action=action, deps=text(pin(a)), n='b%d' % len(base) if 0 else 900000 + len(base)))))
    for action, a, r in base:
        if r['rc'] != 0:
            e.violation('%s %r' % (action, a), 'works', 'exit %s %s' % (r['rc'], r['err']), text(pin(a)))
            return dict(assumptions=[])
        for at in range(1, r['calls'] + 1):
            for mode in ('before', 'after', 'signal', 'kill'):
                # a failing command after which nothing is left to do is still a failure
                add(action=action, deps=text(pin(a)), at=at, mode=mode, pathgit=at % 2, fails='git command %d of %d: %s' % (at, r['calls'], {'before': 'fails', 'after': 'is carried out and fails', 'signal': 'is killed', 'kill': 'the tool is killed there'}[mode]))
            if action == 'update':
                for mv in [tuple(a)] + [(p,) for p in a]:
                    add(action=action, pins=a, deps=text(pin(a)), at=at, mode='move', move=mv, want='m2')
    with ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(w.run, jobs))
    pairs = []
    for j, r in zip(jobs, results):
        e.executions += 1
        e.transitions += r['calls']
        name = '%s of %s%s' % (j['action'], json.dumps(j.get('pins') or j['deps'])[:300], ''.join(' %s=%s' % (k, j[k]) for k in ('ref', 'out', 'move', 'at') if j.get(k)))
        exp = got = None
        if 'fails' in j:
            exp = 'the tool fails and leaves the dependency file as it was (%s)' % j['fails']
            if r['rc'] == 0:
                got = 'it reports success'
            elif r['deps'] != j['deps']:
                got = 'the dependency file now has %r' % r['deps']
            elif j.get('occupied') and r['mine'] != ['mine']:
                got = 'the directory now has %r' % r['mine']
            o = 'fails: ' + j['fails'].split(':')[-1]
        elif j['action'] == 'checkout':
            exp = 'every listed project at its commit, the dependency file as it was'
            if r['rc'] != 0:
                got = 'exit %s %s' % (r['rc'], r['err'])
            elif r['deps'] != j['deps']:
                got = 'the dependency file now has %r' % r['deps']
            else:
                for p, c in j['pins'].items():
                    if c and r['heads'][p] != ids[p][c]:
                        got = '%r is at %s instead of %s (%s)' % (p, r['heads'][p], ids[p][c], c)
            o = 'pinned ' + ' '.join(j['pins'].values())
        else:
            exp = 'the dependency file lists the same projects at the commit of the reference'
            if r['rc'] != 0:
                got = 'exit %s %s' % (r['rc'], r['err'])
            else:
                try:
                    d = json.loads(r['deps'])
                except (TypeError, ValueError):
                    d = None
                if d is None or not isinstance(d, dict):
                    got = 'the dependency file has %r' % r['deps']
                elif sorted(d) != sorted(p for p, c in j['pins'].items() if c):
                    got = 'the dependency file lists %s' % sorted(d)
                else:
                    for p, v in d.items():
                        ok = {ids[p][j['want']]}
                        if p in (j.get('move') or ()):
                            ok = {ids[p]['m3']} if j['at'] == 1 else {ids[p]['m2'], ids[p]['m3']}
                        if v not in ok:
                            got = '%r is recorded as %s instead of %s' % (p, v, ' or '.join(sorted(ok)))
            o = 'updated %s to %s' % (sorted(p for p, c in j['pins'].items() if c), j['want'])
            if not got and not j.get('move'):
                pairs.append((j, r))
        e.outcomes[o] = 1
        if not got and len(e.samples) < 6 and j['n'] % 40 == 3:
            e.samples.append({'case': name, 'observed': '%s; git commands: %s' % (o, r['log'].replace(w.root, '').replace('\n', '; ')[:300])})
        if got and len(e.violations) < 3:
            e.violation(name, exp, got, 'dependency file before:\n%s\n\ngit commands:\n%s\n%s' % (j['deps'], r['log'].replace(w.root, ''), r['err']))
    # what update wrote, checkout reproduces
    again = [dict(action='checkout', deps=r['deps'], n=500000 + i) for i, (j, r) in enumerate(pairs) if i % (1 if thorough else 4) == 0]
    with ThreadPoolExecutor(JOBS) as ex:
        for j, r in zip(again, ex.map(w.run, again)):
            e.executions += 1
            e.states += 1
            e.transitions += r['calls']
            d = json.loads(j['deps'])
            if (r['rc'] != 0 or any(r['heads'][p] != v for p, v in d.items()) or r['deps'] != j['deps']) and len(e.violations) < 3:
                e.violation('checkout of what update wrote', 'every project at its commit', 'exit %s %s heads %s' % (r['rc'], r['err'], r['heads']), j['deps'])
    e.notes['fault_points'] = sum(1 for j in jobs if j.get('mode'))
    return dict(assumptions=['4 projects (the main one and three submodules), 4 commits each; real git 2.43 on local repositories; the file is not torn by a crash while it is being written'])
