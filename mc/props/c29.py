"""C29 the tutorial generator keeps headers, snippets and the document in step"""
import itertools, os, json, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from engine import HERE, REPO, JOBS

# a block: list of (prompt, continuation lines...) commands or raw lines.  %d makes every command distinct
BLOCKS = {
    'inc': [('c', '#include <a%d.hpp>')],
    'use': [('c', 'using a%d = b;')],
    'semi': [('c', 'foo a%d;')],
    'qry': [('c', 'q%d::type'), ('r', 'mpl_::int_<1>')],
    'q1': [('c', 'q%d::type')],
    'multi': [('c', 'template <class T> \\', 'struct m%d : \\', '  base<T> {};')],
    'word': [('c', 'using w%d = \\', 'typename \\', '  t; \\', '  int n;')],
    'mqry': [('c', 'eval%d<\\', ' 2>::type'), ('r', 'res')],
    'two': [('c', 'using a%d = b;'), ('c', 'struct c%d;')],
    'mix': [('c', 'using a%d = b;'), ('c', 'q%d::type'), ('r', 'void')],
    'sh': [('c', '#include <metashell/m%d.hpp>')],
    'raw': [('r', 'template <char... Cs>'), ('r', 'struct r%d;')],
    'raw1': [('r', '$ shell %d')],
    'text': None,
}
PFX = ('#include ', 'using ', 'struct ', 'template ')

class Doc(object):
    """the model: sections in document order, each with its blocks"""
    def __init__(self, events, first=(1, 1, 1), tail='cd'):
        n = 0
        self.lines = ['[#guide]\n', '[section Guide]\n', '\n']
        self.secs = ['']               # numbers, in document order
        self.defs = {'': []}           # section -> [(is definition, is a shell header, [lines])]
        self.snips = []                # per multi-line shell block: the commands
        self.heads = []
        self.marks = []
        cur = []
        for ev in events:
            if ev in 'STU':
                lv = 'STU'.index(ev)
                if lv > len(cur):
                    raise ValueError()
                while len(cur) > lv + 1:
                    cur.pop(); self.lines += ['[endsect]\n', '\n']
                if len(cur) == lv + 1:
                    cur[-1] += 1; self.lines += ['[endsect]\n', '\n']
                else:
                    cur.append(first[lv])
                s = '_'.join(map(str, cur))
                self.secs.append(s); self.defs[s] = []
                self.lines += ['[section %s. Title %d]\n' % ('.'.join(map(str, cur)), len(self.secs)), '\n']
                continue
            s = self.secs[-1]
            n += 1
            self.lines += ['Prose number %d.\n' % n, '\n']
            self.marks.append('Prose number %d.\n' % n)
            b = BLOCKS[ev]
            if b is None:
                continue
            cmds, text = [], []
            shell = b[0][0] == 'c'
            for k, it in enumerate(b):
                if it[0] == 'r':
                    text.append(it[1] % n if '%' in it[1] else it[1])
                    continue
                ls = [l.replace('%d', '%d' % (n * 10 + k)) for l in it[1:]]
                text += ['> ' + ls[0]] + ['...> ' + l for l in ls[1:]]
                clean = [l[:-1].rstrip() if l.endswith('\\') else l for l in ls]
                cmds.append(clean)
                full = ' '.join(clean).strip()
                self.defs[s].append((full.startswith(PFX) or full.endswith(';'), full.startswith('#include <metashell'), clean))
            self.lines += ['  ' + t + '\n' for t in text] + ['\n']
            if shell and sum(len(c) for c in cmds) > 1:
                self.snips.append(cmds)
        while cur:
            cur.pop(); self.lines += ['[endsect]\n', '\n']
        for t in tail:
            self.lines += ['[section Copy-paste friendly code examples]\n' if t == 'c' else '[section Definitions before each section]\n', '\n', '[endsect]\n', '\n']
        self.lines.append('[endsect]\n')
        self.tail = tail
        self.order = sorted(self.secs[1:], key=lambda s: [int(x) for x in s.split('_')])
    def text(self): return ''.join(self.lines)
    def before(self, s):
        """what has been entered before section s"""
        return [d for q in [''] + self.order[:self.order.index(s)] for d in self.defs[q]]

def norm(ls):
    return [x for x in (' '.join(l.split()) for l in ls) if x]

def toks(ls):
    return ' '.join(re.findall(r'\w+|[^\w\s]', '\n'.join(ls)))

def flat(ds):
    return toks(' '.join(d[2]) for d in ds)

def expand(files, name, seen, shell):
    """what the preprocessor makes of a generated header: code without comments, and the comments"""
    code, com = [], []
    t = files.get('out/' + name)
    if t is None:
        raise ValueError('no header %s' % name)
    skip = []
    guard = None
    for l in t.split('\n'):
        x = l.strip()
        m = re.match(r'#ifndef (\w+)$', x)
        if m:
            skip.append(m.group(1) in seen); continue
        m = re.match(r'#ifdef (\w+)$', x)
        if m:
            skip.append(not (m.group(1) in seen or shell and m.group(1) == '__METASHELL')); continue
        if x == '#endif':
            if not skip:
                raise ValueError('unbalanced #endif in %s' % name)
            skip.pop(); continue
        if any(skip):
            continue
        m = re.match(r'#define (\w+)$', x)
        if m:
            seen.add(m.group(1)); continue
        m = re.match(r'#include "(.*)"$', x)
        if m:
            c, d = expand(files, m.group(1), seen, shell)
            code += c; com += d
            continue
        if x.startswith('//'):
            com.append(' '.join(x[2:].split()))
        elif x:
            code.append(' '.join(x.split()))
    if skip:
        raise ValueError('unbalanced #if in %s' % name)
    return code, com

KEEP = {'README': 'read me\n', 'data.txt': 'x\n', 'hpp': 'a file\n'}
STALE = {'old.hpp': 'stale\n', '1.hpp': 'stale\n', '99_1.hpp': 'stale\n'}

def problems(doc, files, first):
    """what is wrong with the files after a run, or None"""
    pages = {k for k in files if k.startswith('doc/')}
    for k, v in KEEP.items():
        if files.get('out/' + k) != v:
            return 'file %s of the target directory is gone or changed' % k
    heads = {k[4:-4] for k in files if k.startswith('out/') and k.endswith('.hpp')}
    if heads != set(doc.order):
        return 'headers %s, sections %s' % (sorted(heads), doc.order)
    for s in doc.order:
        B = doc.before(s)
        for shell in (False, True):
            code, com = expand(files, s + '.hpp', set(), shell)
            want = [d for d in B if d[0] and (shell or not d[1])]
            if toks(code) != flat(want):
                return 'header %s.hpp%s gives %r, entered before that section: %r' % (s, ' in the shell' if shell else '', code, [d[2] for d in want])
            q = toks(com)
            for d in B:
                if not d[0] and q.count(flat([d])) != 1:
                    return 'header %s.hpp has the query %r %d times among its comments %r' % (s, d[2], q.count(flat([d])), com)
    # pages
    src = files['doc/guide.qbk'].split('\n')
    withdefs = [s for s in doc.order if any(d[0] for d in doc.before(s))]
    if first:
        bp = {k[len('doc/before_'):-4] for k in pages if k.startswith('doc/before_')}
        if bp != set(withdefs):
            return 'pages of earlier definitions for %s, sections with earlier definitions: %s' % (sorted(bp), withdefs)
        sp = {k for k in pages if re.match(r'doc/guide_\d+\.qbk$', k)}
        if sp != {'doc/guide_%d.qbk' % i for i in range(len(doc.snips))}:
            return 'snippet pages %s, %d blocks of several lines' % (sorted(sp), len(doc.snips))
        if pages - sp - {'doc/before_%s.qbk' % s for s in bp} != {'doc/guide.qbk'}:
            return 'pages %s' % sorted(pages)
    for s in withdefs:
        ls = files.get('doc/before_%s.qbk' % s, '').split('\n')
        body = [l for l in ls if l.startswith('  ')]
        rest = norm(l for l in ls if not l.startswith('  '))
        if toks(body) != flat([d for d in doc.before(s) if d[0]]):
            return 'page of the definitions before %s has %r, entered: %r' % (s, body, [d[2] for d in doc.before(s) if d[0]])
        if rest[:1] != ['[#before_%s]' % s] or len(rest) != 2 or s.replace('_', '.') + '.]' not in rest[1]:
            return 'page of the definitions before %s is headed %r' % (s, rest)
    for i, cmds in enumerate(doc.snips):
        ls = files.get('doc/guide_%d.qbk' % i, '').split('\n')
        body = [l for l in ls if l.startswith('  ')]
        if [toks([x]) for x in norm(body)] != [flat([(0, 0, c)]) for c in cmds] or norm(l for l in ls if not l.startswith('  ')) != ['[#guide_%d]' % i]:
            return 'snippet %d is %r, entered: %r' % (i, ls, cmds)
    # the document: the author's lines, plus notes, links and lists in their places
    want = []
    sec = {}
    for s in doc.secs[1:]:
        sec['[section %s. Title %d]' % (s.replace('_', '.'), doc.secs.index(s) + 1)] = s
    k, blk, prev = 0, [], ''
    for l in doc.text().split('\n'):
        if blk and not l.startswith('  '):
            if blk[0].startswith('  > ') and len([b for b in blk if re.match(r'  (\.\.\.)?> ', b)]) > 1:
                want.append(('link', 'guide_%d' % k)); k += 1
            blk = []
        if l.startswith('  '):
            blk.append(l)
        if l.strip():
            want.append(l)
        if sec.get(l) in withdefs:
            want.append(('link', 'before_' + sec[l]))
        if l == '[section Copy-paste friendly code examples]':
            want += ['[include guide_%d.qbk]' % i for i in range(len(doc.snips))]
        if l == '[section Definitions before each section]':
            want += ['[include before_%s.qbk]' % s for s in withdefs]
    got = [l for l in src if l.strip()]
    for i in range(max(len(got), len(want))):
        g, w_ = (got[i] if i < len(got) else None), (want[i] if i < len(want) else None)
        if isinstance(w_, tuple):
            if g is None or len(re.findall(r'\[link %s ' % w_[1], g)) != 1:
                return 'line %r of the document where the link to %s belongs' % (g, w_[1])
        elif g != w_:
            return 'line %r of the document where %r belongs' % (g, w_)
    return None

def check(e, thorough):
    docs, seen = [], set()
    def add(ev, first=(1, 1, 1), tail='cd', edit=None):
        k = (tuple(ev), first, tail, edit)
        if k in seen:
            return
        seen.add(k)
        try:
            d = Doc(ev, first, tail)
        except ValueError:
            return
        docs.append((d, k))
    kinds = list(BLOCKS)
    # one section with every sequence of blocks, then a section to see them in
    for n in range(0, 4 if thorough else 3):
        for bs in itertools.product(kinds, repeat=n):
            add(('S',) + bs + ('S',))
    if not thorough:
        for bs in itertools.product(['use', 'word', 'q1', 'mix', 'sh', 'raw', 'text'], repeat=3):
            add(('S',) + bs + ('S',))
    small = ['inc', 'q1', 'multi', 'two', 'sh', 'mqry']
    for n in range(1, 4):
        for bs in itertools.product(small, repeat=n) if n < 3 or thorough else itertools.product(small[:4], repeat=3):
            add(('S', bs[0], 'T') + bs[1:2] + ('S',) + bs[2:] + ('S', 'text'))
    # every nesting of sections with one block in each
    for n in range(1, 7 if thorough else 6):
        for ss in itertools.product('STU', repeat=n):
            if ss[0] != 'S':
                continue
            for pat in ([['use'], ['multi', 'q1'], [], ['two'], ['qry'], ['inc']], [[], ['q1'], [], ['sh', 'use'], [], ['mqry']]):
                ev = []
                for i, s in enumerate(ss):
                    ev += [s] + pat[i % len(pat)]
                for f in ((1, 1, 1), (9, 9, 9), (8, 10, 99)):
                    add(ev, f)
    # many sections
    for n in (9, 10, 11, 12, 25, 101):
        for b in ('use', 'multi'):
            add(sum([['S', b] for _ in range(n)], []))
            add(['S', b] + sum([['T', b] for _ in range(n)], []) + ['S'])
            add(['S', 'T', b] + sum([['U', b] for _ in range(n)], []) + ['S', 'T'])
    # where the lists are
    for tail in ('', 'c', 'd', 'dc', 'cd'):
        for bs in itertools.product(['use', 'multi', 'q1'], repeat=2):
            add(('S', bs[0], 'T', bs[1], 'S'), (1, 1, 1), tail)
    jobs, metas = [], []
    base = {'out/' + k: v for k, v in list(KEEP.items()) + list(STALE.items())}
    for d, k in docs:
        jobs.append([dict(base, **{'doc/guide.qbk': d.text()}), {}, {'out/left.hpp': 'x\n'}])
        metas.append((d, k, None))
    # histories: generate, edit the document, generate again; the result is that of the edited document alone
    edits = []
    for (d, k) in docs:
        ev = k[0]
        if len(ev) > 6 or k[1] != (1, 1, 1) or k[2] != 'cd' or 'S' not in ev[:1]:
            continue
        nb = [i for i, x in enumerate(ev) if x not in 'STU']
        if len(nb) not in ((1, 2) if thorough else (1,)):
            continue
        for i in nb:
            for new in kinds:
                edits.append((d, k, i, new))
    for d, k, i, new in edits:
        # a block inserted in front of the prose line of the i-th event
        ev2 = k[0][:i] + (new,) + k[0][i:]
        d2 = Doc(ev2, k[1], k[2])
        jobs.append([dict(base, **{'doc/guide.qbk': d2.text()}), {'doc/guide.qbk': d.text()}, {'doc/guide.qbk': d2.text()}])
        metas.append((d2, (ev2, k[1], k[2]), d))
    for x in metas:
        e.states += 1; e.transitions += 3
    # run
    tools = os.path.join(e.tmp, 'tools')
    os.mkdir(tools)
    for f in os.listdir(os.path.join(REPO, 'tools')):
        if f.endswith('.py'):
            with open(os.path.join(REPO, 'tools', f), 'rb') as h:
                open(os.path.join(tools, f), 'wb').write(h.read())
    os.chmod(tools, 0o755)
    script = os.path.join(tools, 'generate_all.py')
    run = os.path.join(e.tmp, 'run.py')
    open(run, 'w').write(open(os.path.join(HERE, 'tutgen_run.py')).read())
    scratch = os.path.join(e.tmp, 'scratch')
    os.mkdir(scratch)
    os.chmod(e.tmp, 0o755); os.chmod(scratch, 0o777)
    def demote():
        try:
            os.setgroups([]); os.setgid(65534); os.setuid(65534)
        except OSError:
            pass
    def one(r):
        p = subprocess.run([sys.executable, '-W', 'ignore', '-B', run, script, scratch], input=json.dumps(jobs[r[0]:r[1]]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=demote, timeout=600, cwd='/', env={'PATH': os.environ.get('PATH', ''), 'LC_ALL': 'C.UTF-8'})
        if p.returncode:
            raise RuntimeError(p.stderr.decode('latin-1')[-2000:])
        return json.loads(p.stdout)
    step = 60
    ranges = [(i, min(i + step, len(jobs))) for i in range(0, len(jobs), step)]
    with ThreadPoolExecutor(JOBS) as ex:
        results = [x for r in ex.map(one, ranges) for x in r]
    for (d, k, other), res in zip(metas, results):
        e.executions += len(res)
        bad = None
        for i, (files, err) in enumerate(res):
            dd = other if other is not None and i == 1 else d
            if err:
                bad = 'run %d: %s' % (i + 1, err); break
            try:
                bad = problems(dd, files, i == 0 or (other is None))
            except ValueError as x:
                bad = str(x)
            if bad:
                bad = 'run %d: %s' % (i + 1, bad); break
        if not bad and other is None and not res[0][0] == res[1][0] == res[2][0]:
            f = [x for x in sorted(set(res[0][0]) | set(res[2][0])) if not res[0][0].get(x) == res[1][0].get(x) == res[2][0].get(x)]
            bad = 'running it again changes %s' % ', '.join(f)
        if not bad and other is not None:
            if any(res[0][0].get(x) != res[2][0].get(x) for x in res[0][0]):
                bad = 'going to another document and back changes %s' % ', '.join(x for x in res[0][0] if res[0][0].get(x) != res[2][0].get(x))
        e.outcomes[bad or '%d sections %d snippets' % (len(d.order), len(d.snips))] = 1
        if not bad and len(e.samples) < 5 and len(e.outcomes) % 7 == 1:
            e.samples.append({'case': ' '.join(k[0]), 'observed': 'files: ' + ' '.join(sorted(res[0][0]))[:300]})
        if bad and len(e.violations) < 3:
            e.violation('document %s numbered from %s, lists %s%s' % (' '.join(k[0]), k[1], k[2], ' edited between runs' if other else ''), 'files and document in step', bad, d.text())
    e.notes['documents'] = len(docs)
    # the committed tutorial itself is what the generator makes of it
    return dict(assumptions=['documents of up to %d blocks of 14 kinds (three blocks of 7 kinds in the quick tier) in one section, all section nestings up to depth 3 and %d sections, numbers crossing 9/10 and 99/100; edits of one block between runs' % ((3, 6) if thorough else (2, 5)), 'headings on one line'])
