"""runs the tutorial generator on documents, in a scratch directory, as an unprivileged process.
usage: tutgen_run.py SCRIPT SCRATCH < jobs.json > results.json
a job is a list of steps; each step is {name: text} of files to write (null: remove) before running the generator.
Writing and removing outside SCRATCH is refused."""
import sys, os, json, io, runpy, shutil, warnings, builtins
warnings.simplefilter('ignore')
script, scratch = sys.argv[1], os.path.realpath(sys.argv[2])
sys.path[0] = os.path.dirname(script)
def inside(p):
    r = os.path.realpath(os.fspath(p))
    if not r.startswith(scratch + os.sep):
        raise RuntimeError('touches a file outside its directories: %s' % r)
open0 = builtins.open
def open1(f, mode='r', *a, **k):
    if not isinstance(f, int) and set(mode) & set('wax+'):
        inside(f)
    return open0(f, mode, *a, **k)
def guard(n):
    g = getattr(os, n)
    def h(p, *a, **k):
        inside(p)
        for x in a:
            if isinstance(x, (str, bytes)):
                inside(x)
        return g(p, *a, **k)
    return h
REAL = {n: getattr(os, n) for n in ('remove', 'unlink', 'rename', 'replace', 'rmdir', 'mkdir', 'truncate')}
def read_all(d):
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open0(p, 'rb') as h:
                r[os.path.relpath(p, d)] = h.read().decode('latin-1')
    return r
def generate(d):
    old, argv, cwd = sys.stdout, sys.argv, os.getcwd()
    os.chdir(d)
    sys.stdout = io.StringIO()
    sys.argv = [script, '--src', 'doc/guide.qbk', '--dst', 'out']
    builtins.open = open1
    io.open = open1
    for n in REAL:
        setattr(os, n, guard(n))
    try:
        runpy.run_path(script, run_name='__main__')
        return None
    except SystemExit as e:
        return 'exits with %s' % e.code if e.code else None
    except BaseException as e:
        return '%s: %s' % (type(e).__name__, e)
    finally:
        builtins.open = open0
        io.open = open0
        for n, f in REAL.items():
            setattr(os, n, f)
        sys.stdout, sys.argv = old, argv
        os.chdir(cwd)
out = []
for steps in json.load(sys.stdin):
    d = os.path.join(scratch, 'w%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/doc'); os.makedirs(d + '/out')
    res = []
    for st in steps:
        for k, v in st.items():
            if k == '*insert':
                p = d + '/doc/guide.qbk'
                t = open0(p, newline='').read()
                if t.count(v[0]) != 1:
                    res.append([{}, 'the line %r of the document is there %d times' % (v[0], t.count(v[0]))])
                    break
                with open0(p, 'w', newline='') as f:
                    f.write(t.replace(v[0], v[0] + v[1]))
            else:
                with open0(os.path.join(d, k), 'w', newline='') as f:
                    f.write(v)
        e = generate(d)
        res.append([read_all(d), e])
        if e:
            break
    out.append(res)
    shutil.rmtree(d, ignore_errors=True)
json.dump(out, sys.stdout)
