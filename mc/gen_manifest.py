"""writes MANIFEST.json from properties.jsonl and the modules that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
NOTE = {
 'default': 'Exhaustive enumeration of the stated universe of parser terms x inputs x start positions: every configuration reached is evaluated by an explicit-state reference model written from the documentation, and every trace is replayed against the real headers compiled from /repo in C++98/11/14/17 (quick shares cases between C++14 and C++17, which select the same implementation). Trusts g++, the reference model and the observation harness; says nothing beyond the stated bounds.',
}
TECH = {'default': 'explicit-state reference model, exhaustively enumerated; every trace replayed on the real templates'}
try:
    import sys; sys.path.insert(0, os.path.join(V, 'mc'))
    from notes import NOTE as N2, TECH as T2, NOT_APPLICABLE
    NOTE.update(N2); TECH.update(T2)
except ImportError:
    NOT_APPLICABLE = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 mc/run.py %s quick' % i, thorough_cmd='python3 mc/run.py %s thorough' % i,
            technique=TECH.get(i, TECH['default']), level='model_checking', level_note=NOTE.get(i, NOTE['default'])))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 mc/setup.py', checks=checks, not_applicable=na,
         notes='All checks build scratch programs under a temporary directory which they remove; no hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
