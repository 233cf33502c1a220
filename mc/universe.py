"""Building cases from parser terms and inputs."""
import itertools
from model import *
from engine import Case

def words(alpha, n, m=0):
    for l in range(m, n + 1):
        for w in itertools.product(alpha, repeat=l):
            yield ''.join(w)

class U(object):
    def __init__(self, model=None):
        self.m = model or Model()
        self.ids = {}
        self.cases = []
        self.skipped_divergent = 0
        self.seen = set()
    def name(self, prefix, text):
        k = (prefix, text)
        if k not in self.ids:
            self.ids[k] = '%s%d' % (prefix, len(self.ids))
        return self.ids[k]
    def typedef(self, prefix, text):
        n = self.name(prefix, text)
        return n, 'typedef %s %s;' % (text, n)
    def add(self, t, s, pos=START, cfgs=None, decls=()):
        k = (t, s, pos, cfgs)
        if k in self.seen:
            return
        self.seen.add(k)
        try:
            r = self.m.run(t, s, pos)
        except Diverges:
            self.skipped_divergent += 1
            return
        pn, pd = self.typedef('P_', t.cpp())
        sn, sd = self.typedef('I_', cpp_string(s))
        qn, qd = self.typedef('Q_', cpp_pos(pos))
        self.cases.append(Case('%s on "%s" at %s' % (t.cpp(), esc(s), show_pos(pos)), tuple(decls) + (pd, sd, qd),
                               'o<%s,%s,%s>(@ID@);' % (pn, sn, qn), observe(r), cfgs))
    def cross(self, terms, inputs, poss=(START,), cfgs=None, decls=()):
        inputs = list(inputs)
        for t in terms:
            for p in poss:
                for s in inputs:
                    self.add(t, s, p, cfgs, decls)
    def sweep(self, terms, cfgs=None):
        """every character value at the first and the second place, a grid of starting positions"""
        terms = list(terms)
        for i in range(256):
            self.cross(terms, [chr(i) + 'b', 'a' + chr(i)], (START,), cfgs)
        self.cross(terms, ['', 'ab', '\na'], [(l, k, p) for l in (1, 2, 10) for k in (1, 2, 10, 256) for p in (0, 10, 13, -1)], cfgs)
    def into(self, eng):
        eng.states += len(self.m.memo)
        eng.transitions += self.m.transitions
        if self.skipped_divergent:
            eng.notes['divergent_skipped'] = eng.notes.get('divergent_skipped', 0) + self.skipped_divergent

# shorthand
def L(c): return T('lit_c', c)
def SEQ(*a): return T('sequence', *a)
def ONE(*a): return T('one_of', *a)
ANY = T('one_char')
