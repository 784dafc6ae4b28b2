"""Drivers for test-case generation and statistical model checking (spec/TestGen.tla)."""
from convert import *
import oracles as Q


def spied(orc, log):
    """orc, with every system it is given wrapped in a recorder of the tests it executes"""
    from aalpy.base import SUL

    class Recorder(SUL):
        def __init__(self, sul):
            super().__init__()
            self.sul = sul

        def pre(self):
            log.append([])
            return self.sul.pre()

        def post(self):
            return self.sul.post()

        def step(self, x):
            if not log:
                log.append([])
            log[-1].append(x)
            return self.sul.step(x)

        def query(self, w):
            log.append(list(w)); log.append([])
            return self.sul.query(w)

    class Spy(type(orc)):
        @property
        def sul(self):
            return self._spied_sul

        @sul.setter
        def sul(self, s):
            self._spied_sul = Recorder(s)
    Spy.__name__ = type(orc).__name__
    d = orc.__dict__.pop('sul', None)
    orc.__class__ = Spy
    orc._spied_sul = d
    return orc


def scripted(ops, c):
    from aalpy.base import Oracle

    class Scripted(Oracle):
        def find_cex(self, hypothesis):
            for o in ops:
                if o[0] == 'reset':
                    self.reset_hyp_and_sul(hypothesis)
                elif o[0] == 'step':
                    assert self.sul.step(c.alphabet[o[1] - 1]) == hypothesis.step(c.alphabet[o[1] - 1])
                elif o[0] == 'query':
                    self.sul.query(c.word(o[1]))
                else:
                    self.sul.post()
            return None
    return Scripted(c.alphabet, None)


def run_testgen(it):
    import random as R
    R.seed(it['seed'])
    return [guard(lambda: {'gen': run_gen, 'smc': run_smc}[it['what']](it), e=it['what'])]


def run_gen(it):
    from aalpy.utils.ModelChecking import generate_test_cases
    kind, m = it['kind'], it['m']
    c = Coding(kind, m['k'], it['inp'], it['out'])
    a = build(kind, m, c, order=it.get('order'))
    a.compute_prefixes()
    for s in a.states:
        if s is a.initial_state:
            s.prefix = ()
    log = []
    ops = it.get('ops') or []
    from aalpy.SULs import AutomatonSUL
    orc = scripted(ops, c) if ops else Q.make(it['oracle'], it['params'], c.alphabet, AutomatonSUL(a) if it['presul'] else None, c, a)
    orc = spied(orc, log)
    before = project(a, c)
    r = generate_test_cases(a, orc)
    return {'op': 'gen', 'm': before, 'after': project(a, c), 'scripted': bool(ops), 'ops': ops,
            'tests': [[c.letter(x) or 98 for x in w] for w in log if w],
            'res': [{'ins': [c.letter(x) or 98 for x in t[0]], 'outs': [enc_out(o) for o in t[1]]} for t in r]}


def run_smc(it):
    from aalpy.utils import statistical_model_checking
    kind, g = it['kind'], it['g']
    c = Coding(kind, g['k'], it['inp'], it['out'])
    m, st = gbuild(kind, g, c, order=it['order'])
    lst = list(m.states)
    g0 = {**gproject(kind, m, c, lst), 'k': g['k']}
    est = statistical_model_checking(m, {c.g(o) for o in it['goals']}, it['n'], it['num']) if it['how'] else \
        statistical_model_checking(model=m, goals={c.g(o) for o in it['goals']}, max_num_steps=it['n'], num_tests=it['num'])
    hits = est * it['num']
    return {'op': 'smc', 'g': g0, 'after': {**gproject(kind, m, c, lst), 'k': g['k']}, 'goals': [enc_out(c.g(o)) for o in it['goals']], 'n': it['n'], 'num': it['num'],
            'exact': it['exact'], 'whole': abs(hits - round(hits)) < 1e-6, 'hits': int(round(hits)), 'slack': it['slack']}
