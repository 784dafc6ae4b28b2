"""Adaptive L# runs: targets, reference models derived from them (or not), recorded as Learner traces."""
import copy
import random
from common import *
import learnrun as L


def all_configs():
    cf = []
    for rb in (True, False):
        for sm in (None, 'Total', 'Approximate'):
            if not rb and sm is None:
                continue
            for ex in (None, 'SepSeq', 'ADS'):
                for se in ('SepSeq', 'ADS'):
                    for ca in (True, False):
                        cf.append({'alg': 'adaptive', 'rebuilding': rb, 'state_matching': sm, 'extension_rule': ex,
                                   'separation_rule': se, 'cache_and_non_det_check': ca})
    return cf


# ---- references: {'m': machine (0 in d: no transition), 'letters': for each letter of m the learner letter or 0-i (foreign), 'order'} ----

def tweak(rng, m, times):
    m = json.loads(json.dumps(m))
    for _ in range(times):
        s, a = rng.randrange(m['n']), rng.randrange(m['k'])
        if rng.random() < .5:
            m['d'][s][a] = rng.randrange(m['n']) + 1
        else:
            v = str(rng.randrange(3 if m['mealy'] else 2))
            if m['mealy']:
                m['o'][s][a] = v
            else:
                m['o'][s] = v
    return m


def grow(rng, m):
    """one state more, entered by one redirected transition"""
    m = json.loads(json.dumps(m))
    s, a = rng.randrange(m['n']), rng.randrange(m['k'])
    src = rng.randrange(m['n'])
    m['d'].append(list(m['d'][src])); m['o'].append(json.loads(json.dumps(m['o'][src])))
    m['n'] += 1
    m['d'][s][a] = m['n']
    b = rng.randrange(m['k'])
    m['d'][-1][b] = rng.randrange(m['n']) + 1
    return m


def shrink(rng, m):
    """one state less: its predecessors are redirected"""
    if m['n'] < 2:
        return m
    v = rng.choice([s for s in range(m['n']) if s + 1 != m['init']])
    to = rng.choice([s for s in range(m['n']) if s != v])
    new = {s: i + 1 for i, s in enumerate(x for x in range(m['n']) if x != v)}
    r = dict(m)
    r['d'] = [[new[(to if t - 1 == v else t - 1)] for t in m['d'][s]] for s in range(m['n']) if s != v]
    r['o'] = [m['o'][s] for s in range(m['n']) if s != v]
    r['n'] = m['n'] - 1
    r['init'] = new[m['init'] - 1]
    return r


def restrict(rng, m, letters):
    """only the given letter positions are kept"""
    r = dict(m)
    r['k'] = len(letters)
    r['d'] = [[row[i] for i in letters] for row in m['d']]
    if m['mealy']:
        r['o'] = [[row[i] for i in letters] for row in m['o']]
    return r


def punch(rng, m, times):
    r = json.loads(json.dumps(m))
    for _ in range(times):
        if r['k']:
            r['d'][rng.randrange(r['n'])][rng.randrange(r['k'])] = 0
    return r


def reference(rng, m, kind, how):
    k = m['k']
    base = list(range(1, k + 1))
    o = 2 if kind == 'dfa' else 3
    if how == 'same':
        r, letters = m, base
    elif how == 'tweaked':
        r, letters = tweak(rng, m, rng.choice((1, 1, 2, 4))), base
    elif how == 'grown':
        r, letters = grow(rng, m), base
    elif how == 'shrunk':
        r, letters = shrink(rng, m), base
    elif how == 'random':
        r, letters = random_machine(rng, rng.choice((1, 2, 3, 5, 7)), k, o, m['mealy']), base
    elif how == 'init':
        r, letters = dict(m, init=rng.randrange(m['n']) + 1), base
    elif how == 'renamed':
        r, letters = m, rng.sample(base, k)
    elif how == 'sub':
        keep = sorted(rng.sample(range(k), rng.randrange(1, k + 1)))
        r, letters = restrict(rng, tweak(rng, m, rng.choice((0, 1))), keep), [i + 1 for i in keep]
    elif how == 'super':
        x = rng.choice((1, 2))
        r = random_machine(rng, rng.choice((2, 3, 4)), k + x, o, m['mealy']) if rng.random() < .3 else widen(rng, m, x, o)
        letters = base + [-i for i in range(1, x + 1)]
    elif how == 'overlap':
        letters = list(base)
        for i in rng.sample(range(k), rng.randrange(1, k + 1) if k > 1 else 0):
            letters[i] = -(i + 1)
        r = tweak(rng, m, rng.choice((0, 1)))
    elif how == 'disjoint':
        r, letters = m, [-i for i in base]
    elif how == 'partial':
        r, letters = punch(rng, tweak(rng, m, rng.choice((0, 0, 1))), rng.choice((1, 1, 2, 3))), base
    elif how == 'lasso':
        r, letters = punch(rng, random_machine(rng, rng.choice((2, 4)), k, o, m['mealy']), 4 * k), base
    elif how == 'constant':
        r = json.loads(json.dumps(m))
        r['o'] = [['0'] * k for _ in r['o']] if m['mealy'] else ['0'] * m['n']
        letters = base
    elif how == 'bare':
        r, letters = {'mealy': m['mealy'], 'n': 1, 'init': 1, 'k': k, 'd': [[0] * k], 'o': [['0'] * k] if m['mealy'] else ['1']}, base
    else:
        raise ValueError(how)
    order = list(range(r['n']))
    if rng.random() < .4:
        rng.shuffle(order)
    return {'m': r, 'letters': letters, 'order': order, 'how': how}


def widen(rng, m, x, o):
    r = json.loads(json.dumps(m))
    for s in range(m['n']):
        r['d'][s] += [rng.randrange(m['n']) + 1 for _ in range(x)]
        if m['mealy']:
            r['o'][s] += [str(rng.randrange(o)) for _ in range(x)]
    r['k'] += x
    return r


HOW = ['same', 'tweaked', 'grown', 'shrunk', 'random', 'init', 'renamed', 'sub', 'super', 'overlap', 'disjoint', 'partial', 'lasso', 'constant', 'bare']


def concrete(ref, coding):
    c = copy.copy(coding)
    c.alphabet = [coding.alphabet[a - 1] if a > 0 else ('new', -a) for a in ref['letters']]
    return build(coding.kind, ref['m'], c, order=ref['order']), c


def run_adaptive(refs):
    def f(cfg, coding, sul, oracle, **kw):
        from aalpy.learning_algs import run_adaptive_Lsharp
        built = [concrete(r, coding) for r in refs]
        models = [b[0] for b in built]
        given = list(models)
        before = [project(x, c) for x, c in built]
        args = {k: v for k, v in cfg.items() if k not in ('alg', 'limit', 'samples')}
        if cfg.get('limit'):
            args['max_learning_rounds'] = cfg['limit']
        if cfg.get('samples') is not None:
            args['samples'] = [(coding.word(w), tuple(o)) for w, o in cfg['samples']]
        with verbosity(random.getrandbits(12)) as level:
            res = run_adaptive_Lsharp(list(coding.alphabet), sul, models, oracle, coding.kind, return_data=True, print_level=level, **args)
        if len(models) != len(given) or any(x is not y for x, y in zip(models, given)) or before != [project(x, c) for x, c in built]:
            raise AssertionError('ReferencesChanged')
        return res
    return f


def record(item):
    return L.record_run(item, adapter=run_adaptive(item['refs']))
