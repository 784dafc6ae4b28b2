from common import *
import learnrun as L
import c01


class Script:
    """resolves every teacher choice by a given script; remembers how many options each choice had"""

    def __init__(self, script, maxlen):
        self.script, self.maxlen, self.pos, self.widths = script, maxlen, 0, []

    def __call__(self, t, h):
        opts = diff_words(t, h, self.maxlen)
        if not opts:
            w = shortest_diff(t, h)
            return w
        i = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        self.widths.append(len(opts))
        return opts[i]


def all_teachers(item):
    """depth-first enumeration of every sequence of counterexamples (bounded length) the teacher may give"""
    runs, stack = [], [[]]
    seen = 0
    while stack and len(runs) < item['cap']:
        script = stack.pop()
        s = Script(script, item['maxlen'])
        runs.append(L.record_run(item, choose=s))
        for p in range(len(script), len(s.widths)):
            for alt in range(1, s.widths[p]):
                stack.append(list(script) + [0] * (p - len(script)) + [alt])
    return runs


def main(ctx):
    rng = ctx.rng('c02')
    c01.design(ctx)
    cfgs = L.all_configs()
    items = c01.scenarios(ctx, {})
    rng.shuffle(items)
    items = items[:3500 if ctx.quick else 40000]
    for it in items:
        it['obs'] = it['cfg']['alg'] == 'lsharp'
    # L#: hypotheses against everything executed so far
    for r in range(14 if ctx.quick else 150):
        for c in cfgs:
            if c['alg'] != 'lsharp':
                continue
            for kind in ('dfa', 'moore', 'mealy'):
                k = rng.choice((2, 2, 3, 4))
                m = random_machine(rng, rng.choice((4, 6, 8, 10, 12)), k, 2 if kind == 'dfa' else rng.choice((2, 3)), kind == 'mealy')
                items.append({'m': c01.sparse(rng, m) if rng.random() < .3 else m, 'kind': kind, 'cfg': c,
                              'policy': rng.choice(('shortest', 'random', 'mixed')), 'inp': rng.choice(('str', 'int', 'mixed')),
                              'out': rng.choice(('str', 'int', 'falsy')), 'seed': rng.randrange(1 << 30), 'obs': True})
    # round limits
    lim = []
    for c in cfgs:
        for kind in ('dfa', 'moore', 'mealy'):
            for k in (1, 2, 3) if ctx.quick else (1, 2, 3, 4, 6):
                m = random_machine(rng, rng.choice((3, 5, 7)), 2, 2, kind == 'mealy')
                lim.append({'m': c01.sparse(rng, m) if rng.random() < .5 else m, 'kind': kind, 'cfg': {**c, 'limit': k},
                            'policy': rng.choice(('shortest', 'random')), 'inp': 'str', 'out': 'str',
                            'seed': rng.randrange(1 << 30), 'obs': c['alg'] == 'lsharp'})
    allitems = items + lim
    res = pmap(L.record_run, allitems)
    cases, metas = [], []

    def add(it, r):
        alg, limit = it['cfg']['alg'], it['cfg'].get('limit', 0)
        cases.append(L.to_case(it, r, chkhyp=True, chkobs=alg == 'lsharp', chkacc=alg != 'lsharp', chkinfo=True, chkrounds=alg != 'kv', lim=limit,
                               limslack=1 if alg == 'kv' else 0, retlast=alg != 'kv'))
        metas.append(L.meta(it, r))
    for it, r in zip(allitems, res):
        if r[0] != 'skip':
            add(it, r)
    # every behaviour of the teacher, for small targets (all counterexamples up to a length, at every round)
    tm = [m for m in ctx.gen_machines(3, 2, 2, False) if m['n'] == 3 and min_classes(m) == 3]
    tme = [m for m in ctx.gen_machines(2, 2, 2, True) if m['n'] == 2 and min_classes(m) == 2]
    rng.shuffle(tm); rng.shuffle(tme)
    ex = []
    algs = [c for c in cfgs if c['alg'] != 'lstar'] + [c for c in cfgs if c['alg'] == 'lstar' and c['closing_strategy'] == 'shortest_first']
    for i, c in enumerate(algs):
        for kind in ('dfa', 'moore', 'mealy'):
            for r in range(1 if ctx.quick else 8):
                pool = tme if kind == 'mealy' else tm
                ex.append({'m': pool[(i * 7 + r) % len(pool)], 'kind': kind, 'cfg': c, 'policy': 'exhaustive', 'inp': 'str', 'out': 'str',
                           'seed': 1, 'obs': c['alg'] == 'lsharp', 'maxlen': 4 if ctx.quick else 5, 'cap': 12 if ctx.quick else 300})
    res = pmap(all_teachers, ex, timeout=120)
    n = 0
    for it, r in zip(ex, res):
        if r[0] == 'ok':
            for run in r[1]:
                add(it, ('ok', run)); n += 1
        elif r[0] != 'skip':
            add(it, r)
    ctx.notes['exhaustive_teacher_runs'] = n
    ctx.judge('TraceLearner', cases, metas, name='hypothesis progress')
    ctx.assumptions = ['the teacher used in the runs is exact and its counterexamples end at the first difference']
