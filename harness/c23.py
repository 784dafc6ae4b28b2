from common import *
import learnrun as L
import adaptive as A
import c01
from c04 import samples_of


def scenarios(ctx):
    rng = ctx.rng('sc')
    cfgs = A.all_configs()
    moore = ctx.gen_machines(3, 2, 2, False)
    mealy = ctx.gen_machines(2, 2, 2, True)
    items = []

    def add(m, kind, c, hows, **kw):
        it = {'m': m, 'kind': kind, 'cfg': c, 'refs': [A.reference(rng, m, kind, h) for h in hows],
              'policy': rng.choice(('shortest', 'random', 'mixed')), 'inp': rng.choice(('str', 'int', 'tuple')),
              'out': rng.choice(('str', 'int')), 'seed': rng.randrange(1 << 30), 'obs': True}
        it.update(kw)
        if rng.random() < .15:      # passed observations of the system
            coding = Coding(kind, m['k'], it['inp'], it['out'])
            it['cfg'] = {**it['cfg'], 'samples': samples_of(rng, m, kind, coding, rng.choice((0, 1, 5, 20)), rng.choice((3, 8)))}
        items.append(it)
    # small targets of the generated universe, one reference of every sort
    reps = 1 if ctx.quick else 8
    for _ in range(reps):
        for kind, pool in (('dfa', moore), ('moore', moore), ('mealy', mealy)):
            for j, h in enumerate(A.HOW):
                for i in range(12):
                    add(rng.choice(pool), kind, cfgs[(j * 12 + i) * 7 % len(cfgs)], [h])
    # larger targets: every configuration, several references
    for c in cfgs:
        for kind in ('dfa', 'moore', 'mealy'):
            for h in A.HOW if not ctx.quick else rng.sample(A.HOW, 6):
                k = rng.choice((1, 2, 2, 3))
                m = random_machine(rng, rng.choice((2, 3, 4, 5, 6, 8) if ctx.quick else (2, 4, 6, 8, 10, 12)), k,
                                   2 if kind == 'dfa' else rng.choice((2, 3)), kind == 'mealy')
                if rng.random() < .4:
                    m = c01.sparse(rng, m)
                hows = [h] + [rng.choice(A.HOW) for _ in range(rng.choice((0, 0, 1, 2)))]
                rng.shuffle(hows)
                kw = {}
                if rng.random() < .1:
                    kw['cfg'] = {**c, 'limit': rng.choice((1, 2, 3))}
                add(m, kind, kw.pop('cfg', c), hows, **kw)
            add(random_machine(rng, rng.choice((2, 4)), 2, 2, kind == 'mealy'), kind, c, [])
    return items


def main(ctx):
    c01.design(ctx)
    items = scenarios(ctx)
    res = pmap(A.record, items)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        cases.append(L.to_case(it, r, chkret=True, chkhyp=True, chkobs=True, chkinfo=True, chkrounds=True,
                               lim=it['cfg'].get('limit', 0), retlast=True))
        mt = L.meta(it, r)
        metas.append(mt)
    ctx.judge('TraceLearner', cases, metas, name='adaptive learning runs')
    ctx.notes['configurations'] = len(A.all_configs())
    ctx.notes['kinds of references'] = A.HOW
    ctx.assumptions = ['the teacher used in the runs is exact and its counterexamples end at the first difference',
                       'references are of the kind of the target']
