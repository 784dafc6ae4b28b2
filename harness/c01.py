from common import *
import learnrun as L

MC = 'CONSTANTS N={n} K={k} O={o} MealyT={me}\nSPECIFICATION Spec\nINVARIANT RoundsBounded\nINVARIANT DoneCorrect\nINVARIANT TypeOK\nPROPERTY Termination\n'


def design(ctx):
    for n, k, o, me in ((2, 2, 2, 'FALSE'), (2, 1, 2, 'TRUE')) if ctx.quick else ((2, 2, 2, 'FALSE'), (3, 1, 2, 'FALSE'), (2, 1, 2, 'TRUE')):
        ctx.tlc('MCLearner', MC.format(n=n, k=k, o=o, me=me), name=f'learner design N={n} K={k} O={o} mealy={me}', deadlock=True)


def scenarios(ctx, flags):
    rng = ctx.rng('sc')
    cfgs = L.all_configs()
    items = []
    moore = ctx.gen_machines(3, 2, 2, False)
    mealy = ctx.gen_machines(2, 2, 2, True)
    mealy3 = ctx.gen_machines(3, 2, 2, True)
    moore3o = ctx.gen_machines(2, 2, 3, False)
    rng.shuffle(mealy3)
    reps = 1 if ctx.quick else 6
    pools = [('dfa', moore), ('moore', moore + moore3o), ('mealy', mealy + mealy3[:3000 if ctx.quick else 14000])]
    n = 0
    for _ in range(reps):
        for kind, pool in pools:
            order = list(range(len(cfgs)))
            rng.shuffle(order)
            for i, m in enumerate(pool):
                c = cfgs[order[i % len(order)]]
                items.append({'m': m, 'kind': kind, 'cfg': c, 'policy': ('shortest', 'random', 'mixed')[n % 3],
                              'inp': ('str', 'int', 'mixed', 'tuple')[n % 4], 'out': ('str', 'int', 'falsy', 'str', 'tuple')[(n // 4) % 5],
                              'seed': rng.randrange(1 << 30)})
                n += 1
    # larger random machines: every configuration, every kind
    big = 3 if ctx.quick else 20
    for c in cfgs:
        for kind in ('dfa', 'moore', 'mealy'):
            for r in range(big):
                size = rng.choice((4, 5, 6, 8, 10) if ctx.quick else (4, 6, 8, 10, 14, 20))
                k = rng.choice((1, 2, 3, 4))
                m = random_machine(rng, size, k, 2 if kind == 'dfa' else rng.choice((2, 3)), kind == 'mealy')
                if rng.random() < .5:      # hard-to-distinguish targets: few outputs differ
                    m = sparse(rng, m)
                items.append({'m': m, 'kind': kind, 'cfg': c, 'policy': rng.choice(('shortest', 'random', 'mixed')),
                              'inp': rng.choice(('str', 'int', 'tuple', 'mixed')),
                              'out': rng.choice(('str', 'int', 'falsy', 'tuple')), 'seed': rng.randrange(1 << 30)})
    return items


def sparse(rng, m):
    m = json.loads(json.dumps(m))
    if m['mealy']:
        m['o'] = [['0'] * m['k'] for _ in range(m['n'])]
        m['o'][rng.randrange(m['n'])][rng.randrange(m['k'])] = '1'
    else:
        m['o'] = ['0'] * m['n']
        m['o'][rng.randrange(m['n'])] = '1'
    return m


def main(ctx):
    design(ctx)
    items = scenarios(ctx, {})
    res = pmap(L.record_run, items)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        cases.append(L.to_case(it, r, chkret=True)); metas.append(L.meta(it, r))
    ctx.judge('TraceLearner', cases, metas, name='learning runs')
    ctx.notes['configurations'] = len(L.all_configs())
    ctx.assumptions = ['the teacher used in the runs is exact and its counterexamples end at the first difference',
                       'outputs are hashable Python values other than None']
