from algos import *


def main(ctx):
    rng = ctx.rng('c10')
    check_notions(ctx, ctx.quick)
    items = []

    def add(kind, m, complete=True):
        i, o = rng.choice(CODES)
        n, k = m['n'], m['k']
        order = list(range(n))
        if rng.random() < .6:
            rng.shuffle(order)
        pairs = [(rng.randrange(1, n + 1), rng.randrange(1, n + 1)) for _ in range(3)]
        cs = []
        for _ in range(3):
            init = rng.choice((None, None, [], [[]], [[a] for a in range(1, k + 1)], [[a] for a in range(1, k + 1)] + [[]],
                               [[rng.randrange(1, k + 1) for _ in range(rng.choice((1, 2, 3)))]]))
            cs.append({'init': init, 'closure': rng.random() < .6, 'split': rng.random() < .6})
        items.append({'what': 'min', 'kind': kind, 'm': m, 'inp': i, 'out': o, 'order': order, 'complete': complete, 'prefixes': rng.random() < .4,
                      'pairs': pairs, 'charsets': cs, 'seed': rng.randrange(1 << 30)})
    for mealy in (False, True):
        ms = ctx.gen_machines(2, 2, 2, mealy) + ctx.gen_machines(3, 1, 2, mealy)
        if not ctx.quick:
            ms += ctx.gen_machines(3, 2, 2, mealy) if not mealy else rng.sample(ctx.gen_machines(3, 2, 2, True), 4000)
        for kind in (('mealy',) if mealy else ('dfa', 'moore')):
            for m in (rng.sample(ms, min(len(ms), 150)) if ctx.quick else ms):
                add(kind, m)
    for _ in range(500 if ctx.quick else 6000):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        n, k = rng.choice((1, 2, 3, 4, 6, 9)), rng.choice((1, 2, 3))
        m = random_machine(rng, n, k, 2 if kind == 'dfa' else rng.choice((1, 2, 3)), kind == 'mealy', reachable=False)
        r = rng.random()
        if r < .55:
            m = rename(rng, redundant(rng, m))
        elif r < .7:
            m = rename(rng, redundant(rng, redundant(rng, m)))
        elif r < .85:
            m = rename(rng, m)
        part = rng.random() < .08
        used = {a for row in m['d'] for a, t in enumerate(row) if t}
        if part:
            m = holes(rng, m)
            if all(t for row in m['d'] for t in row) or {a for row in m['d'] for a, t in enumerate(row) if t} != used:
                continue
        add(kind, m, not part)
    judge(ctx, items, 'minimisation and separation')
    ctx.notes['automata'] = len(items)
    ctx.notes['nonminimal'] = sum(min_classes(i['m']) < i['m']['n'] for i in items if i['complete'])
    ctx.assumptions = ['characterization sets and separation are asked of complete automata only (documented)']
