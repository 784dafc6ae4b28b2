from algos import *


def main(ctx):
    rng = ctx.rng('c11')
    check_notions(ctx, ctx.quick)
    items = []

    def struct(kind, m):
        i, o = rng.choice(CODES)
        order = list(range(m['n']))
        if rng.random() < .6:
            rng.shuffle(order)
        items.append({'what': 'struct', 'kind': kind, 'm': m, 'inp': i, 'out': o, 'order': order, 'foreign': rng.random() < .5, 'seed': rng.randrange(1 << 30)})
    for mealy in (False, True):
        ms = ctx.gen_machines(2, 2, 1, mealy) + ctx.gen_machines(3, 1, 2, mealy) + (ctx.gen_machines(3, 2, 1, mealy))
        for kind in (('mealy',) if mealy else ('dfa', 'moore')):
            for m in (rng.sample(ms, min(len(ms), 120)) if ctx.quick else ms):
                m = rename(rng, m)
                struct(kind, holes(rng, m, rng.choice((1, 2))) if rng.random() < .4 else m)
    for _ in range(300 if ctx.quick else 4000):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        n, k = rng.choice((1, 2, 3, 4, 6, 8)), rng.choice((1, 2, 3))
        m = random_machine(rng, n, k, 2, kind == 'mealy')
        m['init'] = rng.randrange(1, n + 1)
        if rng.random() < .6:
            m = holes(rng, m, rng.choice((1, 2, 4, 6)))
        struct(kind, rename(rng, m))
    for _ in range(600 if ctx.quick else 6000):
        kind = rng.choice(('dfa', 'moore', 'mealy', 'onfsm', 'ndmoore', 'mdp', 'smm'))
        n, k = rng.choice((1, 2, 3, 5)), rng.choice((1, 2, 3))
        g = random_graph(rng, kind, n, k, 2 if kind == 'dfa' else rng.choice((1, 2, 3)), partial=rng.choice((0, .2, .5)), observable=rng.random() < .7,
                         reach=rng.random() < .7)
        g['init'] = rng.randrange(1, n + 1)
        i, o = rng.choice(CODES)
        how = rng.choice(('method', 'function', 'default'))
        items.append({'what': 'completion', 'kind': kind, 'g': g, 'inp': i, 'out': o, 'order': rng.sample(range(n), n), 'how': how,
                      'mode': 'self' if how == 'default' else rng.choice(('self', 'sink')), 'seed': rng.randrange(1 << 30)})
    judge(ctx, items, 'paths, prefixes, connectivity, completion')
    ctx.notes['automata'] = len(items)
