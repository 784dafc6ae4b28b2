from convert import *

CODES = [('str', 'str'), ('int', 'int'), ('tuple', 'str'), ('mixed', 'int')]


def main(ctx):
    rng = ctx.rng('c22')
    q = ctx.quick
    items = []
    for _ in range(40 if q else 400):
        for kind in ('mdp', 'smm', 'mc', 'onfsm'):
            n, k = rng.choice((1, 2, 3, 5)), rng.choice((1, 2, 3))
            g = random_graph(rng, kind, n, k, rng.choice((1, 2, 3, 4)), partial=rng.choice((0, 0, .3)), reach=rng.random() < .8)
            g['init'] = rng.randrange(1, n + 1)
            k = g['k']
            i, o = rng.choice(CODES)
            mc = kind == 'mc'
            ops = []
            let = lambda: 1 if mc else rng.randrange(1, k + 1) if rng.random() < .93 else k + 1
            for _ in range(30):
                r = rng.random()
                if r < .1:
                    ops.append({'op': 'reset', 's': 0, 'w': []})
                elif r < .5:
                    ops.append({'op': 'step', 's': 0, 'w': [let() if mc or rng.random() < .9 else 0]})
                elif r < .6 and not mc:
                    ops.append({'op': 'exec', 's': rng.randrange(1, n + 1), 'w': [rng.randrange(1, k + 1) for _ in range(rng.choice((0, 1, 3, 5)))]})
                elif r < .7 and kind == 'onfsm':
                    ops.append({'op': 'offers', 's': 0, 'w': [let()]})
                elif r < .8 and kind == 'onfsm':
                    ops.append({'op': 'lookup', 's': rng.randrange(1, n + 1), 'w': [let()],
                                'o': rng.choice([e['o'] for e in g['tr']] or ['0']) if rng.random() < .7 else rng.choice(('nope', 'any'))})
                else:
                    ops.append({'op': 'stepto', 's': 0, 'w': [let()], 'o': rng.choice([e['o'] for e in g['tr']] or ['0']) if rng.random() < .85 else 'nope'})
            sites = [{'s': e['s'], 'a': e['a']} for e in g['tr']]
            if mc:
                sites += [{'s': s, 'a': 1} for s in range(1, n + 1) if not any(e['s'] == s for e in g['tr'])]
            for e in rng.sample(sites, min(3, len(sites))):
                ops.append({'op': 'sample', 's': e['s'], 'w': [e['a']], 'n': 3000, 'weighted': True})
            items.append({'kind': kind, 'g': g, 'inp': i, 'out': o, 'ops': ops, 'order': rng.sample(range(n), n), 'seed': rng.randrange(1 << 30)})
    judge_ops(ctx, items, 'operations on stochastic and observable models')
    ctx.notes['operations'] = sum(len(i['ops']) for i in items)
    conv = []
    for _ in range(60 if q else 600):
        for what in ('smm2mdp', 'mdp2mc', 'moore2dfa', 'prism'):
            kind = {'smm2mdp': 'smm', 'mdp2mc': 'mdp', 'moore2dfa': 'moore', 'prism': 'mdp'}[what]
            n, k = rng.choice((1, 2, 3, 4)), rng.choice((1, 2, 3))
            single = what == 'mdp2mc' and rng.random() < .5
            if single:
                k = 1
            o = rng.choice((1, 2, 3)) if what != 'prism' else rng.choice((2, 4, 7))
            g = random_graph(rng, kind, n, k, o, partial=rng.choice((0, 0, .3)) if not single else 0, reach=what == 'smm2mdp' or rng.random() < .8)
            g['init'] = rng.randrange(1, n + 1)
            if single and not g['tr']:
                continue
            i, oo = rng.choice(CODES)
            outs = rng.choice(([False, True, None], [None, True, False], [False, True, True], [True, False, 'x']))
            conv.append({'what': what, 'kind': kind, 'g': g, 'inp': i, 'out': oo, 'outs': outs, 'order': rng.sample(range(n), n), 'a': rng.randrange(1, k + 1),
                         'single': single, 'how': rng.random() < .5, 'seed': rng.randrange(1 << 30)})
    # many states and outputs: identifiers of the converted states stay distinct
    for _ in range(2 if q else 10):
        n = 12
        g = {'n': n, 'init': 1, 'lab': [''] * n, 'eps': False, 'k': 1,
             'tr': [edge(s, 1, str(o), rng.choice((s % n + 1, 2, 12)) if o % 3 else s % n + 1, 1 / 12) for s in range(1, n + 1) for o in range(12)]}
        conv.append({'what': 'smm2mdp', 'kind': 'smm', 'g': g, 'inp': 'str', 'out': 'int', 'outs': [], 'order': rng.sample(range(n), n), 'a': 1,
                     'single': False, 'how': True, 'seed': rng.randrange(1 << 30)})
    judge_calls(ctx, 'TraceConvert', 'ConvVerdict', conv, run_conv, 'conversions between model classes')
    ctx.assumptions = ['3000 independent steps show every alternative within 8 percentage points of its probability']
