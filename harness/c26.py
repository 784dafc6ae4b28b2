from adapters import *


def items(ctx, rng, hist, count):
    codes = [('str', 'str'), ('int', 'int'), ('tuple', 'str'), ('mixed', 'int')]

    def ops(k, empty, long):
        res = []
        for h in rng.sample(hist, 4):
            for o in h:
                if o['op'] == 'step' and o['w'] == [0] and not empty or o['op'] == 'query' and not o['w'] and not empty:
                    continue
                res.append({'op': o['op'], 'w': [x if x <= k else 1 for x in o['w']]})
        for _ in range(4):
            res.append({'op': rng.choice(('query', 'io')), 'w': [rng.randrange(1, k + 1) for _ in range(rng.randrange(1, long + 1))]})
        return res
    res = []
    for i in range(count):
        kind = rng.choice(('dfa', 'moore', 'mealy', 'class', 'class', 'regex', 'regex', 'regex', 'tomita', 'tomita', 'balanced', 'onfsm', 'mdp', 'smm', 'mc', 'ndmoore'))
        i_, o_ = rng.choice(codes)
        it = {'kind': kind, 'seed': rng.randrange(1 << 30), 'inp': i_, 'out': o_, 'what': 'adapter'}
        if kind in ('dfa', 'moore', 'mealy'):
            k = rng.choice((1, 2, 3))
            it['m'] = random_machine(rng, rng.choice((1, 2, 3, 4)), k, 2, kind == 'mealy'); it['m']['init'] = rng.randrange(1, it['m']['n'] + 1)
            it['ops'] = ops(k, kind != 'mealy', 6)
        elif kind == 'class':
            k = rng.choice((1, 2, 3))
            it['m'] = random_machine(rng, rng.choice((1, 2, 3)), k, rng.choice((2, 3)), True)
            it['style'] = {'how': [rng.choice(('plain', 'arg', 'arg', 'pair', 'default')) for _ in range(k)], 'box': rng.choice((list, tuple)), 'bare': rng.random() < .7,
                           'args': rng.choice(([0, 1, 2], ['x', '', 'y'], [False, 5, 'z'], [7, 0.0, 'w'], ['a', 'b', 'c']))}
            it['ops'] = ops(k, False, 6)
        elif kind == 'regex':
            it['chars'] = rng.choice(list(CHARS))
            cs = sorted({x for y in CHARS[it['chars']] for x in str(y)})
            it['r'] = random_regex(rng, cs, rng.choice((0, 1, 2, 3))); it['dollar'] = rng.random() < .4
            it['ops'] = ops(3, True, 5)
        elif kind == 'tomita':
            it['n'] = rng.choice((1, 2, 3, 3, 4, 5, 6, 7, -3)); it['letters'] = rng.choice(([0, 1], ['0', '1']))
            it['ops'] = ops(2, True, 9) + [{'op': 'query', 'w': w} for w in tomita_words(rng)]
        elif kind == 'balanced':
            n = rng.choice((1, 2, 3))
            opens, closes = '([{'[:n], ''.join(rng.sample(')]}'[:n], n))
            it['pairs'], it['empty'] = dict(zip(opens, closes)), rng.random() < .5
            it['letters'] = list(opens + closes + 'x'[:rng.randrange(2)])
            it['ops'] = ops(len(it['letters']), True, 6) + [{'op': rng.choice(('query', 'io')), 'w': nested(rng, n, it['letters'].index, it['pairs'], rng.choice((1, 3, 6)))} for _ in range(6)]
        else:
            g = random_graph(rng, kind, rng.choice((1, 2, 3)), 2, rng.choice((2, 3)), observable=rng.random() < .7)
            it['g'] = g
            it['ops'] = ops(g['k'], kind in ('mdp', 'ndmoore') and False or kind == 'mdp', 5)
            if kind == 'mc':
                it['ops'] = [{**o, 'w': []} if False else o for o in it['ops']]
        res.append(it)
    return res


def tomita_words(rng):
    res = [[2, 1] * rng.randrange(4)]
    for _ in range(3):
        w = []
        b = rng.randrange(2)
        for _ in range(rng.randrange(1, 5)):
            w += [b + 1] * rng.randrange(1, 4); b = 1 - b
        res.append(w)
    return res


def nested(rng, n, index, pairs, size):
    """a mostly balanced word"""
    w, stack = [], []
    while len(w) < 2 * size:
        if stack and rng.random() < .5:
            w.append(stack.pop())
        else:
            o = rng.choice(list(pairs))
            w.append(o); stack.append(pairs[o])
    w += reversed(stack)
    if rng.random() < .3:
        w[rng.randrange(len(w))] = rng.choice(list(pairs) + list(pairs.values()))
    return [index(x) + 1 for x in w]


def main(ctx):
    rng = ctx.rng('c26')
    hist = ctx.tlc_json('MCAdapter', f'CONSTANTS K=2 L={3 if ctx.quick else 4}\nSPECIFICATION Spec\nINVARIANT Emit\n', name='histories of use')
    its = items(ctx, rng, hist, 900 if ctx.quick else 12000)
    res = pmap(run_adapter, its, timeout=30)
    cases, metas = [], []
    for it, r in zip(its, res):
        if r[0] == 'skip':
            continue
        metas.append({**it, 'outcome': r[0]})
        cases.append(r[1] if r[0] == 'ok' else {'obj': {'k': 'tomita', 'n': 1, 'str': [[0], [1]]}, 'ev': [{'op': 'NoResult' if r[0] == 'hang' else 'Crash', 'detail': str(r[1])[:300]}]})
    ctx.judge('TraceAdapter', cases, metas, 'SPECIFICATION TraceSpec\n', name='adapters', chunk=400, sig=lambda m: m['kind'])
