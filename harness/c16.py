from pushdown import *

MC = ('CONSTANTS N=2 L={L} Sev={sev}\nSPECIFICATION Spec\nINVARIANT TablesAgree\nINVARIANT RunIsSteps\nINVARIANT AcceptedIsBalanced\nINVARIANT StackIsDepth\n'
      'INVARIANT EquivExact\nPROPERTY DeathIsFinal\n')


def ops(rng, v, bench=False):
    L = len(v['al'])
    res = []
    hi = 8 if not bench else 14
    for _ in range(rng.choice((3, 5, 8))):
        k = rng.choice(('run', 'run', 'query', 'query', 'exec', 'balance'))
        w = pwords(rng, v, hi) if rng.random() < .8 else [rng.randrange(1, L + 1) for _ in range(rng.randrange(0, hi))]
        if rng.random() < .1:
            w.insert(rng.randrange(len(w) + 1), L + 1)
        if k == 'run':
            res.append({'op': 'reset'})
            if rng.random() < .3:
                res.append({'op': 'step', 'a': 0})
            for a in w:
                res.append({'op': 'step', 'a': a})
                if rng.random() < .15:
                    res.append({'op': 'step', 'a': 0})
        elif k == 'query':
            res.append({'op': 'query', 'w': w})
        elif k == 'exec':
            if v['sevpa']:
                res.append({'op': 'exec', 'w': w})
        else:
            via = 'model' if not v['sevpa'] and rng.random() < .5 else 'util'
            res.append({'op': 'balance', 'w': w, 'via': via, 'how': rng.choice(('tuple', 'list'))})
    return res


def bench_models():
    """the benchmark models the library ships, as descriptions"""
    import aalpy.utils.BenchmarkVpaModels as B, aalpy.utils.BenchmarkSevpaModels as S
    res = []
    fs = [(n, getattr(B, n), False) for n in dir(B) if n.startswith('vpa_')] + [(n, getattr(S, n), True) for n in dir(S) if n.startswith('sevpa_')]
    for name, f, sev in fs:
        try:
            m = f()
            al = m.input_alphabet
            letters = list(al.internal_alphabet) + list(al.call_alphabet) + list(al.return_alphabet)
            nn = [len(al.internal_alphabet), len(al.call_alphabet), len(al.return_alphabet)]
            p = pproject(m, letters, nn, sev)
            if any(x['a'] == 99 or x['t'] > p['n'] or x['gs'] == 98 or x['gc'] == 99 for x in p['e']) or \
                    len({(x['s'], x['a'], x['gs'], x['gc']) for x in p['e']}) < len(p['e']):
                continue
        except Exception:
            continue
        e = [[x['s'], x['a'] - 1, None if x['a'] <= nn[0] else 'push' if x['a'] <= nn[0] + nn[1] else 'pop',
              None if x['a'] <= nn[0] else [x['gs'], x['gc'] - 1] if sev else x['gc'] - 1, x['t']] for x in p['e']]
        res.append({'n': p['n'], 'init': p['init'], 'acc': p['acc'], 'al': letters, 'e': e, 'sevpa': sev, 'ncalls': nn, 'name': name})
    return res


def main(ctx):
    rng = ctx.rng('c16')
    q = ctx.quick
    for sev in ('FALSE', 'TRUE'):
        ctx.tlc('MCPushdown', MC.format(L=4 if q else 6, sev=sev), name=f'pushdown design sevpa={sev}')
    items = []
    for _ in range(1500 if q else 15000):
        v = random_vpa(rng, rng.choice(('word', 'paren', 'num')), rng.random() < .5)
        items.append({'g': v, 'ids': rng.choice('sn'), 'order': None if rng.random() < .5 else rng.sample(range(v['n']), v['n']), 'ops': ops(rng, v),
                      'seed': rng.randrange(1 << 30)})
    bench = bench_models()
    ctx.notes['benchmark models'] = len(bench)
    for v in bench:
        for _ in range(10 if q else 100):
            items.append({'g': v, 'ids': 's', 'order': None, 'ops': ops(rng, v, True), 'seed': rng.randrange(1 << 30)})
    judge_pushdown(ctx, items, 'runs')
    items = []
    pool = bench + [random_vpa(rng, 'paren', rng.random() < .5) for _ in range(150 if q else 1500)]
    for v in pool:
        os_ = []
        lo = rng.choice((0, 1, 2, 4, 6))
        if v['sevpa']:
            how = rng.choice(('bfs', 'bfs', 'random'))
            if how == 'bfs':
                os_ = [{'op': 'words', 'how': 'bfs', 'min': min(lo, 4), 'max': 10 ** 6, 'count': rng.choice((1, 2, 5))}]
            else:
                p = rng.choice((.3, .5, .7))
                os_ = [{'op': 'words', 'how': 'random', 'min': lo, 'max': 10 ** 6, 'args': [p, lo]}] * 3
        else:
            for _ in range(6):
                lo = rng.choice((0, 1, 2, 4, 6))
                os_.append({'op': 'words', 'how': 'walk', 'min': lo, 'max': lo + rng.choice((1, 5, 10, 30))})
        items.append({'g': v, 'ids': 's', 'order': None, 'ops': os_, 'seed': rng.randrange(1 << 30), 'may_hang': True})
    judge_pushdown(ctx, items, 'accepting words', timeout=2)
