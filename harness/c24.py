from generators import *

GEN = 'CONSTANTS Kind="{}" N={} K={} O={} Acc={} Ensure={} Limit=3\nSPECIFICATION GSpec\nINVARIANT DoneWell\nINVARIANT DoneLabels\n' \
      'INVARIANT DoneMinimal\nPROPERTY Ends\n'
SHARE = 'CONSTANTS Kind="{}" N={} K={} O={} Acc={} Ensure=TRUE Limit=1\nSPECIFICATION ShareSpec\nINVARIANT Emit\n'


def main(ctx):
    rng = ctx.rng('c24')
    for p in [('moore', 2, 2, 2, 0, 'TRUE'), ('dfa', 3, 1, 2, 1, 'TRUE'), ('dfa', 2, 2, 2, 0, 'TRUE')] + \
            ([] if ctx.quick else [('mealy', 2, 2, 2, 0, 'TRUE'), ('mealy', 3, 1, 2, 0, 'FALSE'), ('moore', 3, 1, 3, 0, 'TRUE'), ('dfa', 3, 2, 2, 1, 'FALSE')]):
        ctx.tlc('MCGenerator', GEN.format(*p), name='MCGenerator ' + ' '.join(map(str, p)))
    # share of the drawings that are minimal, enumerated exhaustively by TLC: what can be demanded of a hundred drawings
    shares = {}
    for p in [('moore', 3, 2, 2, 0), ('dfa', 3, 2, 2, 1), ('dfa', 3, 1, 2, 1), ('dfa', 3, 2, 2, 0), ('mealy', 2, 2, 2, 0)] + \
            ([] if ctx.quick else [('mealy', 3, 1, 2, 0), ('moore', 3, 1, 2, 0), ('dfa', 3, 2, 2, 2), ('dfa', 3, 2, 2, 3), ('dfa', 2, 1, 2, 1),
                                   ('moore', 2, 1, 2, 0), ('mealy', 2, 1, 3, 0), ('dfa', 4, 1, 2, 1), ('dfa', 4, 1, 2, 2), ('moore', 3, 2, 3, 0)]):
        r = ctx.tlc_json('MCGenerator', SHARE.format(*p), name='drawings ' + ' '.join(map(str, p)))[0]
        shares[p[:3] + (p[3] if p[0] != 'dfa' else 2, p[4])] = r['min'] / r['all']
    ctx.notes['share of minimal drawings'] = {' '.join(map(str, p)): round(x, 3) for p, x in shares.items()}
    items = []

    def det(kind, n, k, o, acc=-1, **kw):
        a = n // 2 if acc < 0 else acc
        sh = shares.get((kind, n, k, o, a if kind == 'dfa' else 0))
        likely = sh >= .3 if sh is not None else \
            (2 <= n <= 6 and k >= 2 and o >= 2 and (kind != 'dfa' or 0 < a < n) or n == 1)
        ensure = kw.pop('ensure', rng.random() < .7)
        items.append({'what': 'det', 'kind': kind, 'n': n, 'k': k, 'o': o, 'acc': acc, 'ensure': ensure, 'minimal': ensure and likely,
                      'how': rng.choice(('generic', 'named')), 'pre': rng.random() < .5, 'giveout': rng.random() < .5,
                      'custom': rng.choice((0, 0, 1, 2, 3, 4, 5, 6)) if max(k, o) <= 7 else 0, 'seed': rng.randrange(1 << 30), **kw})
    for p in shares:
        for _ in range(6 if ctx.quick else 60):
            det(p[0], p[1], p[2], p[3], p[4] if p[0] == 'dfa' else -1, ensure=True)
    for _ in range(420 if ctx.quick else 8000):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        n = rng.choice((1, 2, 3, 4, 5, 6, 6, 10, 14))
        k, o = rng.choice((1, 2, 2, 3, 5)), 2 if kind == 'dfa' else rng.choice((2, 2, 3, 4, 6))
        if k == 1 and n > 4:
            n = rng.choice((1, 2, 3, 4))         # one input: reachable wirings are single cycles, found by luck
        det(kind, n, k, o, rng.choice((-1, -1, 0, 1, n // 2, n - 1, n)) if kind == 'dfa' else -1)
    for it in items:                             # shapes the named constructors refuse to take literally
        if it['kind'] == 'dfa' and it['how'] == 'named' and it['acc'] >= it['n']:
            it['how'] = 'generic'
        if it['how'] == 'named' and it['custom'] == 0:
            it['custom'] = rng.choice((1, 2, 3, 4)) if max(it['k'], it['o']) <= 7 else 0
    for _ in range(420 if ctx.quick else 6000):
        kind = rng.choice(('mdp', 'mdp', 'smm', 'smm', 'mc', 'onfsm'))
        n, k, o = rng.choice((1, 2, 3, 4, 5, 7)), rng.choice((1, 2, 3)), rng.choice((2, 3, 4, 5))
        if kind == 'mc':
            n, k = rng.choice((3, 4, 5, 8, 12)), 1
        if k == 1 and n > 4:
            n = 4
        it = {'what': 'sto', 'kind': kind, 'n': n, 'k': k, 'o': o if kind != 'onfsm' else rng.choice((1, 2, 3, 5)), 'how': '', 'alts': rng.choice((0, 1, 2)) if kind == 'onfsm' else 0,
              'seed': rng.randrange(1 << 30)}
        if kind in ('mdp', 'smm') and rng.random() < .5:
            most = min(n, o) if kind == 'mdp' else min(n * k, o)
            pool = [[1.0], [.5, .5], [.9, .1], [.25, .75], [.2, .3, .5], [.4, .3, .2, .1], [.2] * 5]
            pool = [x for x in pool if len(x) <= most]
            it['dists'] = rng.sample(pool, rng.randrange(1, len(pool) + 1))
        items.append(it)
    for _ in range(200 if ctx.quick else 3000):
        items.append({'what': 'vpa', 'kind': 'sevpa', 'n': rng.choice((1, 1, 2, 3, 4, 6)), 'k': 0, 'o': 0, 'how': '',
                      'al': [rng.choice((0, 1, 2, 3)), rng.choice((1, 2, 3)), rng.choice((1, 2, 3))], 'accp': rng.choice((0, 1, .3, .5)),
                      'retp': rng.choice((0, .2, .5, 1)), 'seed': rng.randrange(1 << 30)})
    judge_calls(ctx, 'TraceGenerator', 'JudgeGenerator', items, run_gen, 'generated models', sig=lambda m: f"{m['kind']}|{m['how']}", timeout=25)
    ctx.assumptions = ['admissible parameters: at least two outputs (and three states for Markov chains), at least one call and one return letter, '
                       'probability tuples no longer than the number of outputs available',
                       'minimality is demanded where TLC enumerates at least 30 percent of the drawings as minimal, or 2..6 states with two or more inputs; '
                       'elsewhere a warning is accepted']
