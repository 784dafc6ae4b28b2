from merging import *


def item(rng, i):
    kind = rng.choice(('moore', 'mealy', 'ndmoore', 'onfsm', 'mdp', 'smm'))
    det = kind in DETERMINISTIC
    g = random_graph(rng, kind, rng.choice((1, 2, 3, 4)), rng.choice((1, 2)), rng.choice((2, 3)), partial=rng.choice((0, 0, .2)))
    it = {'kind': kind, 'what': 'gsm', 'g': g, 'inp': rng.choice(('str', 'int', 'tuple', 'mixed')), 'out': rng.choice(('str', 'int')),
          'count': rng.choice((1, 3, 6, 12)), 'len': rng.choice((2, 3, 4, 5)), 'seed': rng.randrange(1 << 30), 'locals': [], 'score': ['true'],
          'thresh': rng.choice((None, None, 0, 2)), 'greedy': rng.random() < .25, 'wrap': [], 'k': rng.choice((0, 1, 1, 2, 3)), 'minblue': rng.random() < .25,
          'dfs': rng.random() < .25, 'order': rng.choice((None, None, None, 'len', 'rev', 'lex')), 'fmt': rng.choice(('io', 'io', 'tree')),
          'hooks': rng.random() < .3, 'convert': rng.random() < .7}
    it['mode'] = rng.choice(('none', 'global', 'fold', 'first') if det else ('pta', 'pta', 'now', 'now', 'global', 'fold', 'fold', 'first', 'none'))
    m = it['mode']
    if m in ('pta', 'now', 'global', 'first'):
        it['locals'] = rng.choice(([['hoef', rng.choice((.005, .5, 1.5, 1.9))]], [['tot', rng.choice((0, 1, 3))]], [['det', 0]], [['tot', 2], ['det', 0]]))
        if m == 'pta' and rng.random() < .4:
            it['locals'] = [['rel', rng.randrange(1 << 20), rng.choice((.05, .2, .5))]]
        if m == 'global' and it['locals'][0][0] == 'hoef' and rng.random() < .5:
            it['locals'] = [['hoef', 1.99]]
    if m == 'fold':
        it['locals'] = [['det', 0]]; it['dfs'] = False
    if m != 'global':
        it['score'] = rng.choice((['true'], ['true'], ['evid', None], ['evid', rng.choice((0, 1, 3))], ['freq', None], ['freq', rng.choice((0, 2, 5))], ['user'], ['aic', rng.choice((0, 1))]))
    if m == 'pta' and rng.random() < .2:
        it['score'] = ['pairs']; it['thresh'] = None; it['greedy'] = False
    if kind in ('mdp', 'smm') and rng.random() < .25:
        it.update(default=True, score=['true'], wrap=[], locals=[], mode=rng.choice(('pta', 'now', 'first')))
        return it
    if it['score'][0] == 'aic':
        it['locals'] = [['det', 0]]                  # the likelihood itself is not specified
    for w in ('ktail', 'thresh', 'same', 'never', 'comb', 'comball', 'greedy'):
        if rng.random() < .2 and not (w == 'never' and 'same' in it['wrap']):
            if w == 'greedy' and m == 'global' or w in ('greedy', 'thresh') and it['score'][0] == 'aic':
                continue
            it['wrap'].append(w)
    rng.shuffle(it['wrap'])
    if 'comball' in it['wrap'] and 'comb' in it['wrap']:
        it['wrap'].remove('comb')
    if kind in ('ndmoore', 'mdp') and g['k'] == 1 and rng.random() < .3 or kind in ('onfsm', 'smm') and g['k'] == 1 and rng.random() < .3:
        it['fmt'] = 'traces'
    return it


def tails(rng, count):
    res = []
    for i in range(count):
        kind = rng.choice(('ndmoore', 'onfsm'))
        g = random_graph(rng, kind, rng.choice((1, 2, 3, 4)), rng.choice((1, 2)), rng.choice((2, 3)), partial=rng.choice((0, 0, .2)))
        res.append({'kind': kind, 'what': 'tails', 'g': g, 'inp': rng.choice(('str', 'int', 'tuple')), 'out': rng.choice(('str', 'int')), 'count': rng.choice((1, 3, 6, 12)),
                    'len': rng.choice((2, 3, 4, 5)), 'seed': rng.randrange(1 << 30), 'k': rng.choice((0, 1, 2, 3, 4)), 'complete': rng.choice((None, None, 'self_loop', 'sink_state')),
                    'print': rng.random() < .5})
    return res


def main(ctx):
    rng = ctx.rng('c29')
    for ml, ns, ms in ((2, 3, 2),) if ctx.quick else ((2, 3, 3), (3, 3, 2), (2, 4, 2)):
        ctx.tlc('MCRedBlue', f'CONSTANTS MaxLen={ml} NSyms={ns} MaxSize={ms}\nSPECIFICATION Spec\nINVARIANTS NothingLost TracesStay RedStay Deterministic LabelsAgree\nPROPERTY Ends\n',
                name=f'merging, all data sets of up to {ms} traces of length {ml}')
    its = [item(rng, i) for i in range(800 if ctx.quick else 15000)]
    res = pmap(run_gsm, its, timeout=40)
    cases, metas = [], []
    for it, r in zip(its, res):
        if r[0] == 'skip':
            continue
        metas.append({**it, 'outcome': r[0]})
        if r[0] == 'ok':
            cases.append(r[1])
        else:
            e = {'e': 'NoResult' if r[0] == 'hang' else 'Crash', 'n': 0, 'r': 0}
            z = {'N': 1, 'S': 0, 'symA': [], 'symO': [], 'kid': [[]], 'cnt': [[]], 'par': [1], 'by': [0], 'dep': [0], 'lab': [''], 'rank': [0]}
            cases.append({'d': z, 'crit': {}, 'ev': [e], 'M': {}, 'where': str(r[1])[:300]})
    ctx.judge('TraceRedBlue', cases, metas, 'SPECIFICATION TraceSpec\n', name='merge runs', chunk=250,
              sig=lambda m: f"{m['kind']}|{m['mode']}|{m['score'][0]}|{'+'.join(m['wrap'])}")
    judge_calls(ctx, 'TraceMerge', 'MergeVerdict', tails(rng, 150 if ctx.quick else 2000), run_named, 'k-tails', chunk=200)
