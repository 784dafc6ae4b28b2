from stoch import *

MC = 'CONSTANTS N={n} O={o} MaxRuns={r} MaxLen={l}\nSPECIFICATION Spec\nINVARIANT ConstructionSound\nINVARIANT NoChaos\nINVARIANT TestLaws\n'


def system(rng, kind, small=False):
    """random deterministic-observation system in which every input is defined"""
    while True:
        n, k = (rng.choice((1, 2, 2, 3)), rng.choice((1, 2))) if small else (rng.choice((2, 3, 4, 5)), rng.choice((1, 2, 3)))
        g = random_graph(rng, kind, n, k, rng.choice((2, 3, 4)), 0.0, True)
        if all(any(t['s'] == s and t['a'] == a for t in g['tr']) for s in range(1, n + 1) for a in range(1, k + 1)):
            if rng.random() < .25:      # only one outcome everywhere
                seen, tr = set(), []
                for t in g['tr']:
                    if (t['s'], t['a']) not in seen:
                        seen.add((t['s'], t['a'])); tr.append({**t, 'p': 10 ** 6, 'pr': '1.0'})
                g = {**g, 'tr': tr}
            return g


def items_(ctx):
    rng = ctx.rng('runs')
    items = []
    sts = ['default', 'normal', 'classic', 'chi2', 'half', 'normaldiff', 'chi2diff']
    cexp = [None, 'longest_prefix', 'rs']
    samp = [None, 'bfs', 'random:20:0.2']
    reps = 4 if ctx.quick else 40

    def add(kind, st, cp, sp, small=None, oracle=None, **kw):
        mn = rng.choice((1, 2, 3))
        cfg = {'strategy': st, 'cex_processing': cp, 'samples_cex_strategy': sp, 'min_rounds': mn,
               'max_rounds': mn + rng.choice((0, 1, 3)), 'target_unambiguity': rng.choice((.99, .5, 1)),
               'stopping_range_dict': rng.choice(({2: .01}, {3: .1}, 'strict', 'relaxed'))}
        if st == 'classic':
            cfg.update(n_c=rng.choice((2, 5, 20)), n_resample=rng.choice((30, 100, 300)))
            cfg['max_rounds'] += 2
        cfg.update(kw)
        small = rng.random() < .4 if small is None else small
        items.append({'kind': kind, 'g': system(rng, kind, small), 'cfg': cfg, 'inp': rng.choice(('str', 'int', 'tuple')),
                      'out': rng.choice(('str', 'int')), 'oracle': oracle or rng.choice(('walk', 'word', 'script', 'script', 'none')),
                      'tests': rng.choice((5, 30, 80)), 'reset': rng.random() < .5, 'maxhyp': 30, 'seed': rng.randrange(1 << 30),
                      'sep': 10 if st in ('half', 'normal', 'default', 'classic') and cp is None else 0})
    for _ in range(reps):
        for kind in ('mdp', 'smm'):
            for st in sts:
                for cp in cexp:
                    for sp in samp:
                        add(kind, st, cp, sp)
    # few samples, many counterexamples found among them
    for _ in range(60 if ctx.quick else 600):
        for kind in ('mdp', 'mdp', 'smm'):
            add(kind, 'classic', rng.choice(('longest_prefix', 'longest_prefix', None, 'rs')), rng.choice(('bfs', 'random:50:0.1')),
                oracle=rng.choice(('none', 'script')), n_c=rng.choice((1, 2, 3, 6)), n_resample=rng.choice((5, 10, 30, 60)),
                max_rounds=rng.choice((6, 12, 20)))
    return items


def cells(ctx):
    rng = ctx.rng('cells')
    items = []
    for _ in range(40 if ctx.quick else 400):
        for st in ('classic', 'normal', 'chi2'):
            pairs = []
            for _ in range(25):
                outs = 'abcd'[:rng.choice((1, 2, 2, 3, 4))]
                top = rng.choice((3, 10, 40) if st == 'chi2' else (3, 10, 40, 150))
                a = {o: rng.randrange(1, top) for o in outs if rng.random() < .85}
                b = {o: rng.randrange(1, top) for o in outs if rng.random() < .85}
                if a and rng.random() < .5:      # similar cells, the interesting region
                    f = rng.choice((.5, 1, 2))
                    b = {o: max(1, int(v * f) + rng.randrange(-max(1, v // 3), max(2, v // 3))) for o, v in a.items()}
                pairs.append((a, b))
            items.append({'st': st, 'pairs': pairs})
    return items


def main(ctx):
    for n, o, r, l in ((2, 2, 2, 2), (1, 2, 4, 2)) if ctx.quick else ((2, 2, 3, 2), (1, 2, 5, 2), (2, 2, 2, 3), (1, 3, 3, 2)):
        ctx.tlc('MCStochLearner', MC.format(n=n, o=o, r=r, l=l), name=f'construction N={n} O={o} runs={r} length={l}')
    judge_calls(ctx, 'TraceStochCells', 'JudgeCells', cells(ctx), run_cells, 'compatibility tests', lambda m: m['st'])
    items = items_(ctx)
    res = pmap(run, items, timeout=90)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        cases.append(case(it, r)); metas.append(it if r[0] == 'ok' else {**it, 'outcome': r})
    ctx.notes['learning runs'] = len(cases)
    ctx.judge('TraceStoch', cases, metas, 'SPECIFICATION TraceSpec\n', name='stochastic learning runs', chunk=400)
    ctx.assumptions = ['systems whose state is determined by the observed outputs; every input always enabled']
