from common import *
import learnrun as L, cacherun as R
import c01


def samples_of(rng, m, kind, coding, num, length):
    res = []
    for _ in range(num):
        w = [rng.randrange(m['k']) + 1 for _ in range(rng.randrange(1, length))]
        res.append((w, [coding.g(x) for x in m_run(m, w)[1]]))
    return res


def main(ctx):
    rng = ctx.rng('c04')
    R.judge_histories(ctx, R.history_items(ctx, ctx.quick), False)
    cfgs = L.all_configs()
    items = []
    pool = {'moore': ctx.gen_machines(3, 2, 2, False), 'mealy': ctx.gen_machines(2, 2, 2, True)}
    for rep in range(4 if ctx.quick else 40):
        for c in cfgs:
            kind = rng.choice(('dfa', 'moore', 'mealy'))
            if rep % 2:
                m = rng.choice(pool['mealy' if kind == 'mealy' else 'moore'])
            else:
                m = random_machine(rng, rng.choice((3, 4, 6, 9)), rng.choice((1, 2, 3)), 2 if kind == 'dfa' else 3, kind == 'mealy')
            inp, out = rng.choice(('str', 'int', 'tuple')), rng.choice(('str', 'int'))
            c = dict(c)
            if c['alg'] != 'kv' and rng.random() < .6:
                coding = Coding(kind, m['k'], inp, out)
                c['samples'] = samples_of(rng, m, kind, coding, rng.choice((0, 1, 3, 10, 40)), rng.choice((3, 6, 12)))
            items.append({'m': m, 'm2': m, 'at': 10 ** 9, 'kind': kind, 'cfg': c, 'inp': inp, 'out': out, 'tests': rng.choice((0, 2, 6)),
                          'seed': rng.randrange(1 << 30), 'policy': rng.choice(('shortest', 'random', 'mixed'))})
    # the model is the one learned without a cache: equivalent to the system, minimal
    res = pmap(L.record_run, items)
    keep = [(it, r) for it, r in zip(items, res) if r[0] != 'skip']
    ctx.judge('TraceLearner', [L.to_case(it, r, chkret=True) for it, r in keep], [L.meta(it, r) for it, r in keep], name='models learned with cache and samples')
    # what reaches the system from below a cache
    cached = [it for it in items if it['cfg']['cache_and_non_det_check'] or it['cfg'].get('samples') is not None]
    res = pmap(R.run_below, cached)
    cases, metas = [], []
    for it, r in zip(cached, res):
        if r[0] == 'skip':
            continue
        ev = r[1]['ev'] if r[0] == 'ok' else [{'op': 'end', 'err': True, 'det': True, 'w': [], 'exec': []}]
        cases.append({'chkcount': False, 'ev': ev}); metas.append({**it, 'outcome': r[1]['err'] if r[0] == 'ok' else r})
    ctx.notes['caching_learner_runs'] = len(cases)
    ctx.judge('TraceCache', cases, metas, 'SPECIFICATION TraceSpec\nINVARIANT Inv\n', name='executions below the cache', chunk=3000)
    ctx.assumptions = ['outputs are hashable values other than None', 'samples are genuine observations of the system']
