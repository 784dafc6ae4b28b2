from common import *
import learnrun as L, cacherun as R
from c04 import samples_of


def main(ctx):
    rng = ctx.rng('c05')
    R.judge_histories(ctx, R.history_items(ctx, ctx.quick), False)
    cfgs = [c for c in L.all_configs() if c['cache_and_non_det_check']]
    items = []
    for rep in range(8 if ctx.quick else 60):
        for c in cfgs:
            kind = rng.choice(('dfa', 'moore', 'mealy'))
            n, k = rng.choice((2, 3, 4, 6)), rng.choice((1, 2, 3))
            m = random_machine(rng, n, k, 2 if kind == 'dfa' else 3, kind == 'mealy')
            m2 = json.loads(json.dumps(m))
            how = rng.random()
            if how < .15:
                pass                                  # stays deterministic
            elif how < .6:
                s, a = rng.randrange(n), rng.randrange(k)
                flip = lambda x: str((int(x) + 1) % (2 if kind == 'dfa' else 3))
                if kind == 'mealy':
                    m2['o'][s][a] = flip(m2['o'][s][a])
                else:
                    m2['o'][s] = flip(m2['o'][s])
            else:
                m2['d'][rng.randrange(n)][rng.randrange(k)] = rng.randrange(n) + 1
            if c['alg'] != 'kv' and rng.random() < .35:      # data supplied in advance, sometimes of another system
                c = dict(c)
                coding = Coding(kind, m['k'], 'int', 'str')
                c['samples'] = samples_of(rng, m, kind, coding, rng.choice((1, 3, 10)), rng.choice((3, 6)))
                if rng.random() < .4:
                    c['samples'] += samples_of(rng, m2, kind, coding, rng.choice((1, 3, 10)), rng.choice((3, 6)))
                    rng.shuffle(c['samples'])
            items.append({'m': m, 'm2': m2, 'at': rng.choice((1, 2, 3, 5, 8, 13, 20, 30, 45, 60, 100, 200)), 'kind': kind, 'cfg': c,
                          'inp': rng.choice(('str', 'int', 'tuple')), 'out': 'str', 'tests': rng.choice((0, 2, 6)), 'seed': rng.randrange(1 << 30)})
    res = pmap(R.run_below, items)
    cases, metas, detected = [], [], 0
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        if r[0] != 'ok':
            ev = [{'op': 'end', 'err': True, 'det': it['m'] == it['m2'], 'w': [], 'exec': []}]
        else:
            ev = r[1]['ev']; detected += 'Non-determinism' in r[1]['err']
        cases.append({'chkcount': False, 'ev': ev}); metas.append({**it, 'outcome': r[1]['err'] if r[0] == 'ok' else r})
    ctx.notes['learner_runs'] = len(cases); ctx.notes['contradictions_reported'] = detected
    ctx.judge('TraceCache', cases, metas, 'SPECIFICATION TraceSpec\nINVARIANT Inv\n', name='learners on inconsistent systems',
              sig=lambda m: m['cfg']['alg'] + '|' + str(m['outcome'])[:40])
    ctx.assumptions = ['outputs are hashable values other than None', 'the initial output of a Moore system (empty word) is not part of the history']
