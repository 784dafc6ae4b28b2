from common import *
import oraclerun as O
import oracles as Q


def exhaustive(ctx, rng):
    """W and Wp: small minimal hypotheses against all small systems, two calls with changing hypotheses"""
    items = []
    for kinds, Ts in ((('dfa', 'moore'), ctx.gen_machines(3, 2, 2, False)), (('mealy',), ctx.gen_machines(2, 2, 2, True) + ctx.gen_machines(3, 1, 2, True))):
        Hs = {}
        for m in Ts:
            r = O.reach_minimal(m)
            Hs[json.dumps(r)] = r
        by = {}
        for h in Hs.values():
            by.setdefault((h['k'], h['n']), []).append(h)
        for T in Ts:
            if ctx.quick and T['n'] == 3 and rng.random() < .5:
                continue
            for name in ('wmethod', 'wp'):
                for _ in range(1 if ctx.quick else 12):
                    kind = rng.choice(kinds)
                    sizes = [s for (k, s) in by if k == T['k'] and s <= T['n']]
                    H = [rng.choice(by[(T['k'], rng.choice(sizes))]) for _ in range(2 if rng.random() < .6 else 1)]
                    items.append({'T': T, 'H': H, 'kind': kind, 'oracle': name, 'params': {'m': max(T['n'], 1)}, 'inp': rng.choice(('str', 'int')), 'out': 'str',
                                  'seed': rng.randrange(1 << 30), 'cached': []})
    for _ in range(400 if ctx.quick else 4000):   # nearly correct hypotheses of larger systems
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        T = O.reach_minimal(random_machine(rng, rng.choice((4, 5, 6, 8)), 2, 2, kind == 'mealy'))
        H = [O.reach_minimal(O.mutate(rng, T, kind)) for _ in range(2)]
        H = [h for h in H if T['n'] - h['n'] <= 2]
        if H:
            items.append({'T': T, 'H': H, 'kind': kind, 'oracle': rng.choice(('wmethod', 'wp')), 'params': {'m': max(T['n'], max(h['n'] for h in H))},
                          'inp': 'str', 'out': 'str', 'seed': rng.randrange(1 << 30), 'cached': []})
    return items


def main(ctx):
    rng = ctx.rng('c07')
    for n, m in ((2, 2),) if ctx.quick else ((2, 2), (1, 3), (2, 3)):
        ctx.tlc('MCOracle', f'CONSTANTS N={n} M={m} K=2 O=2\nINIT Init\nNEXT Next\nINVARIANT WComplete\nINVARIANT WpComplete\n', name=f'W/Wp completeness N={n} M={m}')
    for kind, w in (('randomword', 3), ('randomwalk', 3)) if ctx.quick else (('randomword', 6), ('randomwalk', 6), ('cachebased', 6)):
        ctx.tlc('MCOracleLife', f'CONSTANTS Kind="{kind}" Walks={w} Len0=2 Searches={4 if ctx.quick else 6}\nINIT Init\nNEXT Next\n'
                + ''.join(f'INVARIANT {i}\n' for i in ('LeftInRange', 'NeverMoreThanBudget', 'RenewedAfterFound', 'EmptyAfterSilence', 'HistoryKept', 'CannotExceed')),
                name=f'life of an oracle with a budget, {kind}')
    items = O.random_items(ctx, rng, 200 if ctx.quick else 3000) + exhaustive(ctx, rng)
    res = pmap(O.run, items)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip' or r[0] == 'ok' and r[1] is None:
            continue
        cases.append(O.to_case(it, r, sound=False, cover=True)); metas.append(it)
        if it['oracle'] in ('wmethod', 'wp', 'bfs', 'perfect'):
            for c in cases[-1]['calls']:
                c['tests'] = []
    ctx.judge('TraceOracle', cases, metas, name='coverage of oracles', sig=lambda m: m['oracle'], chunk=6000)
    ctx.assumptions = ['hypotheses carry access sequences, as the learners provide them']
