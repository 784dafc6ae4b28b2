from passive import *


def char_sample(rng, m, kind):
    """words of a characteristic sample built from the machine: kernel words with separating suffixes (and all their prefixes for Mealy)"""
    acc = {m['init']: ()}
    q = [m['init']]
    for s in q:
        for a in range(1, m['k'] + 1):
            t = m['d'][s - 1][a - 1]
            if t not in acc:
                acc[t] = acc[s] + (a,); q.append(t)
    S = list(acc.values())
    K = [()] + [u + (a,) for u in S for a in range(1, m['k'] + 1)]
    ws = set(K) | set(S)
    for u in S:
        for v in K:
            s, t = m_run(m, u)[0], m_run(m, v)[0]
            if s != t:
                e = shortest_diff({**m, 'init': s}, {**m, 'init': t})
                if e is not None:
                    ws |= {u + tuple(e), v + tuple(e)}
    return ws, [list(acc[s]) for s in range(1, m['n'] + 1)]


def run_ident(it):
    from aalpy.utils.Sampling import get_complete_sample, get_labeled_sequences, get_io_traces
    from aalpy.utils import convert_i_o_traces_for_RPNI
    import random as R
    R.seed(it['seed'])
    it = dict(it)
    kind = it['kind']
    if it['source'] == 'library':
        c = Coding(kind, it['k'], it['inp'], it['out'])
        m = build(kind, it['t'], c, order=it['order'])
        ws = get_complete_sample(m)
        it['acc'] = [None] * m.size
        for s, x in zip(it['order'] or range(m.size), m.states):
            it['acc'][s] = c.unword(x.prefix)
        if it['must']:                           # outputs along the words of the sample
            traces = get_complete_sample(m, include_outputs=True) if it['seed'] % 2 else get_io_traces(m, ws)
            data = convert_i_o_traces_for_RPNI(traces, 'mealy' if kind == 'mealy' else 'moore')
        else:
            data = get_labeled_sequences(m, ws)
        e = {'bool:True': '1', 'bool:False': '0'}
        back = {enc_out(c.g(str(x))): str(x) for x in range(8)} if kind != 'dfa' else e
        it['data'] = [(tuple(c.unword(w)), back[enc_out(o)]) for w, o in data] + [tuple(x) for x in it['more']]
        R.Random(it['seed']).shuffle(it['data'])
    return run_det(it)


def main(ctx):
    rng = ctx.rng('c15')
    q = ctx.quick
    items = []
    targets = []
    for kind in ('dfa', 'moore', 'mealy'):
        ms = [(kind, m) for n, k in (((3, 2),) if q else ((3, 2), (4, 1), (2, 3))) for m in ctx.gen_machines(n, k, 2, kind == 'mealy')
              if min_classes(m) == m['n']]
        targets += rng.sample(ms, min(len(ms), 60 if q else 1500))
        for _ in range(15 if q else 300):
            o = 2 if kind == 'dfa' else rng.choice((2, 3))
            m = random_machine(rng, rng.choice((4, 5, 6)), rng.choice((1, 2, 3)), o, kind == 'mealy')
            if min_classes(m) == m['n']:
                targets.append((kind, m))
    for kind, m in targets:
        for source in ('library', 'kernel'):
            for alg in ('gsm', 'classic') if m['n'] <= 4 else ('gsm',):
                extra = set(gen_words(rng, m['k'], rng.choice((0, 0, 5, 15)), 6))
                if kind == 'mealy':
                    extra = {w for w in closure(extra) if w}
                more = [(w, label_with(m, kind, w)) for w in sorted(extra)]
                data, acc = [], []
                if source == 'kernel':
                    ws, acc = char_sample(rng, m, kind)
                    if kind == 'mealy':
                        ws = {w for w in closure(ws) if w}
                    data = [(w, label_with(m, kind, w)) for w in sorted(ws)] + more
                    rng.shuffle(data)
                items.append({'what': 'ident', 'source': source, 'must': source == 'kernel' or kind == 'mealy' or rng.random() < .7, 'kind': kind, 'k': m['k'], 't': m, 'data': data, 'more': more, 'acc': acc, 'alg': alg,
                              'fmt': 'labels', 'inp': rng.choice(('str', 'int', 'tuple', 'mixed')), 'out': rng.choice(('str', 'int')), 'seq': 'tuple',
                              'complete': '', 'auto': False, 'info': False, 'opts': {}, 'order': None if rng.random() < .5 else rng.sample(range(m['n']), m['n']),
                              'seed': rng.randrange(1 << 30)})
    judge_calls(ctx, 'TracePassive', 'PassiveVerdict', items, run_ident, 'identification from characteristic samples',
                sig=lambda m: m['kind'] + '|' + m['alg'] + '|' + m['source'])
