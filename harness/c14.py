from passive import *

OPTS = [{}, {'consider_only_min_blue': True}, {'depth_first': True}, {'order': 1}, {'order': 1, 'consider_only_min_blue': True}, {'evidence': 1},
        {'evidence': 1, 'depth_first': True}]


def item(rng, kind, k, data, alg, fmt='labels', **kw):
    inp = rng.choice(('str', 'int', 'tuple', 'mixed'))
    out = rng.choice(('str', 'int'))
    auto = alg == 'rungsm' and rng.random() < .3 and bool(data) and (
        all(fmt == 'labels' for _ in data) or any(len(w) + (kind != 'mealy') > 2 for w, _ in data))
    # two-letter tuples look like traces, so the format is only guessed where it is unambiguous
    auto = auto and not (fmt == 'labels' and inp == 'tuple')
    return {'what': 'det', 'kind': kind, 'k': k, 'data': data, 'alg': alg, 'fmt': fmt, 'inp': inp, 'out': out,
            'seq': 'tuple' if fmt != 'labels' else rng.choice(('tuple', 'list')), 'complete': rng.choice(('', '', 'self', 'sink')), 'auto': auto,
            'info': rng.random() < .3, 'opts': rng.choice(OPTS) if alg == 'rungsm' else {}, 'seed': rng.randrange(1 << 30), **kw}


def main(ctx):
    rng = ctx.rng('c14')
    q = ctx.quick
    items = []
    # every way to label the words up to length 2 (DFA) / 1..2 (Mealy): a seeded choice of the 3^7 / 3^6 data sets, all of them in thorough
    words = [(), (1,), (2,), (1, 1), (1, 2), (2, 1), (2, 2)]
    sets = list(itertools.product((None, '0', '1'), repeat=7))
    for alg in ('gsm', 'classic', 'edsm', 'rungsm'):
        for ls in rng.sample(sets, 150) if q else sets:
            data = [(w, o) for w, o in zip(words, ls) if o is not None]
            rng.shuffle(data)
            items.append(item(rng, rng.choice(('dfa', 'moore')), 2, data, alg))
        for ls in rng.sample(list(itertools.product('01', repeat=6)), 40 if q else 64):
            items.append(item(rng, 'mealy', 2, list(zip(words[1:], ls)), alg))
    # longer words labelled by a machine, by chance, or by chance with repetitions and contradictions
    for _ in range(500 if q else 4000):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        k = rng.choice((1, 2, 2, 3))
        alg = rng.choice(('gsm', 'classic', 'edsm', 'rungsm'))
        o = 2 if kind == 'dfa' else rng.choice((2, 3))
        t = random_machine(rng, rng.choice((1, 2, 3, 4, 6)), k, o, kind == 'mealy')
        ws = gen_words(rng, k, rng.choice((1, 3, 6, 12)), rng.choice((2, 4, 6)))
        if alg == 'rungsm' and rng.random() < .4:
            data = [(w, ([] if kind == 'mealy' else [t['o'][0]]) + m_run(t, w)[1]) for w in ws]
            if kind != 'mealy' and rng.random() < .15:          # initial outputs that contradict each other
                data.append(([], ['1' if t['o'][0] == '0' else '0']))
            if rng.random() < .2 and any(x[1] for x in data):
                i = rng.choice([j for j, x in enumerate(data) if x[1]])
                outs = list(data[i][1]); outs[rng.randrange(len(outs))] = str(rng.randrange(o))
                data.append((data[i][0], outs))
            items.append(item(rng, kind, k, data, alg, fmt='io'))
            continue
        if rng.random() < .6 or (kind == 'mealy' and alg != 'rungsm'):
            ws = closure(ws)
        if kind == 'mealy':
            ws = [w for w in ws if w]
        data = [(w, label_with(t, kind, w)) for w in ws]
        if rng.random() < .3 and data:
            i = rng.randrange(len(data))
            data.append((data[i][0], rng.choice((data[i][1], str(rng.randrange(o))))))
        if kind != 'mealy' and rng.random() < .1:
            data += [((), '0'), ((), '1')]
        if rng.random() < .7:
            rng.shuffle(data)
        items.append(item(rng, kind, k, data, alg))
    judge_calls(ctx, 'TracePassive', 'PassiveVerdict', items, run_det, 'models learned from labelled data', sig=lambda m: m['kind'] + '|' + m['alg'])
