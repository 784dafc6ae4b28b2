from pushdown import *
from convert import judge_calls

TUP = ([('i', 1), ('i', 2)], [('c', 1), ('c', 2)], [('r', 1), ('r', 2)])


def balanced_like(rng, nn, maxlen, v):
    """a word that tends to be well matched"""
    ni, nc, nr = nn
    w, st = [], []
    n = rng.randrange(0, maxlen + 1)
    while len(w) < n or st:
        r = rng.random()
        if st and (r < .4 or len(w) >= n):
            c = st.pop()
            w.append(ni + nc + 1 + (rng.randrange(nr) if rng.random() < .3 else min(c - ni - 1, nr - 1)))
        elif r < .7 or not ni:
            c = ni + 1 + rng.randrange(nc); st.append(c); w.append(c)
        else:
            w.append(1 + rng.randrange(ni))
    return w


def run_papni(it):
    import random as R
    R.seed(it['seed'])
    from aalpy.automata import VpaAlphabet
    from aalpy.learning_algs import run_PAPNI
    al, nn = it['al'], it['nn']
    ni, nc, nr = nn
    A = VpaAlphabet(al[:ni], al[ni:ni + nc], al[ni + nc:])
    seq = tuple if it['seq'] == 'tuple' else list
    data = [(seq(al[a - 1] for a in w), l) for w, l in it['data']]

    def learn(d):
        try:
            return run_PAPNI(d, A, algorithm=it['alg'], print_info=it['info'])
        except ValueError:
            return None

    def f():
        before = [repr(x) for x in data]
        m = learn(data)
        after = [repr(x) for x in data]
        from aalpy.utils.HelperFunctions import is_balanced
        dep = lambda w: all(sum((a > ni) - 2 * (a > ni + nc) for a in w[:i]) >= 0 for i in range(len(w) + 1)) and sum((a > ni) - 2 * (a > ni + nc) for a in w) == 0
        m2 = learn([d for d, (w, l) in zip(data, it['data']) if dep(w)])
        base = {'nn': nn, 'data': [{'w': list(w), 'l': l} for w, l in it['data']], 'before': before, 'after': after, 'refused': m is None, 'refused2': m2 is None,
                'runs': []}
        if m is not None:
            base['m'] = pproject(m, al, nn, False)
            for w in it['probe']:
                m.reset_to_initial()
                out = m.step(None) if not w else None
                for a in w:
                    out = m.step(al[a - 1])
                base['runs'].append({'w': list(w), 'acc': bool(out)})
        if m2 is not None:
            base['m2'] = pproject(m2, al, nn, False)
        return base
    try:
        return [{'err': '', **f()}]
    except Exception as x:
        tb = [t for t in traceback.extract_tb(x.__traceback__)]
        if tb and not any('/aalpy/' in t.filename for t in tb) and not any(t.name in ('pproject', 'tables') for t in tb):
            raise
        return [{'err': 'LearningFailed', 'detail': repr(x)[:300]}]


def main(ctx):
    rng = ctx.rng('c18')
    items = []
    for _ in range(1200 if ctx.quick else 12000):
        style = rng.choice(('word', 'paren', 'num', 'tup'))
        v = random_vpa(rng, 'paren' if style == 'tup' else style, False)
        nn, al = v['ncalls'], v['al']
        if style == 'tup':
            i, c, r = TUP
            al = i[:nn[0]] + c[:nn[1]] + r[:nn[2]]
        g = pspec(v); S = PSim(g)
        L = sum(nn)
        ws = []
        for _ in range(rng.choice((0, 1, 3, 6, 12, 20))):
            r = rng.random()
            ws.append(balanced_like(rng, nn, rng.choice((2, 4, 6)), v) if r < .75 else [rng.randrange(1, L + 1) for _ in range(rng.randrange(0, 6))])
        def lab(w):
            c = S.start()
            for a in w:
                c = S.move(c, a)
            return S.acc(c)
        how = rng.choice(('model', 'model', 'chance'))
        memo = {}
        data = []
        for w in ws:
            l = lab(w) if how == 'model' else memo.setdefault(tuple(w), rng.random() < .5)
            data.append((w, l))
        if data and rng.random() < .15:
            w, l = rng.choice(data)
            data.append((w, rng.choice((l, not l))))
        # words that are not well matched may carry any label, also contradictory ones
        if rng.random() < .4:
            w = [rng.choice(range(nn[0] + 1, L + 1)) for _ in range(3)]
            data += [(w, True), (w, False)]
        rng.shuffle(data)
        probe = [balanced_like(rng, nn, 6, v) for _ in range(4)] + [[rng.randrange(1, L + 1) for _ in range(rng.randrange(0, 6))] for _ in range(6)]
        items.append({'nn': nn, 'al': al, 'data': data, 'alg': rng.choice(('gsm', 'edsm', 'classic')), 'seq': rng.choice(('tuple', 'list')),
                      'info': rng.random() < .2, 'probe': probe, 'seed': rng.randrange(1 << 30), 'style': style})
    res = pmap(run_papni, items)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        metas.append(it if r[0] == 'ok' else {**it, 'outcome': r})
        cases.append({'calls': r[1]} if r[0] == 'ok' else {'calls': [{'err': {'hang': 'NoResult'}.get(r[0], 'Crash')}]})
    ctx.judge('TracePapni', cases, metas, 'SPECIFICATION TraceSpec\n', name='PAPNI', sig=lambda m: m['alg'] + '|' + m['style'], chunk=1500)
