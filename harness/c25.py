from sampling import *
from fractions import Fraction

MC = 'CONSTANTS N={n} K={k} Mealy={m}\nSPECIFICATION Spec\nINVARIANT ConstructionComplete\nINVARIANT CompleteDetermines\n'


def geom_bounds(n, p):
    """total number of letters drawn in n words with termination probability p, eight standard deviations"""
    mean, var = n * (1 - p) / p, n * (1 - p) / p / p
    d = 8 * var ** .5 + 60 * (1 - p) / p
    return [max(0, int(mean - d)), int(mean + d) + 1]


def calls(rng, kind, g, big):
    letters = sorted({t['a'] for t in g['tr']})
    cs = []

    def word(hi=6):
        return [rng.choice(letters) for _ in range(rng.randrange(hi))]
    for _ in range(rng.choice((2, 3, 4))):
        op = rng.choice(('io', 'label', 'limits', 'limits', 'term', 'data'))
        q = {'op': op, 'how': rng.choice(('list', 'tuple')), 'via': rng.choice(('fmt', 'default', 'direct')), 'outs': rng.random() < .6,
             'src': 'model', 'spread': False}
        if kind == 'mc' and op not in ('io', 'label'):
            continue
        if op in ('io', 'label'):
            q['ws'] = [word() for _ in range(rng.choice((0, 1, 2, 6)))]
            if op == 'label' and kind in ('mealy', 'onfsm', 'smm') and rng.random() < .85:
                q['ws'] = [w for w in q['ws'] if w]
        elif op in ('limits', 'data'):
            lo = rng.choice((0, 0, 1, 2, 3))
            q.update(lo=lo, hi=lo + rng.choice((0, 0, 1, 2, 4)), count=rng.choice((0, 1, 2, 7)))
            if op == 'data':
                q['fmt'] = rng.choice(('io', 'label'))
                if q['fmt'] == 'label' and kind not in MOORE:
                    q['lo'] = max(1, q['lo']); q['hi'] = max(q['lo'], q['hi'])
            if big and rng.random() < .5:
                q['count'], q['hi'] = 400, q['lo'] + rng.choice((0, 1, 2))
                if q['hi'] > 0:
                    q['spread'] = len(letters) <= 3
        else:
            p = rng.choice((1.0, .5, .9, .25))
            q.update(lo=0, hi=-1, p=p, count=rng.choice((0, 1, 3)))
            if big and rng.random() < .5:
                q['count'] = 400
            q['total'] = geom_bounds(q['count'], p)
        if op in ('limits', 'term') and rng.random() < .4:
            q['src'], q['outs'] = 'alphabet', False
            q['letters'] = letters if rng.random() < .5 else sorted(rng.sample(range(1, g['k'] + 1), rng.randrange(1, g['k'] + 1)))
        cs.append(q)
    return cs


def main(ctx):
    rng = ctx.rng('c25')
    for n, k, m in ((2, 2, 'FALSE'), (3, 1, 'FALSE'), (2, 1, 'TRUE')) if ctx.quick else ((2, 2, 'FALSE'), (3, 1, 'FALSE'), (3, 1, 'TRUE'), (2, 2, 'TRUE')):
        ctx.tlc('MCSampling', MC.format(n=n, k=k, m=m), name=f'MCSampling N={n} K={k} Mealy={m}')
    items = []
    kinds = ('dfa', 'moore', 'mealy', 'onfsm', 'ndmoore', 'mdp', 'smm', 'mc')
    N = 700 if ctx.quick else 8000
    for i in range(N):
        kind = kinds[i % len(kinds)]
        n, k = rng.choice((1, 2, 3, 5)), rng.choice((1, 2, 3))
        inp, out = rng.choice(CODES)
        g = random_graph(rng, kind, n, k, 2 if kind == 'dfa' else rng.choice((1, 2, 3)))
        if kind == 'mc':
            g['k'] = 1
        order = list(range(g['n']))
        rng.shuffle(order)
        cs = calls(rng, kind, g, i % 6 == 0)
        if cs:
            items.append({'what': 'sample', 'kind': kind, 'g': g, 'inp': inp, 'out': out, 'order': order, 'calls': cs, 'seed': rng.randrange(1 << 30)})
    # complete samples: all small minimal machines, random larger ones
    ms = []
    for mealy in (False, True):
        for mm in ctx.gen_machines(2, 2, 2, mealy) + ctx.gen_machines(3, 1, 2, mealy) + ([] if ctx.quick or mealy else ctx.gen_machines(3, 2, 2, False)):
            ms += [(kd, mm) for kd in (('mealy',) if mealy else ('dfa', 'moore')) if min_classes(mm) == mm['n']]
    if ctx.quick:
        ms = [x for x in ms if x[1]['n'] == 1] + rng.sample([x for x in ms if x[1]["n"] > 1], min(250, sum(x[1]["n"] > 1 for x in ms)))
    for _ in range(150 if ctx.quick else 2500):
        kd = rng.choice(('dfa', 'moore', 'mealy'))
        mm = random_machine(rng, rng.choice((3, 4, 5, 7)), rng.choice((1, 2, 3)), 2 if kd == 'dfa' else rng.choice((2, 3)), kd == 'mealy')
        if min_classes(mm) == mm['n']:
            ms.append((kd, mm))
    for kd, mm in ms:
        inp, out = rng.choice(CODES)
        order = list(range(mm['n']))
        rng.shuffle(order)
        items.append({'what': 'complete', 'kind': kd, 'm': mm, 'g': from_fsm(mm), 'inp': inp, 'out': out, 'order': order, 'seed': rng.randrange(1 << 30),
                      'calls': [{'op': 'complete', 'outs': o, 'how': rng.choice(('list', 'tuple'))} for o in (False, True)]})
    for _ in range(250 if ctx.quick else 4000):
        inp, out = rng.choice(CODES)
        k = rng.choice((1, 2, 3))
        cls = rng.choice(('mealy', 'mealy', 'moore', 'dfa', 'moore', 'vpa') if rng.random() < .2 else ('mealy', 'moore', 'dfa'))
        ts = [{'eps': str(rng.randrange(2)), 'io': [[rng.randrange(1, k + 1), str(rng.randrange(2))] for _ in range(rng.randrange(5))]} for _ in range(rng.randrange(6))]
        items.append({'what': 'convert', 'kind': cls, 'cls': cls, 'ts': ts, 'k': k, 'inp': inp, 'out': out, 'how': rng.random() < .5, 'seed': rng.randrange(1 << 30)})
    for _ in range(200 if ctx.quick else 3000):
        tok = rng.choice(('char', 'delim', 'io', 'io'))
        wd, iod = rng.choice(((',', '/'), (',', '/'), (';', ':'), (' ', '/'), ('::', '->')))
        toks = ['a', 'b', '1', '0', '12', 'ok', 'x_y', '7a', '-3', 'coin', 'é', '²', '007', 'a1²', '٣']
        malformed = False
        if tok == 'char':
            seqs = [[rng.choice('ab01,/ ;-é') for _ in range(rng.randrange(6))] for _ in range(rng.randrange(5))]
            if seqs and not seqs[-1]:
                seqs[-1] = ['a']
        elif tok == 'delim':
            seqs = [[rng.choice(toks) for _ in range(rng.choice((1, 1, 2, 4)))] for _ in range(rng.randrange(5))]
        else:
            seqs = [[rng.choice(toks)] + [[rng.choice(toks), rng.choice(toks)] for _ in range(rng.randrange(5))] for _ in range(rng.randrange(5))]
            if rng.random() < .15 and any(len(s) > 1 for s in seqs):
                s = rng.choice([s for s in seqs if len(s) > 1])
                j = rng.randrange(1, len(s))
                s[j] = [rng.choice(toks)] * rng.choice((1, 3))
                malformed = True
        items.append({'what': 'token', 'kind': tok, 'tok': tok, 'wd': wd, 'iod': iod, 'seqs': seqs, 'malformed': malformed, 'nl': rng.random() < .5,
                      'seed': rng.randrange(1 << 30)})
    for _ in range(200 if ctx.quick else 2500):
        sev = rng.random() < .5
        v = random_vpa(rng, rng.choice(('word', 'paren')), sev)
        if not v['e']:
            continue
        L, hi, cnt = len({x[1] for x in v['e']}), rng.choice((1, 2, 4, 7)), rng.choice((0, 1, 2, 5, 13, 40))
        att = rng.choice((None, None, None, 1, 3))
        items.append({'what': 'vpa', 'kind': 'sevpa' if sev else 'vpa', 'v': v, 'hi': hi, 'count': cnt, 'att': att,
                      'enough': att is None and (2 * cnt <= L ** hi) and cnt != 1 and L > 1, 'seed': rng.randrange(1 << 30)})
    for _ in range(30 if ctx.quick else 300):
        items.append({'what': 'mc', 'kind': 'mc', 'out': rng.choice(('str', 'int')), 'seqs': [[str(rng.randrange(3)) for _ in range(rng.randrange(1, 6))] for _ in range(rng.randrange(5))],
                      'seed': rng.randrange(1 << 30)})
    judge_calls(ctx, 'TraceSampling', 'JudgeS', items, run_sampling, 'samples and data', chunk=4000)
    ctx.notes['cases'] = len(items)
