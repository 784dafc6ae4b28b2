from active import *

MC = ('CONSTANTS K={} L={} R={}\nSPECIFICATION Spec\nINVARIANT GivenKept\nINVARIANT OnlyObserved\nINVARIANT ResultAgrees\nPROPERTY DataGrows\nPROPERTY Ends\n')


def main(ctx):
    rng = ctx.rng('c27')
    for p in ((2, 2, 1), (1, 3, 3)) if ctx.quick else ((2, 2, 2), (1, 3, 3), (1, 4, 3)):
        ctx.tlc('MCActive', MC.format(*p), name='MCActive K=%d L=%d R=%d' % p)
    items = []
    for i in range(600 if ctx.quick else 8000):
        kind = rng.choice(('mdp', 'smm', 'mdp', 'smm', 'dfa', 'moore', 'mealy'))
        fmt = kind if kind in ('mdp', 'smm') else 'rpni'
        k = rng.choice((1, 2, 3))
        g = random_graph(rng, kind, rng.choice((1, 2, 3, 4)), k, 2 if kind == 'dfa' else rng.choice((2, 3)))
        words = [[rng.randrange(1, k + 1) for _ in range(rng.randrange(0, 6))] for _ in range(rng.choice((1, 2, 5, 12)))]
        if kind == 'mealy':
            words = [w for w in words if w]
        if not any(words):
            words.append([rng.randrange(1, k + 1)])
        lo = rng.choice((1, 1, 2, 3)) if kind in ('smm', 'mealy') or rng.random() < .8 else 0
        inp, out = rng.choice(CODES if fmt == 'rpni' else [x for x in CODES if x[0] != 'mixed'])     # Alergia orders inputs
        it = {'what': 'run', 'kind': kind, 'fmt': fmt, 'g': g, 'words': words, 'lo': lo, 'hi': lo + rng.choice((0, 1, 3)), 'walks': rng.choice((0, 1, 2, 6)),
              'iters': rng.choice((1, 1, 2, 3, 4)), 'eps': rng.choice((.05, .5, 1.5, .005)), 'own': rng.random() < .2, 'info': rng.random() < .5, 'pass': rng.random() < .5,
              'contradictory': fmt == 'rpni' and rng.random() < .08, 'inp': inp, 'out': out, 'seed': rng.randrange(1 << 30)}
        if i % 4 == 0:
            it['what'] = 'sampler'
            it['spread'] = rng.random() < .3
            it['contradictory'] = False
            if it['spread']:
                it['walks'], it['hi'], it['lo'] = 120, max(1, lo) + rng.choice((0, 1, 2)), max(1, lo)
        items.append(it)
    judge_calls(ctx, 'TraceActive', 'JudgeActive', items, run_active, 'active learning', chunk=1500, sig=lambda m: f"{m['what']}|{m['kind']}|own={m['own']}")
