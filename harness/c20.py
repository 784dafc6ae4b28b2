from merging import *
from external import external_items, run_external


def items(rng, count):
    res = []
    for i in range(count):
        kind = rng.choice(('mdp', 'smm', 'mc'))
        g = random_graph(rng, kind, rng.choice((1, 2, 3, 4)), rng.choice((1, 2)), rng.choice((2, 3)), partial=rng.choice((0, 0, .2)))
        res.append({'kind': kind, 'g': g, 'inp': rng.choice(('str', 'int', 'tuple')), 'out': rng.choice(('str', 'int')), 'count': rng.choice((1, 5, 20, 40, 60)),
                    'len': rng.choice((2, 4, 6)), 'eps': rng.choice((.05, .05, .5, 1.5, 2, .005, 'auto')), 'checker': rng.choice((0, 0, 0, 1, 5)),
                    'seed': rng.randrange(1 << 30), 'what': 'alergia'})
    return res


def edsm(rng, count):
    res = []
    for it in items(rng, count):
        res.append({**it, 'what': 'edsm', 'eps': rng.choice((None, .05, .5, 1.5, .005))})
    return res


def main(ctx):
    rng = ctx.rng('c20')
    its = items(rng, 500 if ctx.quick else 6000)
    judge_calls(ctx, 'TraceMerge', 'MergeVerdict', its, run_alergia, 'ALERGIA', chunk=200)
    judge_calls(ctx, 'TraceMerge', 'MergeVerdict', edsm(rng, 300 if ctx.quick else 4000), run_named, 'ALERGIA with EDSM', chunk=200)
    judge_calls(ctx, 'TraceExternal', 'ExternalVerdict', external_items(ctx.rng('ext'), 300 if ctx.quick else 3000), run_external, 'learning with the external program',
                sig=lambda m: m['what'] + '|' + m['kind'])
