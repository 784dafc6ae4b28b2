from common import *
import oraclerun as O
import searches


def main(ctx):
    rng = ctx.rng('c06')
    items = O.random_items(ctx, rng, 250 if ctx.quick else 4000)
    res = pmap(O.run, items)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip' or r[0] == 'ok' and r[1] is None:
            continue
        cases.append(O.to_case(it, r, sound=True, cover=False)); metas.append(it)
    ctx.judge('TraceOracle', cases, metas, name='searches for counterexamples', sig=lambda m: m['oracle'], chunk=4000)
    searches.judge(ctx, searches.items(rng, 1500 if ctx.quick else 20000), 'searches against hypotheses with several answers')
