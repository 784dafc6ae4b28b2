from pushlearn import *


def main(ctx):
    rng = ctx.rng('c17')
    q = ctx.quick
    judge_learn(ctx, scenarios(rng, 1200 if q else 4000, 12 if q else 24), 'KV on visibly pushdown systems')
