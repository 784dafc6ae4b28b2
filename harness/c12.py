from persist import *


def main(ctx):
    rng = ctx.rng('c12')
    items = []
    for it in model_items(rng, ('dfa', 'moore', 'mealy', 'onfsm', 'ndmoore', 'mdp', 'smm', 'mc', 'vpa', 'sevpa'), 40 if ctx.quick else 500, ('str', 'int', 'key'), ('str', 'int', 'key')):
        it.update(how=rng.choice(('method', 'func', 'path', 'string')), loops=rng.random() < .8, pref=rng.random() < .5)
        items.append(it)
    judge_persist(ctx, items, run_save, 'models saved and loaded')
    ctx.notes['models'] = len(items)
    ctx.assumptions = ['identifiers are words of letters, digits and underscores; letters and outputs are such words (not digits only) or non-negative '
                       'integers, outputs of MDPs and Markov chains are words',
                       'the implicit error sink of VPAs is not a state of the model']
