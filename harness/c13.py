from persist import *


def main(ctx):
    rng = ctx.rng('c13')
    items = []
    for it in model_items(rng, ('dfa', 'moore', 'mealy', 'ndmoore', 'mdp', 'smm', 'vpa', 'sevpa'), 30 if ctx.quick else 400, ('str', 'int', 'tuple', 'mixed'), ('str', 'int')):
        it['hows'] = ['copy', 'setup', 'pickle', rng.choice(('twice', 'deepcopy'))]
        items.append(it)
    judge_persist(ctx, items, run_copy, 'models copied, converted and pickled')
    ctx.notes['models'] = len(items)
    ctx.assumptions = ['ONFSMs and Markov chains offer no state setup (NotImplementedError)', 'state identifiers are unique',
                       'the implicit error sink of VPAs is not a state of the model']
