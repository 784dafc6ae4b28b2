"""C34: learners present only models their observations force."""
from sharp import *
import c01


def items_of(rng, q):
    sharp = [c for c in L.all_configs() if c['alg'] == 'lsharp']
    tables = [c for c in L.all_configs() if c['alg'] != 'lsharp']
    tables += [c for c in tables if c['alg'] == 'kv'] * 10
    adaptive = A.all_configs()
    its = []
    for j in range(1200 if q else 15000):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        n = rng.choice((1, 2, 3, 4, 5, 6, 8) if rng.random() < .9 else (10, 12))
        m = random_machine(rng, n, rng.choice((1, 2, 2, 3)), 2 if kind == 'dfa' else rng.choice((2, 2, 3)), kind == 'mealy')
        if rng.random() < .4:
            m = c01.sparse(rng, m)
        it = {'m': m, 'kind': kind, 'cfg': rng.choice(sharp), 'policy': rng.choice(('shortest', 'random', 'mixed')), 'inp': rng.choice(('str', 'int', 'tuple')),
              'out': rng.choice(('str', 'int')), 'seed': rng.randrange(1 << 30), 'obs': False, 'what': 'lsharp'}
        if rng.random() < .4:
            it.update(what='adaptive', cfg=rng.choice(adaptive), refs=[A.reference(rng, m, kind, rng.choice(A.HOW)) for _ in range(rng.choice((1, 1, 2)))])
        elif rng.random() < .5:
            c = rng.choice(tables)
            it.update(what=c['alg'], cfg=c, obs=True)
        its.append(it)
    return its


def main(ctx):
    rng = ctx.rng('c34')
    q = ctx.quick
    for n, k, mealy in ((2, 1, 'TRUE'), (3, 1, 'TRUE'), (3, 1, 'FALSE'), (2, 2, 'FALSE'), (2, 2, 'TRUE')) + (() if q else ((4, 1, 'FALSE'), (4, 1, 'TRUE'))):
        ctx.tlc('MCSharp', f'CONSTANTS N={n} K={k} MealyKind={mealy}\nSPECIFICATION Spec\n' + ''.join(f'INVARIANT {i}\n' for i in ('ToldApart', 'NoMoreStates', 'NoLoss', 'FewQuestions', 'Stuck'))
                + 'PROPERTY Grows\nPROPERTY Ends\n', name=f'rules of L#, {n} states, {k} letters, ' + ('Mealy' if mealy == 'TRUE' else 'Moore'))
    judge_calls(ctx, 'TraceSharp', 'SharpVerdict', items_of(rng, q), either, 'learners watched', chunk=100, timeout=60)
    ctx.assumptions = ['the tree is read from root/successors/basis of the observation tree']
