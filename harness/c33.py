"""C33: adaptive learning keeps, for every state it knows, exactly the evidence its observations give for every reference state."""
from matching import *
import c01


def items_of(rng, q):
    cfgs = A.all_configs()
    its = []
    for j in range(1200 if q else 20000):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        n = rng.choice((1, 2, 3, 4, 5, 7))
        m = random_machine(rng, n, rng.choice((1, 2, 2, 3)), 2 if kind == 'dfa' else rng.choice((2, 3)), kind == 'mealy')
        hows = [rng.choice(A.HOW) for _ in range(rng.choice((1, 1, 2, 3)))]
        cfg = rng.choice(cfgs if rng.random() < .15 else [c for c in cfgs if c['state_matching']])
        if rng.random() < .3:
            hows = ['same']
            if rng.random() < .6:
                kind = 'mealy'
                m = random_machine(rng, rng.choice((3, 4, 5, 6)), rng.choice((1, 1, 2)), 2, True)
                if rng.random() < .4:
                    m = c01.sparse(rng, m)
        its.append({'what': cfg['state_matching'] or 'rebuilding', 'm': m, 'kind': kind, 'cfg': cfg, 'refs': [A.reference(rng, m, kind, h) for h in hows],
                    'policy': rng.choice(('shortest', 'random', 'mixed')), 'inp': rng.choice(('str', 'int', 'tuple')), 'out': rng.choice(('str', 'int')),
                    'seed': rng.randrange(1 << 30), 'obs': False, 'same': hows == ['same']})
    return its


def main(ctx):
    rng = ctx.rng('c33')
    q = ctx.quick
    for mealy in ('TRUE', 'FALSE'):
        ctx.tlc('MCMatching', f'CONSTANTS L=2 Q={2 if q else 3} MealyKind={mealy}\nSPECIFICATION Spec\nINVARIANT CountedOnce\nINVARIANT TotalIsAgreement\nPROPERTY EvidenceGrows\n',
                name='counting once per observation, ' + ('Mealy' if mealy == 'TRUE' else 'Moore'))
    for n, k in ((3, 1), (3, 2), (4, 1)) + (() if q else ((5, 1),)):
        ctx.tlc('MCRebuild', f'CONSTANTS N={n} K={k}\nSPECIFICATION Spec\n' + ''.join(f'INVARIANT {i}\n' for i in ('AllFound', 'Sound', 'TreeClosed', 'Progress')),
                name=f'rebuilding of {n} states over {k} letters')
    its = items_of(rng, q)
    judge_calls(ctx, 'TraceMatching', 'MatchVerdict', its, watch, 'adaptive runs watched', chunk=100, timeout=60)
