"""C35: learners need no more questions than their algorithms promise."""
from effort import *
import c01


def items_of(rng, q):
    cfgs = {a: [c for c in L.all_configs() if c['alg'] == a] for a in ('lstar', 'kv', 'lsharp')}
    its = []
    for j in range(2500 if q else 25000):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        n = rng.choice((1, 2, 2, 3, 3, 4, 5, 6, 8)) if rng.random() < .95 else 15
        m = random_machine(rng, n, rng.choice((1, 2, 2, 3)), 2 if kind == 'dfa' else rng.choice((2, 3)), kind == 'mealy')
        if rng.random() < .4:
            m = c01.sparse(rng, m)
        cfg = rng.choice(cfgs[rng.choice(('lstar', 'lstar', 'kv', 'lsharp'))])
        length = rng.choice((0, 5, 20, 80, 200))
        if n > 5 and cfg['alg'] == 'lstar' and (cfg['e_set_suffix_closed'] or cfg['cex_processing'] in (None, 'longest_prefix')):
            length = min(length, 30)        # these grow with the length of the counterexamples
        its.append({'m': m, 'n': size_of(m), 'kind': kind, 'cfg': cfg, 'policy': 'shortest', 'length': length, 'inp': rng.choice(('str', 'int', 'tuple')),
                    'out': rng.choice(('str', 'int')), 'seed': rng.randrange(1 << 30), 'obs': False, 'what': cfg['alg']})
    return its


def size_of(m):
    """number of states of the smallest system with the same behaviour (reachable part)"""
    reach, todo = [m['init']], [m['init']]
    for s in todo:
        for a in range(1, m['k'] + 1):
            t, _ = m_step(m, s, a)
            if t not in reach:
                reach.append(t); todo.append(t)
    cls = {s: (tuple(m['o'][s - 1]) if m['mealy'] else m['o'][s - 1]) for s in reach}
    while True:
        new = {s: (cls[s], tuple(cls[m_step(m, s, a)[0]] for a in range(1, m['k'] + 1))) for s in reach}
        ids = {}
        new = {s: ids.setdefault(v, len(ids)) for s, v in new.items()}
        if len(set(new.values())) == len(set(cls.values())):
            return len(ids)
        cls = new


def main(ctx):
    rng = ctx.rng('c35')
    q = ctx.quick
    ctx.tlc('MCEffort', f'CONSTANT L={9 if q else 14}\nSPECIFICATION Spec\nINVARIANT Changes\nINVARIANT Kept\nINVARIANT Quick\nPROPERTY Ends\n', name='searching a counterexample')
    for n, k, mealy in ((3, 1, 'TRUE'), (3, 1, 'FALSE'), (2, 2, 'TRUE'), (2, 2, 'FALSE')) + (() if q else ((4, 1, 'TRUE'), (4, 1, 'FALSE'))):
        ctx.tlc('MCSharp', f'CONSTANTS N={n} K={k} MealyKind={mealy}\nSPECIFICATION Spec\nINVARIANT FewEnough\n', name=f'questions of the rules of L#, {n} states, {k} letters, ' + ('Mealy' if mealy == 'TRUE' else 'Moore'))
    judge_calls(ctx, 'TraceEffort', 'EffortVerdict', items_of(rng, q), count, 'runs counted', chunk=400, timeout=60)
    ctx.assumptions = ['counterexamples end at their first difference, as the shipped oracles return them; KV is counted in different questions (its cache may be off)']
