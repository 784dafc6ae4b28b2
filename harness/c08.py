from graphs import *


def random_ops(rng, n, k, length, kind):
    ops = []
    for _ in range(length):
        kinds = ['reset', 'step', 'step', 'step', 'step', 'exec'] + (['look', 'peek', 'look'] if kind in DETERMINISTIC else [])
        op = rng.choice(kinds)
        a = rng.randrange(1, k + 1) if rng.random() < .9 else rng.choice((0, k + 1))
        if op == 'step':
            ops.append({'op': op, 's': 0, 'w': [a]})
        elif op == 'peek':
            ops.append({'op': op, 's': rng.randrange(1, n + 1), 'w': [a]})
        elif op == 'reset':
            ops.append({'op': op, 's': 0, 'w': []})
        else:
            w = [rng.randrange(1, k + 1) for _ in range(rng.choice((0, 1, 2, 3, 5, 8)))]
            if w and rng.random() < .08:
                w[rng.randrange(len(w))] = k + 1
            ops.append({'op': op, 's': rng.randrange(1, n + 1), 'w': w, 'tup': rng.random() < .5})
    return ops


def main(ctx):
    rng = ctx.rng('c08')
    for n, k, l, e in ((2, 1, 3, 4), (2, 2, 3, 3)) if ctx.quick else ((2, 1, 5, 8), (2, 2, 4, 4), (3, 1, 4, 4)):
        ctx.tlc('MCRunLaws', f'CONSTANTS N={n} K={k} L={l} MaxEdges={e}\nSPECIFICATION Spec\n'
                'INVARIANT StepsAreExecutions\nINVARIANT ExecutionIsPossible\n', name=f'laws of running N={n} K={k}')
    hist = ctx.tlc_json('MCRun', 'CONSTANTS N=2 K=2 L=2\nSPECIFICATION Spec\nINVARIANT Emit\n', name='all pairs of operations')
    items = []
    codes = [('str', 'str'), ('int', 'int'), ('tuple', 'str'), ('mixed', 'int')]
    # every pair of operations, on exhaustively enumerated two-state machines (complete and with holes)
    for mealy in (False, True):
        ms = [m for m in ctx.gen_machines(2, 2, 2, mealy) if m['n'] == 2]
        for kind in (('mealy',) if mealy else ('dfa', 'moore')):
            for m in rng.sample(ms, min(len(ms), 60 if ctx.quick else 400)):
                m = json.loads(json.dumps(m))
                if rng.random() < .4:
                    m['d'][rng.randrange(2)][rng.randrange(2)] = 0
                m['init'] = rng.choice((1, 2))
                ops = []
                for h in rng.sample(hist, 25 if ctx.quick else 200):
                    ops += [{'op': 'reset', 's': 0, 'w': []}] if rng.random() < .3 else []
                    ops += h
                i, o = rng.choice(codes)
                items.append({'kind': kind, 'g': from_fsm(m), 'inp': i, 'out': o, 'ops': ops, 'seed': rng.randrange(1 << 30)})
    for rep in range(60 if ctx.quick else 600):
        for kind in ('dfa', 'moore', 'mealy', 'onfsm', 'ndmoore'):
            n, k = rng.choice((1, 2, 3, 5, 8)), rng.choice((1, 2, 3, 5))
            g = random_graph(rng, kind, n, k, 2 if kind == 'dfa' else rng.choice((1, 2, 3)), partial=rng.choice((0, 0, .3)),
                             observable=rng.random() < .6, reach=rng.random() < .7)
            g['init'] = rng.randrange(1, n + 1)
            i, o = rng.choice(codes)
            ops = random_ops(rng, n, k, 30, kind)
            if kind not in DETERMINISTIC:
                for t in rng.sample(g['tr'], min(3, len(g['tr']))):
                    ops.append({'op': 'sample', 's': t['s'], 'w': [t['a']], 'n': 250})
                ops.append({'op': 'reset', 's': 0, 'w': []})
                if kind == 'onfsm':
                    for _ in range(8):
                        ops.append({'op': 'step', 's': 0, 'w': [rng.randrange(1, k + 1)]})
                        ops.append({'op': 'offers', 's': 0, 'w': [rng.randrange(1, k + 1)]})
            order = rng.sample(range(n), n)
            items.append({'kind': kind, 'g': g, 'inp': i, 'out': o, 'ops': ops, 'order': order, 'seed': rng.randrange(1 << 30)})
    judge_ops(ctx, items, 'operations on deterministic and non-deterministic models')
    ctx.notes['operations'] = sum(len(i['ops']) for i in items)
    ctx.assumptions = ['each of up to 3 uniformly chosen alternatives appears in 250 independent steps']
