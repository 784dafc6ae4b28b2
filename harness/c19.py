from nondet import *


def items(rng, count, thorough):
    res = []
    for i in range(count):
        g = random_graph(rng, 'onfsm', rng.choice((1, 2, 3, 4) if not thorough else (2, 3, 4, 5, 6)), rng.choice((1, 2, 2, 3)), rng.choice((2, 3)))
        oracle = rng.choice(('exact', 'exact', 'exact', 'walk', 'word'))
        weather = rng.choice(('fair', 'fair', 'random')) if oracle == 'exact' else rng.choice(('fair', 'random'))
        res.append({'g': g, 'inp': rng.choice(('str', 'int', 'tuple')), 'out': rng.choice(('str', 'int')), 'weather': weather, 'oracle': oracle,
                    'n': rng.choice((12, 30)) if weather == 'fair' else rng.choice((15, 40)),
                    'tests': rng.choice((20, 60)), 'samples': rng.choice((0, 0, 3, 10)), 'stochastic': rng.random() < .3, 'limit': rng.choice((0, 0, 0, 1, 2)),
                    'seed': rng.randrange(1 << 30), 'kind': 'onfsm', 'what': 'exact'})
    return res


def sparse_items(rng, count, thorough):
    """little sampling and oracles that give up early: much is seen only once, often while a counterexample is processed"""
    res = []
    for i in range(count):
        g = random_graph(rng, 'onfsm', rng.choice((3, 4, 5, 6) if not thorough else (4, 6, 8, 10)), rng.choice((1, 2, 2)), rng.choice((2, 3)))
        res.append({'g': g, 'inp': rng.choice(('str', 'int', 'tuple')), 'out': rng.choice(('str', 'int')), 'weather': rng.choice(('random', 'biased')),
                    'oracle': rng.choice(('walk', 'word')), 'n': rng.choice((1, 2, 3, 5)), 'tests': rng.choice((2, 5, 10, 30)),
                    'samples': rng.choice((0, 0, 0, 4)), 'stochastic': rng.random() < .2, 'limit': rng.choice((0, 0, 0, 2)),
                    'seed': rng.randrange(1 << 30), 'kind': 'onfsm', 'what': 'sparse'})
    return res


def abstract_items(rng, count, thorough):
    res = []
    while len(res) < count:
        g = random_graph(rng, 'onfsm', rng.choice((1, 2, 3, 4)), rng.choice((1, 2)), 3)
        b = branching(g, 7)
        if b > (30 if not thorough else 100):
            continue
        outs = sorted({e['o'] for e in g['tr']})
        absn = rng.choice(({}, {o: o for o in outs}, {o: 'x' for o in outs}, *({o: rng.choice('xy') for o in outs if rng.random() < .8} for _ in range(3))))
        oracle = rng.choice(('exact', 'exact', 'exact', 'word'))
        res.append({'g': g, 'inp': rng.choice(('str', 'int', 'tuple')), 'out': rng.choice(('str', 'int')), 'weather': 'fair', 'oracle': oracle,
                    'n': int(b * 1.3) + 5, 'tests': 10, 'samples': 0, 'stochastic': False, 'limit': rng.choice((0, 0, 0, 1)) if oracle == 'exact' else 1, 'seed': rng.randrange(1 << 30),
                    'kind': 'onfsm', 'what': 'abstract', 'absn': absn})
    return res


def sparse_abstract_items(rng, count):
    """as above with output abstraction: rows of the table become equal only after they were added"""
    res = []
    for it in abstract_items(rng, count, True):
        it.update(weather=rng.choice(('random', 'biased')), oracle=rng.choice(('walk', 'word')), n=rng.choice((1, 2, 5, 10, 30)), tests=rng.choice((2, 10, 30)),
                  limit=rng.choice((0, 0, 0, 1, 2)), what='sparse', budget=30000)
        res.append(it)
    return res


def main(ctx):
    rng = ctx.rng('c19')
    its = items(rng, 1500 if ctx.quick else 2500, not ctx.quick)
    judge_calls(ctx, 'TraceOnfsm', 'OnfsmVerdict', its, run_nondet, 'non-deterministic L*', sig=lambda m: m['weather'] + '|' + m['oracle'], chunk=400)
    its = sparse_items(rng, 700 if ctx.quick else 4000, not ctx.quick)
    judge_calls(ctx, 'TraceOnfsm', 'OnfsmVerdict', its, run_nondet, 'non-deterministic L* with little sampling', sig=lambda m: 'sparse|' + m['weather'] + '|' + m['oracle'], chunk=400)
    its = abstract_items(rng, 800 if ctx.quick else 4000, not ctx.quick)
    judge_calls(ctx, 'TraceOnfsm', 'AbstractVerdict', its, run_nondet, 'learning with output abstraction', sig=lambda m: 'abstract|' + m['oracle'], chunk=400)
    its = sparse_abstract_items(rng, 500 if ctx.quick else 3000)
    judge_calls(ctx, 'TraceOnfsm', 'AbstractVerdict', its, run_nondet, 'learning with output abstraction and little sampling', sig=lambda m: 'abstract|sparse', chunk=400)
