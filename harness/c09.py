from algos import *


def main(ctx):
    rng = ctx.rng('c09')
    check_notions(ctx, ctx.quick)
    items = []

    def add(kind, m1, m2, compare, num=None):
        i, o = rng.choice(CODES)
        reach = all(len(min_reach(m)) == m['n'] for m in (m1, m2))
        same_al = used(m1) == used(m2) == set(range(1, m1['k'] + 1))
        total = all(t for m in (m1, m2) for r in m['d'] for t in r)
        items.append({'what': 'pair', 'kind': kind, 'm1': m1, 'm2': m2, 'inp': i, 'out': o, 'dirty': rng.random() < .5, 'self': rng.random() < .2,
                      'compare': compare and same_al and total, 'num': num or rng.choice((1, 2, 5, 10)), 'seed': rng.randrange(1 << 30)})
    for mealy in (False, True):
        ms = ctx.gen_machines(2, 2, 2, mealy) + rng.sample(ctx.gen_machines(3, 1, 2, mealy), 12)
        for kind in (('mealy',) if mealy else ('dfa', 'moore')):
            for _ in range(500 if ctx.quick else 8000):
                m1 = rng.choice(ms)
                m2 = rng.choice([m for m in ms if m['k'] == m1['k']])
                add(kind, m1, m2, rng.random() < .25)
    for _ in range(700 if ctx.quick else 8000):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        n, k = rng.choice((1, 2, 3, 4, 6, 9)), rng.choice((1, 2, 3))
        m1 = random_machine(rng, n, k, 2 if kind == 'dfa' else rng.choice((1, 2, 3)), kind == 'mealy')
        r = rng.random()
        m2 = rename(rng, redundant(rng, m1)) if r < .35 else rename(rng, tweak(rng, redundant(rng, m1))) if r < .7 else \
            random_machine(rng, rng.choice((1, 2, 3, 5)), k, 2, kind == 'mealy') if r < .8 else tweak(rng, m1)
        if rng.random() < .25:
            m1, m2 = (holes(rng, m1, 2), m2) if rng.random() < .5 else (holes(rng, m1, 1), holes(rng, m2, 1))
            if rng.random() < .5:
                m2 = rename(rng, m1)
        if rng.random() < .5:
            m1, m2 = m2, m1
        add(kind, m1, m2, rng.random() < .5)
    judge(ctx, items, 'pairs of automata compared')
    ctx.notes['pairs'] = len(items); ctx.notes['compared_for_several_differences'] = sum(i['compare'] for i in items)
    ctx.assumptions = ['compare_automata samples: that it finds a difference is only required where every two-letter word shows one']


def used(m):
    return {a + 1 for r in m['d'] for a, t in enumerate(r) if t}


def min_reach(m):
    seen, st = {m['init']}, [m['init']]
    while st:
        s = st.pop()
        for t in m['d'][s - 1]:
            if t and t not in seen:
                seen.add(t); st.append(t)
    return seen
