"""C32: the example systems the library ships are the systems they document."""
from examples import *


def main(ctx):
    rng = ctx.rng('c32')
    q = ctx.quick
    inv = ''.join(f'INVARIANT {i}\n' for i in ('DyckByDeletion', 'NestIsPalindrome', 'OddIsOdd', 'PrimeIsWrapped', 'BlocksGrow', 'SumsAreDerived', 'ClosedForgets', 'AddsUp', 'Labelled'))
    for what, L in (('dyck', 6), ('odd', 7), ('blocks', 6), ('prime', 10), ('sums', 6), ('mock', 0), ('coffee', 0), ('weird', 0), ('pomdp', 0), ('mqtt', 0), ('grid', 0)):
        ctx.tlc('MCExamples', f'CONSTANTS L={L + (0 if q or not L else 2)} What="{what}"\nSPECIFICATION Spec\n' + inv, name=f'documentation of {what}')
    its = []
    seed = lambda: rng.randrange(1 << 30)
    for name, lang in list(VPAS.items()) + list(SEVPAS.items()) + [('arithmetics', 'sums'), ('get_Angluin_dfa', 'evens')]:
        ws = words_for(rng, lang, 3000 if q else 30000, 400 if q else 5000)
        for how in ('step', 'query'):
            sub = ws if how == 'step' else rng.sample(ws, len(ws) // 4)
            for i in range(0, len(sub), 1000):
                its.append({'what': 'lang', 'name': name, 'lang': lang, 'ws': sub[i:i + 1000], 'how': how, 'seed': seed()})
    for name, ref in PROCS.items():
        for depth in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
            if ref in ('mqtt', 'grid') and depth > 5:
                continue
            its.append({'what': 'proc', 'name': name, 'ref': ref, 'depth': depth, 'seed': seed()})
    its += [{'what': 'onfsm', 'name': n, 'seed': seed()} for n in ('get_benchmark_ONFSM', 'get_ONFSM')]
    for _ in range(150 if q else 3000):
        ops = []
        for _ in range(rng.randrange(1, 25)):
            ops.append((rng.choice(('connect', 'subscribe', 'unsubscribe', 'publish', 'publish', 'subscribe', 'disconnect' if rng.random() < .4 else 'publish')),
                        rng.choice(('t', 't', 'u', '', 'topic/x', 't ', 'a\nb', '\0') if rng.random() < .3 else ('t', 'u', 'v'))))
        its.append({'what': 'mock', 'ops': ops, 'seed': seed()})
    its += [{'what': 'dates', 'rows': dates(rng, 300 if q else 5000), 'seed': seed()} for _ in range(2)]
    for _ in range(3 if q else 30):
        its.append({'what': 'data', 'args': [rng.choice((30, 200)), rng.choice((1, 2, 4)), rng.choice((4, 6, 8))], 'seed': seed()})
    ctx.notes['examples'] = len(VPAS) + len(SEVPAS) + len(PROCS) + 6
    judge_calls(ctx, 'TraceExamples', 'ExampleVerdict', its, run_example, 'shipped examples', sig=lambda m: m['what'] + '|' + str(m.get('name', '')), chunk=40)
