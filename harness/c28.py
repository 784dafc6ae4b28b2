from testgen import *
from graphs import *

SCRIPT = 'CONSTANTS K=2 L={}\nSPECIFICATION Spec\nINVARIANT NoneMissing\nINVARIANT NoEmptyTest\nINVARIANT Emit\n'
SMC = 'CONSTANTS N=2 K={} B={}\nSPECIFICATION Spec\nINVARIANT CertainIsOne\nINVARIANT NeverIsZero\nINVARIANT Between\nPROPERTY GrowsWithSteps\n'
ORACLES = [n for n in Q.NAMES if n not in ('cachebased', 'provided')]


def main(ctx):
    rng = ctx.rng('c28')
    hist = [x['ops'] for L in ((1, 3, 4, 5) if ctx.quick else (1, 2, 3, 4, 5, 6, 7)) for x in ctx.tlc_json('MCTestGen', SCRIPT.format(L), name=f'MCTestGen L={L}')]
    ctx.tlc('MCSmc', SMC.format(1, 4), name='MCSmc K=1')
    if not ctx.quick:
        ctx.tlc('MCSmc', SMC.format(2, 3).replace('N=2', 'N=1'), name='MCSmc K=2 N=1')
    items = []

    def machine(k=None):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        m = random_machine(rng, rng.choice((1, 2, 3, 4, 6)), k or rng.choice((1, 2, 3)), 2 if kind == 'dfa' else rng.choice((1, 2, 3)), kind == 'mealy')
        inp, out = rng.choice(CODES)
        order = list(range(m['n']))
        rng.shuffle(order)
        return {'what': 'gen', 'kind': kind, 'm': m, 'inp': inp, 'out': out, 'order': order, 'seed': rng.randrange(1 << 30)}
    for ops in hist:
        items.append({**machine(2), 'ops': ops})
    for _ in range(500 if ctx.quick else 6000):
        it = machine()
        o = rng.choice(ORACLES)
        if o in ('wmethod', 'wp', 'rwmethod', 'rwp', 'kwaystate', 'kwaytrans', 'stateprefix', 'transfocus') and min_classes(it['m']) != it['m']['n']:
            continue
        if o in ('wmethod', 'wp') and it['m']['n'] > 4:
            continue
        if o in ('kwaystate',) and it['m']['n'] > 5:
            continue
        items.append({**it, 'oracle': o, 'params': Q.draw(o, rng, it['m']), 'presul': rng.random() < .5})
    for i in range(400 if ctx.quick else 5000):
        kind = rng.choice(('mdp', 'smm', 'mdp', 'smm', 'dfa', 'moore', 'mealy', 'onfsm'))
        k, o = rng.choice((1, 2, 3)), rng.choice((2, 3))
        n = rng.choice((1, 2, 3, 5))
        if rng.random() < .3:       # a chain: the goal is exactly n steps away
            k = rng.choice((1, 2))
            ss = range(1, n + 1)
            lab = ['0'] * (n - 1) + ['1'] if kind in LABELLED else [''] * n
            tr = []
            for s in ss:
                for a in range(1, k + 1):
                    t = min(s + 1, n)
                    tr.append(edge(s, a, lab[t - 1] if kind in LABELLED else '1' if s >= n - 1 else '0', t))
            g = {'n': n, 'init': 1, 'lab': lab, 'eps': kind in ('dfa', 'moore', 'mdp'), 'tr': tr, 'k': k}
            goals, steps = ['1'], max(0, n + rng.choice((-3, -2, -1, 0, 1)))
        else:
            g = random_graph(rng, kind, n, k, 2 if kind == 'dfa' else o)
            goals = [str(x) for x in range(2 if kind == 'dfa' else o + 1) if rng.random() < .4]
            steps = rng.choice((0, 1, 2, 3, 4, 15))
        if len({t['a'] for t in g['tr']}) != k:
            continue
        tenths = all(t['p'] % 100000 == 0 for t in g['tr']) and kind != 'onfsm'
        num = rng.choice((1, 7, 100, 2000)) if tenths else rng.choice((1, 7, 100))
        exact = tenths and num == 2000 and (10 * k) ** steps * num < 2 * 10 ** 9
        order = list(range(n))
        rng.shuffle(order)
        inp, out = rng.choice(CODES)
        items.append({'what': 'smc', 'kind': kind, 'g': g, 'goals': goals, 'n': steps, 'num': num, 'exact': exact, 'slack': 190, 'order': order, 'inp': inp,
                      'out': out, 'how': rng.random() < .5, 'seed': rng.randrange(1 << 30)})
    judge_calls(ctx, 'TraceTestGen', 'JudgeGen', items, run_testgen, 'test cases and estimates', chunk=2500,
                sig=lambda m: f"{m['what']}|{m['kind']}|{m.get('oracle', 'scripted')}")
    ctx.notes['scripted histories'] = len(hist)
    ctx.assumptions = ['statistical model checking judged on outputs observed after inputs (the label of the initial state alone is not counted)',
                       'oracles that delegate to another oracle with its own system (provided sequences) and cache-based testing are not used for generation']
