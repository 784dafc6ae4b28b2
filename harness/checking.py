"""Drivers for model checking with a stand-in for the external checker (spec/Checking.tla).

The stand-in is a shell script in a scratch directory: it keeps what it was given and prints the
scripted answers of the next question."""
import os
import random
import subprocess
from convert import *

WORDS_ = ['go', 'stop', 'a1', 'x', 'b_2']
NOISE = ['PRISM', '=====', 'Parsing model file "m.prism"...', '1 property:', 'Model checking: Pmax=? [ F "ok" ]', 'Building model...',
         'Value in the initial state: 0.25', 'Time for model checking: 0.01 seconds.', '', 'Warning: Result: 0.75 is not final', 'States:      4 (1 initial)']


def show(v, style):
    """text of v millionths, as the checker prints a double"""
    x = v / 10 ** 6
    if style == 'exp' and 0 < v < 1000:
        m, e = f'{x:.6e}'.split('e')
        return f"{m.rstrip('0') + ('0' if m.rstrip('0').endswith('.') else '')}E{int(e)}"
    t = f'{x:.6f}'.rstrip('0')
    return t + '0' if t.endswith('.') else t


TOP = 9 * 10 ** 8        # expected rewards may exceed one
TAILS = ['', ' (value in the initial state)', ' (exact floating point)', ' (+/- 1.2E-6 estimated; rel err 3.0E-6)']


def script(lines):
    out = []
    for ln in lines:
        out.append(f"Result: {show(ln['v'], ln['style'])}{ln['tail']}" if ln['res'] else ln['text'])
    return '\n'.join(out) + '\n'


class Stand:
    def __init__(self, seed, answers, relative):
        self.d = f'/tmp/verif_check_{os.getpid()}_{seed}'
        os.makedirs(self.d + '/bin')
        os.makedirs(self.d + '/work')
        os.makedirs(self.d + '/seen')
        for i, a in enumerate(answers):
            open(f'{self.d}/bin/answers.{i}', 'w').write(script(a))
        open(f'{self.d}/work/x.props', 'w').write('Pmax=? [ F "ok" ]\n')
        exe = f'{self.d}/bin/prism.sh'
        open(exe, 'w').write(f'''#!/bin/sh
n=0
while [ -e {self.d}/seen/props.$n ]; do n=$((n+1)); done
cat "$1" > {self.d}/seen/model.$n
cat "$2" > {self.d}/seen/props.$n
if [ -e {self.d}/bin/answers.$n ]; then cat {self.d}/bin/answers.$n; fi
''')
        os.chmod(exe, 0o755)
        self.old = os.getcwd()
        os.chdir(self.d + '/work')
        self.exe = {'abs': exe, 'rel': '../bin/prism.sh'}[relative]

    def asked(self):
        return sum(f.startswith('props.') for f in os.listdir(self.d + '/seen'))

    def model(self, i):
        return open(f'{self.d}/seen/model.{i}').read()

    def props(self, i):
        return open(f'{self.d}/seen/props.{i}').read() == 'Pmax=? [ F "ok" ]\n'

    def left(self):
        return len(os.listdir(self.d + '/work')) - 1

    def close(self):
        os.chdir(self.old)
        subprocess.run(['rm', '-rf', self.d])


def named(d):
    """a result dictionary as [i, v] in its order; i = 0 if the key is not propN"""
    r = []
    for k, v in d.items():
        m = re.fullmatch(r'prop(\d+)', k) if isinstance(k, str) else None
        x = v * 10 ** 6
        r.append({'i': int(m.group(1)) if m else 0, 'v': round(x) if abs(x - round(x)) < 1e-3 and 0 <= x < 10 ** 9 else -1})
    return r


def plain(lines):
    return [{'res': ln['res'], 'v': ln['v']} for ln in lines]


def run_check(it):
    import aalpy.paths
    from aalpy.utils import ModelChecking as MC
    random.seed(it['seed'])
    if it['what'] == 'learn':
        return run_learn(it)
    g, kind = it['g'], it['kind']
    c = Coding(kind, g['k'], 'str', 'str')
    c.alphabet = WORDS_[:g['k']]
    c.g = lambda o: LABELS[int(o)]
    m, st = gbuild(kind, g, c, order=it['order'])
    lst = list(m.states)
    g0, lines = gproject(kind, m, c, lst), it['lines'][0]
    S = Stand(it['seed'], it['lines'], it['path'])
    aalpy.paths.path_to_prism = S.exe
    props = S.d + '/work/x.props' if it['path'] == 'abs' else 'x.props'
    want = [w / 10 ** 6 for w in it['want']]

    def asked():
        n = S.asked()
        r = {'asked': n, 'props': all(S.props(i) for i in range(n)), 'left': S.left(), 'lines': plain(lines)}
        if n:
            x, g1 = m, g0
            if kind == 'smm':
                from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
                x = smm_to_mdp_conversion(m)
                g1 = gproject('mdp', x, c)
            r['model'] = prism_fields(S.model(0), x, c, list(x.states), g1, g0, gproject(kind, m, c, lst), known_inputs(kind, c, lst), True, 'mc_exp')
        return r

    def evaluate():
        open('given.prism', 'w').write('mdp\n')
        r = MC.evaluate_all_properties('given.prism' if it['path'] == 'rel' else os.path.abspath('given.prism'), props)
        return {'lines': plain(lines), 'got': named(r) if S.asked() == 1 and S.model(0) == 'mdp\n' and S.props(0) else [{'i': -1, 'v': 0}]}

    def check():
        r = MC.model_check_properties(m, props)
        return {**asked(), 'got': named(r)}

    def experiment():
        r, d = MC.model_check_experiment(props, want, m, it['digits']) if it['digits'] != 4 else MC.model_check_experiment(props, want, m)
        return {**asked(), 'got': named(r), 'diff': named(d), 'want': it['want'], 'digits': it['digits']}

    def confidence():
        s = MC.stop_based_on_confidence(m, (props, want, it['bound'] / 10 ** 6), it['print'])
        return {**asked(), 'stop': s, 'want': it['want'], 'bound': it['bound']}
    try:
        return [guard({'evaluate': evaluate, 'check': check, 'experiment': experiment, 'confidence': confidence}[it['what']], e=it['what'])]
    finally:
        S.close()
        aalpy.paths.path_to_prism = None


def run_learn(it):
    import aalpy.paths
    import random as R
    from aalpy.oracles import RandomWordEqOracle
    from aalpy.learning_algs import run_stochastic_Lstar
    g, kind = it['g'], it['kind']
    c = Coding(kind, g['k'], 'str', 'str')
    c.alphabet = WORDS_[:g['k']]
    c.g = lambda o: LABELS[int(o)]
    from active import graph_sul
    sul = graph_sul(g, c, R.Random(it['seed'] + 1))
    log = sul.log
    S = Stand(it['seed'], it['lines'], it['path'])
    aalpy.paths.path_to_prism = S.exe
    props = 'x.props' if it['path'] == 'rel' else S.d + '/work/x.props'
    want = [w / 10 ** 6 for w in it['want']]
    orc = RandomWordEqOracle(c.alphabet, sul, num_walks=it['tests'], min_walk_len=2, max_walk_len=6)
    mark = [None]
    asks = []
    find, popen = orc.find_cex, subprocess.Popen

    def find_cex(h):
        r = find(h)
        mark[0] = len(log)
        return r

    def opened(*a, **kw):
        asks.append('?' if not asks or mark[0] is None else 'yes' if len(log) > mark[0] else 'no')
        mark[0] = None
        return popen(*a, **kw)
    orc.find_cex = find_cex
    subprocess.Popen = opened

    def learn():
        m, info = run_stochastic_Lstar(c.alphabet, sul, orc, automaton_type=kind, strategy=it['strategy'], min_rounds=it['min'], max_rounds=it['max'],
                                       n_c=it['n_c'], n_resample=it['n_resample'], property_based_stopping=(props, want, it['bound'] / 10 ** 6),
                                       return_data=True, print_level=it['print'])
        n = S.asked()
        r = {'asks': [{'lines': plain(it['lines'][i]) if i < len(it['lines']) else [], 'resampled': asks[i] if i < len(asks) else '?', 'props': S.props(i)}
                      for i in range(n)], 'rounds': info['learning_rounds'], 'min': it['min'], 'max': it['max'], 'want': it['want'], 'bound': it['bound'],
             'left': S.left(), 'haslast': False}
        if n:
            x = m
            if kind == 'smm':
                from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
                x = smm_to_mdp_conversion(m)
            lst = list(x.states)
            g1 = gproject('mdp', x, c, lst)
            if len(lst) <= 12:
                r['haslast'] = True
                r['model'] = prism_fields(S.model(n - 1), x, c, lst, g1, g1, g1, known_inputs('mdp', c, lst), True, 'mc_exp')
        return r
    try:
        return [guard(learn, e='learn')]
    finally:
        subprocess.Popen = popen
        S.close()
        aalpy.paths.path_to_prism = None


def answers(rng, n, want, bound):
    """the lines of one run of the checker that answers n properties"""
    lines = []
    noise = lambda: [{'res': False, 'v': 0, 'text': rng.choice(NOISE), 'style': '', 'tail': ''} for _ in range(rng.choice((0, 1, 3)))]
    for i in range(n):
        u = rng.random()
        w = want[i] if i < len(want) else 500000
        if u < .55:
            v = w + rng.choice((-1, 1)) * rng.choice((0, bound, bound - 100, 0, 100, 40, bound + 40))
        elif u < .7:
            v = w + rng.choice((-1, 1)) * (bound + rng.choice((100, 60, 1000, 40000)))
        elif u < .8:
            v = rng.choice((0, 1000000, 120, 7, 950, 12500000, 10 ** 8, 2300000))
        else:
            v = rng.randrange(10 ** 6)
        v = max(0, min(TOP, v))
        for d in (100, 10 ** 3, 10 ** 4):       # no ties in rounding, neither of values nor of errors
            if v % d == d // 2 or abs(v - w) % d == d // 2:
                v += 1
        lines += noise() + [{'res': True, 'v': v, 'style': rng.choice(('', 'exp')), 'tail': rng.choice(TAILS)}]
    return lines + noise()


def system(rng, kind):
    while True:
        n, k = rng.choice((1, 2, 3, 4)), rng.choice((1, 2, 3))
        g = random_graph(rng, kind, n, k, rng.choice((2, 4, 7)))
        if all(any(t['s'] == s and t['a'] == a for t in g['tr']) for s in range(1, n + 1) for a in range(1, k + 1)):
            return g


def items(rng, count, learn):
    res = []
    for j in range(count + learn):
        what = 'learn' if j >= count else ('evaluate', 'check', 'experiment', 'confidence')[j % 4]
        kind = rng.choice(('mdp', 'smm')) if what in ('confidence', 'learn') else 'mdp'
        g = system(rng, kind) if what == 'learn' or rng.random() < .5 else random_graph(rng, kind, rng.choice((1, 2, 4, 6)), rng.choice((1, 2, 3)),
                                                                                      rng.choice((2, 4, 7)), partial=rng.choice((0, .3)), reach=kind == 'smm' or rng.random() < .8)
        np = rng.choice((1, 1, 2, 3, 5, 12))
        want = [rng.choice((0, 10 ** 6, 500000, 962175, rng.randrange(10 ** 6), rng.randrange(10 ** 4) * 100, 3 * 10 ** 6, rng.randrange(10 ** 7) * 90)) for _ in range(np)]
        bound = rng.choice((20000, 0, 1000, 50000, 100))
        short = lambda: np if rng.random() < .85 or what == 'experiment' else rng.randrange(np + 1)
        it = {'what': what, 'kind': kind, 'g': g, 'want': want, 'bound': bound, 'path': rng.choice(('abs', 'abs', 'rel')), 'digits': rng.choice((4, 4, 3, 2)),
              'print': rng.choice((0, 1, 2)), 'order': rng.sample(range(g['n']), g['n']), 'seed': rng.randrange(1 << 30)}
        if what == 'learn':
            it['min'] = rng.choice((1, 2, 3))
            it['max'] = it['min'] + rng.choice((0, 1, 3, 5))
            it['n_c'], it['n_resample'] = rng.choice((1, 3, 10)), rng.choice((5, 20, 60))
            it['strategy'], it['tests'] = rng.choice(('normal', 'classic', 'classic')), rng.choice((2, 10, 40))
            it['lines'] = []
            for _ in range(rng.choice((1, 2, 4, 9))):
                it['lines'].append(answers(rng, short(), want, bound))
            if rng.random() < .7:        # the last scripted answers are perfect
                it['lines'].append([{'res': True, 'v': w, 'style': '', 'tail': ''} for w in want])
        else:
            it['lines'] = [answers(rng, short(), want, bound)]
        res.append(it)
    return res
