"""Runs of the stochastic learner on recording systems (spec/StochLearner.tla)."""
import random
from fractions import Fraction
from convert import *
from active import graph_sul

UNROLL = 12


def half_checker():
    from aalpy.learning_algs.stochastic.DifferenceChecker import DifferenceChecker

    class Half(DifferenceChecker):
        def are_cells_different(self, c1, c2, **kwargs):
            n1, n2 = sum(c1.values()), sum(c2.values())
            if not n1 or not n2:
                return False
            return any(2 * abs(c1.get(o, 0) * n2 - c2.get(o, 0) * n1) > n1 * n2 for o in set(c1) | set(c2))
    return Half()


def strategy(name):
    from aalpy.learning_algs.stochastic.DifferenceChecker import AdvancedHoeffdingChecker, ChiSquareChecker
    return {'half': half_checker, 'normaldiff': lambda: AdvancedHoeffdingChecker(use_diff=True),
            'chi2diff': lambda: ChiSquareChecker(use_diff_value=True)}.get(name, lambda: name)()


def trace_(p, c, mdp, k):
    """access trace of a state as [[letter, output]...]; None when it is none"""
    if p is None:
        return None
    p = list(p)
    first = None
    if mdp:
        if not p:
            return None
        first = enc_out(p.pop(0))
    if len(p) % 2:
        return None
    return first, [[c.letter(p[i]) or 99, enc_out(p[i + 1])] for i in range(0, len(p), 2)]


def model_(m, c, mdp, g0):
    states = list(m.states)
    idx = {id(s): i + 1 for i, s in enumerate(states)}
    lab = [enc_out(s.output) if mdp else '' for s in states]
    chaos = [i for i, s in enumerate(states) if (s.output == 'chaos' if mdp else s.state_id == 'chaos')]
    acc, tr = [], []
    for i, s in enumerate(states):
        t = trace_(s.prefix, c, mdp, g0['k'])
        if i in chaos:
            acc.append([])
        elif t is None or (mdp and t[0] != g0['lab'][g0['init'] - 1]):
            acc.append([[99, 'no access trace']])
        else:
            acc.append(t[1])
        for x, es in s.transitions.items():
            for e in es:
                o, p = (enc_out(e[0].output), e[1]) if mdp else (enc_out(e[1]), e[2])
                f = Fraction(p).limit_denominator(20000)
                tr.append({'s': i + 1, 'a': c.letter(x) or 99, 'o': o, 't': idx.get(id(e[0]), 0), 'num': f.numerator, 'den': f.denominator})
    return {'n': len(states), 'init': idx.get(id(m.initial_state), 0), 'lab': lab, 'acc': acc, 'tr': tr,
            'chaos': chaos[0] + 1 if len(chaos) == 1 else 0 if not chaos else -1}


def runs_(log, limit):
    n = collections.Counter(tuple(zip(r['ins'], r['outs']))[:limit] for r in log)
    return [{'w': [list(x) for x in w], 'c': v} for w, v in n.items()]


def run(it):
    from aalpy.learning_algs import run_stochastic_Lstar
    from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle
    from aalpy.base import Oracle
    random.seed(it['seed'])
    rng = random.Random(it['seed'] + 1)
    mdp, g = it['kind'] == 'mdp', it['g']
    c = Coding(it['kind'], g['k'], it['inp'], it['out'])
    g0 = gspec(g, c)
    sul = graph_sul(g, c, rng, it.get('budget', 400000))
    ev, seen = [], []
    limit = (lambda m: max([len(a) for a in m['acc']] + [0]) + UNROLL) if it['sep'] else (lambda m: max([len(a) for a in m['acc']] + [0]) + 2)
    base = {'walk': RandomWalkEqOracle, 'word': RandomWordEqOracle, 'none': Oracle, 'script': Oracle}[it['oracle']]

    class Recorder(base):
        def find_cex(self, hypothesis):
            seen.append((hypothesis, len(sul.log)))
            if len(seen) <= it['maxhyp']:
                m = model_(hypothesis, c, mdp, g0)
                ev.append({'e': 'hyp', 'm': m, 'runs': runs_(sul.log, limit(m))})
                if m['init'] == 0 or any(t['t'] == 0 for t in m['tr']):
                    return None
            if it['oracle'] == 'none':
                return None
            if it['oracle'] == 'script':
                return self.scripted(hypothesis)
            return super().find_cex(hypothesis)

        def scripted(self, hypothesis):
            """as the contract of the library's oracles: a run of the system the model cannot follow"""
            for _ in range(it['tests']):
                self.reset_hyp_and_sul(hypothesis)
                cex = [hypothesis.initial_state.output] if mdp else []
                for _ in range(rng.choice((3, 6))):
                    x = rng.choice(c.alphabet)
                    o = self.sul.step(x)
                    self.num_steps += 1
                    cex += [x, o]
                    if hypothesis.step_to(x, o) is None:
                        self.sul.post()
                        return cex
            return None

        def reset_counter(self):
            if hasattr(base, 'reset_counter'):
                super().reset_counter()
    args = {'walk': dict(num_steps=it['tests'] * 5, reset_prob=.2, reset_after_cex=it['reset']),
            'word': dict(num_walks=it['tests'], min_walk_len=2, max_walk_len=6, reset_after_cex=it['reset'])}.get(it['oracle'], {})
    eo = Recorder(list(c.alphabet), sul, **args)
    kw = dict(it['cfg'])
    st = kw.pop('strategy')
    if st != 'default':
        kw['strategy'] = strategy(st)
    kw.setdefault('stopping_range_dict', {3: 0.01})
    kw['stopping_range_dict'] = {int(a): b for a, b in kw['stopping_range_dict'].items()} if isinstance(kw['stopping_range_dict'], dict) else kw['stopping_range_dict']
    with verbosity(it['seed']) as level:
        model, info = run_stochastic_Lstar(list(c.alphabet), sul, eo, automaton_type=it['kind'], custom_oracle=True, return_data=True,
                                           print_level=level, **kw)
    m = model_(model, c, mdp, g0)
    last = len(seen) > 0 and len(seen) <= it['maxhyp'] and seen[-1][0] is model
    steps = sum(len(r['ins']) for r in sul.log)
    ev.append({'e': 'ret', 'm': m, 'last': last, 'runs': [] if last else runs_(sul.log, limit(m)),
               'info': {'size': info['automaton_size'], 'n': m['n'], 'steps': info['steps_learning'] + info['steps_eq_oracle'], 'realsteps': steps,
                        'queries': info['queries_learning'] + info['queries_eq_oracle'], 'resets': len(sul.log), 'readinit': 1 if mdp else 0,
                        'eqasked': len(seen), 'rounds': info['learning_rounds'], 'maxrounds': it['cfg'].get('max_rounds', 0),
                        'minrounds': it['cfg'].get('min_rounds', 0), 'mayend': st == 'classic'}})
    return {'ev': ev, 'g': g0}


def case(it, r):
    c = Coding(it['kind'], it['g']['k'], it['inp'], it['out'])
    st = {'default': 'normal', 'chi2diff': 'chi2', 'normaldiff': 'normal'}.get(it['cfg']['strategy'], it['cfg']['strategy'])
    base = {'g': gspec(it['g'], c), 'mdp': it['kind'] == 'mdp', 'st': st, 'nc': it['cfg'].get('n_c', 20), 'sep': it['sep']}
    if r[0] == 'ok':
        return {**base, 'ev': r[1]['ev']}
    return {**base, 'ev': [{'e': 'fail', 'what': {'exc': 'Exception', 'hang': 'NoTermination', 'crash': 'Crash'}[r[0]]}]}


# ---- compatibility tests on single cells ----
def run_cells(it):
    from aalpy.learning_algs.stochastic.DifferenceChecker import HoeffdingChecker, AdvancedHoeffdingChecker, ChiSquareChecker
    obj = {'classic': HoeffdingChecker, 'normal': AdvancedHoeffdingChecker, 'chi2': ChiSquareChecker}[it['st']]()
    res = []
    for a, b in it['pairs']:
        def f():
            x, y = dict(a), dict(b)
            r = obj.are_cells_different(x, y)
            return {'op': 'cells', 'st': it['st'], 'a': [list(p) for p in sorted(a.items())], 'b': [list(p) for p in sorted(b.items())], 'diff': bool(r),
                    'back': bool(obj.are_cells_different(dict(b), dict(a))), 'kept': x == a and y == b}
        res.append(guard(f, e='cells'))
    return res
