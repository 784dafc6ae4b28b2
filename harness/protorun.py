"""How every other learner uses its system: stochastic and non-deterministic L*, adaptive L#, KV for 1-SEVPAs and the
active passive learners, recorded as interaction logs (spec/SulProto.tla)."""
import random
from common import *
from graphs import *
import adaptive as AD, learnrun as L, oracles as Q


def logging(inner):
    """a wrapper that records every use of a system"""
    from aalpy.base import SUL

    class LogSul(SUL):
        def __init__(self):
            super().__init__()
            self.log = []

        def pre(self):
            self.log.append(('pre',)); inner.pre()

        def post(self):
            self.log.append(('post',)); inner.post()

        def step(self, letter):
            self.log.append(('step', 0 if letter is None else 1))
            return inner.step(letter)
    return LogSul()


def mark(oracle, sul):
    orig = oracle.find_cex

    def find(h):
        sul.log.append(('mark', {'e': 'eqb'}))
        r = orig(h)
        sul.log.append(('mark', {'e': 'eqe', 'q': oracle.num_queries, 's': oracle.num_steps}))
        return r
    oracle.find_cex = find
    return oracle


def ret(info):
    return {'e': 'ret', 'ql': info['queries_learning'], 'sl': info['steps_learning'], 'qe': info['queries_eq_oracle'], 'se': info['steps_eq_oracle']}


def random_oracle(it, al, sul):
    from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle
    if it['oracle'] == 'randomwalk':
        return RandomWalkEqOracle(al, sul, it['tests'] * 5, it['renew'], .2)
    return RandomWordEqOracle(al, sul, it['tests'], 2, 6, it['renew'])


def run(it):
    import random as R
    from active import graph_sul
    R.seed(it['seed'])
    rng = R.Random(it['seed'] + 1)
    what = it['what']
    if what == 'adaptive':
        coding = Coding(it['kind'], it['m']['k'], it['inp'], it['out'])
        sul = make_sul(it['m'], coding, 300000)
        orc = mark(Q.make(it['oracle'], it['params'], coding.alphabet, sul, coding, build(it['kind'], it['m'], coding)), sul)
        try:
            _, info = AD.run_adaptive(it['refs'])(it['cfg'], coding, sul, orc)
        except Budget:
            return None
        return sul.log, ret(info)
    if what == 'vpa':
        from pushdown import pspec
        from pushlearn import make_psul
        from aalpy.automata import SevpaAlphabet
        from aalpy.learning_algs import run_KV
        al, (ni, nc, nr) = it['g']['al'], it['g']['ncalls']
        sul = logging(make_psul(pspec(it['g']), al))
        orc = mark(random_oracle(it, al, sul), sul)
        _, info = run_KV(SevpaAlphabet(al[:ni], al[ni:ni + nc], al[ni + nc:]), sul, orc, 'vpa', cex_processing=it['cex'], cache_and_non_det_check=it['cache'],
                         return_data=True, print_level=0)
        return sul.log, ret(info)
    g = it['g']
    c = Coding(it['kind'], g['k'], it['inp'], it['out'])
    sul = logging(graph_sul(g, c, rng))
    al = list(c.alphabet)
    orc = mark(random_oracle(it, al, sul), sul)
    try:
        if what == 'stoch':
            from aalpy.learning_algs import run_stochastic_Lstar
            import aalpy.learning_algs.stochastic.StochasticLStar as S
            _, info = run_stochastic_Lstar(al, sul, orc, automaton_type=it['kind'], return_data=True, print_level=0, **it['cfg'])
        elif what == 'abstracted':
            from aalpy.learning_algs import run_abstracted_ONFSM_Lstar
            _, info = run_abstracted_ONFSM_Lstar(al, sul, orc, {c.g(o): 'x' for o in it['absn']}, n_sampling=it['n'], return_data=True, print_level=0, max_learning_rounds=3)
        else:
            from aalpy.learning_algs import run_non_det_Lstar
            _, info = run_non_det_Lstar(al, sul, orc, n_sampling=it['n'], return_data=True, print_level=0)
    except Budget:
        return None
    log = sul.log
    if what == 'stoch' and it['kind'] == 'mdp' and [x[0] for x in log[:3]] == ['pre', 'step', 'post'] and log[1][1] == 0:
        log = log[3:]        # reading the initial output is a test of its own and not part of learning
    return log, ret(info)


def items(rng, count):
    from c21 import system
    from pushdown import random_vpa
    from pushlearn import CEX, num_effects
    from pushdown import pspec
    res = []
    cfgs = AD.all_configs()
    while len(res) < count:
        what = rng.choice(('stoch', 'stoch', 'nondet', 'abstracted', 'adaptive', 'adaptive', 'vpa'))
        it = {'what': what, 'inp': rng.choice(('str', 'int', 'tuple')), 'out': rng.choice(('str', 'int')), 'seed': rng.randrange(1 << 30),
              'oracle': rng.choice(('randomwalk', 'randomword')), 'tests': rng.choice((2, 10, 40)), 'renew': rng.random() < .5}
        if what == 'stoch':
            kind = rng.choice(('mdp', 'smm'))
            st = rng.choice(('normal', 'classic', 'chi2'))
            mn = rng.choice((1, 2))
            cfg = {'strategy': st, 'cex_processing': rng.choice((None, 'longest_prefix', 'rs')), 'samples_cex_strategy': rng.choice((None, None, 'bfs', 'random:10:0.2')),
                   'min_rounds': mn, 'max_rounds': mn + rng.choice((1, 3, 6)), 'target_unambiguity': rng.choice((.99, .5, 1)),
                   'stopping_range_dict': rng.choice(('strict', 'relaxed'))}
            if st == 'classic':
                cfg.update(n_c=rng.choice((2, 5, 20)), n_resample=rng.choice((10, 30)))
            it.update(kind=kind, g=system(rng, kind, True), cfg=cfg)
        elif what in ('nondet', 'abstracted'):
            g = random_graph(rng, 'onfsm', rng.choice((1, 2, 3)), rng.choice((1, 2)), 3)
            it.update(kind='onfsm', g=g, n=rng.choice((5, 20)) if what == 'nondet' else rng.choice((2, 5)), absn=[o for o in sorted({e['o'] for e in g['tr']}) if rng.random() < .5])
        elif what == 'adaptive':
            kind = rng.choice(('dfa', 'moore', 'mealy'))
            m = random_machine(rng, rng.choice((2, 3, 4, 5)), rng.choice((1, 2, 3)), 2, kind == 'mealy')
            o = rng.choice(Q.NAMES)
            cfg = rng.choice(cfgs)
            if o == 'cachebased' and not cfg['cache_and_non_det_check']:
                continue
            it.update(kind=kind, m=m, cfg=cfg, out='str', oracle=o, params=Q.draw(o, rng, m), refs=[AD.reference(rng, m, kind, rng.choice(AD.HOW)) for _ in range(rng.choice((0, 1, 2)))])
        else:
            v = random_vpa(rng, rng.choice(('word', 'paren', 'num')), rng.random() < .4)
            if num_effects(pspec(v), 12) > 12:
                continue
            it.update(kind='vpa', g=v, cex=rng.choice(CEX), cache=rng.random() < .5, inp='str', out='str')
        res.append(it)
    return res
