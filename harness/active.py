"""Drivers for active uses of passive learners (spec/Active.tla)."""
from sampling import *


def graph_sul(g, c, rng, budget=200000):
    """a recording system that behaves like the specification graph g"""
    from aalpy.base import SUL
    opts = {}
    for t in g['tr']:
        opts.setdefault((t['s'], t['a']), []).append(t)

    class GSul(SUL):
        def __init__(self):
            super().__init__()
            self.log, self.s, self.n = [], None, 0

        def pre(self):
            self.s = g['init']
            self.log.append({'ins': [], 'outs': []})

        def post(self):
            self.s = None

        def step(self, x):
            self.n += 1
            if self.n > budget:
                raise Budget(str(self.n))
            if x is None:
                return c.g(g['lab'][self.s - 1]) if g['lab'][self.s - 1] != '' else None
            a = c.alphabet.index(x) + 1
            es = opts[(self.s, a)]
            t = rng.choices(es, [float(e['pr']) for e in es])[0]
            self.s = t['t']
            self.log[-1]['ins'].append(a)
            self.log[-1]['outs'].append(enc_out(c.g(t['o'])))
            return c.g(t['o'])
    return GSul()


def walk(g, rng, w):
    """a run of g on the letters w: outputs (raw)"""
    s, outs = g['init'], []
    for a in w:
        es = [t for t in g['tr'] if t['s'] == s and t['a'] == a]
        t = rng.choices(es, [float(e['pr']) for e in es])[0]
        outs.append(t['o']); s = t['t']
    return outs


def run_active(it):
    import random as R
    R.seed(it['seed'])
    rng = R.Random(it['seed'] + 1)
    if it['fmt'] == 'rpni':
        import aalpy.learning_algs.deterministic_passive.active_RPNI as M
        from aalpy.learning_algs import run_active_RPNI as run, run_RPNI
    else:
        import aalpy.learning_algs.stochastic_passive.ActiveAleriga as M
        from aalpy.learning_algs import run_active_Alergia as run, run_Alergia
    from aalpy.automata import Mdp, StochasticMealyMachine, Dfa, MooreMachine, MealyMachine
    kind, g = it['kind'], it['g']
    c = Coding(kind, g['k'], it['inp'], it['out'])
    moore = kind in MOORE
    g0 = gspec(g, c)
    sul = graph_sul(g, c, rng)
    rpni = it['fmt'] == 'rpni'

    def enc(t):
        if rpni:
            return {'ins': [c.letter(x) or 98 for x in t[0]], 'o': enc_out(t[1])}
        t = list(t)
        eps = [enc_out(t.pop(0))] if moore and t else []
        return {'eps': eps, 'ins': [c.letter(x[0]) or 98 for x in t], 'outs': [enc_out(x[1]) for x in t]}

    def datum(w):
        outs = [c.g(o) for o in walk(g, rng, w)]
        x = c.word(w)
        if rpni:
            return [(x[:i], outs[i - 1]) for i in range(1, len(x) + 1)] if kind == 'mealy' or rng.random() < .5 else \
                [(x, outs[-1] if outs else c.g(g['lab'][g['init'] - 1]))]
        return [([c.g(g['lab'][g['init'] - 1])] if moore else []) + list(zip(x, outs))]
    data = [d for w in it['words'] for d in datum(w)]
    if it['contradictory']:
        w, o = rng.choice([d for d in data if d[0]])
        data.append((w, next(y for y in [c.g('0'), c.g('1')] if y != o)))
    given = [enc(t) for t in data]
    base = {'sys': g0, 'fmt': it['fmt'], 'moore': moore, 'walks': it['walks'], 'lo': it['lo'], 'hi': it['hi']}

    def mproject(m):
        return gproject(kind, m, c)
    if it['what'] == 'sampler':
        def go():
            m, _ = gbuild(kind, g, c)
            q = M.RandomWordSampler(it['walks'], it['lo'], it['hi']).sample(sul, m)
            return {'op': 'sampler', **base, 'letters': sorted({t['a'] for t in g['tr']}), 'spread': it['spread'],
                    'call': {'tests': sul.log, 'samples': [enc(t) for t in q]}}
        return [guard(go, e='sampler')]
    calls = []
    Base = M.RandomWordSampler

    class Spy(Base):
        def sample(self, sul, model):
            n = len(sul.log)
            pm = mproject(model)
            if it['own']:               # a sampler of the user's own
                q = [d for _ in range(it['walks']) for d in datum([rng.randrange(1, g['k'] + 1) for _ in range(rng.randrange(1, 5))])]
            else:
                q = super().sample(sul, model)
            calls.append({'tests': sul.log[n:], 'samples': [enc(t) for t in q], 'model': pm})
            return q

    def go():
        kw = {'print_info': it['info']}
        if not rpni:
            kw['eps'] = it['eps']
            if kind != 'mdp' or it['pass']:
                kw['automaton_type'] = kind
        else:
            kw['automaton_type'] = kind
        r = run(data, sul, Spy(it['walks'], it['lo'], it['hi']), it['iters'], **kw)
        final = [enc(t) for t in data]
        if r is None:
            return {'op': 'active', **base, 'none': True, 'contradictory': it['contradictory']}
        p = run_RPNI(data, kind, print_info=False) if rpni else run_Alergia(data, kind, eps=it['eps'])
        return {'op': 'active', **base, 'none': False, 'contradictory': it['contradictory'], 'iters': it['iters'], 'own': it['own'], 'given': given, 'final': final, 'calls': calls,
                'model': mproject(r), 'passive': mproject(p),
                'cls': type(r) is {'mdp': Mdp, 'smm': StochasticMealyMachine, 'dfa': Dfa, 'moore': MooreMachine, 'mealy': MealyMachine}[kind]}
    return [guard(go, e='active')]
