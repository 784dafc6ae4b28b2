"""KV runs on visibly pushdown systems (spec/PushLearner.tla)."""
from pushdown import *

CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']


def make_psul(g, al, budget=2000000):
    from aalpy.base import SUL
    S = PSim(g)

    class PSul(SUL):
        def __init__(self):
            super().__init__()
            self.steps_done = 0

        def pre(self):
            self.c = S.start()

        def post(self):
            pass

        def step(self, letter):
            self.steps_done += 1
            if self.steps_done > budget:
                raise Budget('system steps')
            if letter is not None:
                self.c = S.move(self.c, al.index(letter) + 1)
            return S.acc(self.c)
    return PSul()


def run_learn(it):
    """learn the system it['g'] (random_vpa description) with KV"""
    import random as R
    R.seed(it['seed'])
    rng = R.Random(it['seed'])
    from aalpy.automata import SevpaAlphabet
    from aalpy.learning_algs import run_KV
    from aalpy.base import Oracle
    v = it['g']
    T, al, nn = pspec(v), v['al'], v['ncalls']
    ni, nc, nr = nn
    pairs = {al[ni + i]: al[ni + nc + i] for i in range(nc)} if it['pairs'] else None
    A = SevpaAlphabet(al[:ni], al[ni:ni + nc], al[ni + nc:], pairs)
    sul = make_psul(T, al)
    ev = []

    def err_of(m):
        e = m.get_error_state()
        lst = real_states(m)
        return 0 if e is None else next((i for i, s in enumerate(lst, 1) if s is e), -1)

    def pre_of(m):
        return [[al.index(x) + 1 for x in (s.prefix or ())] for s in real_states(m)]

    class Teacher(Oracle):
        def __init__(self):
            super().__init__(al, sul)
            self.rounds = 0

        def find_cex(self, h):
            self.rounds += 1
            if self.rounds > 60:
                raise Budget('equivalence queries')
            p = pproject(h, al, nn, True)
            ev.append({'e': 'hyp', 'm': p, 'err': err_of(h)})
            w = None
            if it['policy'] == 'random':
                w = random_cex(T, p, rng, 100, 20)
            w = w if w is not None else balanced_words(T, p, rng if it['policy'] == 'mixed' else None)
            if w is None:
                return None
            ev.append({'e': 'cex', 'w': list(w)})
            w = [al[a - 1] for a in w]
            return w if it['seed'] % 2 else tuple(w)
    kw = {'max_learning_rounds': it['limit']} if it['limit'] else {}
    with verbosity(it['seed']) as level:
        m, info = run_KV(A, sul, Teacher(), 'vpa', cex_processing=it['cex'], cache_and_non_det_check=it['cache'], return_data=True, print_level=min(level, 2), **kw)
    ev.append({'e': 'ret', 'm': pproject(m, al, nn, True), 'pre': pre_of(m), 'size': info['automaton_size'], 'err': err_of(m)})
    return {'T': T, 'lim': it['limit'], 'ev': ev}


def num_effects(g, cap):
    """number of distinct effects of balanced words, capped"""
    S, n = PSim(g), g['n']
    ni, nc, nr = g['ni'], g['nc'], g['nr']
    ints, calls, rets = range(1, ni + 1), range(ni + 1, ni + nc + 1), range(ni + nc + 1, ni + nc + nr + 1)
    F = {tuple(range(1, n + 1))}
    while True:
        new = set(F)
        for f in F:
            for a in ints:
                new.add(tuple(S.internal(s, a) for s in f))
            for c in calls:
                m = [S.call(s, c) for s in f]
                for h in F:
                    for r in rets:
                        new.add(tuple(S.ret(h[x[0] - 1] if x[0] else 0, r, x[1]) for x in m))
        if len(new) > cap or len(new) == len(F):
            return len(new)
        F = new


def drop_pairs(v):
    """remove the pops of excluded pairs: call i may only be closed by return i"""
    ni, nc, nr = v['ncalls']
    e = [x for x in v['e'] if x[2] != 'pop' or (x[3][1] if v['sevpa'] else x[3]) - ni == x[1] - ni - nc]
    return {**v, 'e': e}


def scenarios(rng, count, cap):
    items = []
    while len(items) < count:
        v = random_vpa(rng, rng.choice(('word', 'paren', 'num')), rng.random() < .4)
        pairs = v['ncalls'][1] == v['ncalls'][2] and rng.random() < .4
        if pairs:
            v = drop_pairs(v)
            # pushed symbols must name their call
            v['e'] = [[s, a, act, a if act == 'push' else g, t] for s, a, act, g, t in v['e']]
        if num_effects(pspec(v), cap) > cap:
            continue
        if num_effects(pspec(v), cap) < 3 and rng.random() < .8:
            continue
        items.append({'g': v, 'pairs': pairs, 'cex': rng.choice(CEX), 'cache': rng.random() < .5, 'policy': rng.choice(('short', 'random', 'mixed')),
                      'limit': rng.choice((1, 2, 3)) if rng.random() < .1 else 0, 'seed': rng.randrange(1 << 30)})
    return items


def judge_learn(ctx, items, name):
    res = pmap(run_learn, items, timeout=60)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        ni, nc, nr = it['g']['ncalls']
        excl = [[ni + i + 1, ni + nc + j + 1] for i in range(nc) for j in range(nr) if i != j] if it['pairs'] else []
        metas.append(it if r[0] == 'ok' else {**it, 'outcome': r})
        val = r[1] if r[0] == 'ok' else {'T': pspec(it['g']), 'lim': 0, 'ev': [{'e': 'fail', 'what': {'hang': 'NoTermination', 'exc': 'Exception'}.get(r[0], 'Crash')}]}
        cases.append({**val, 'excl': excl})
    return ctx.judge('TracePushLearner', cases, metas, 'SPECIFICATION TraceSpec\n', name=name, sig=lambda m: m['cex'], chunk=400)
