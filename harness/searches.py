"""Random oracles on hypotheses with several answers (spec/Search.tla)."""
import random
from common import *
from graphs import *


def make_sul(g, c, rng, log, budget=100000):
    from aalpy.base import SUL
    opts = {}
    for e in g['tr']:
        opts.setdefault((e['s'], e['a']), []).append((e['o'], e['t'], float(e['pr'])))

    class Sys(SUL):
        n = 0

        def pre(self):
            self.s = g['init']
            log.append([])

        def post(self):
            self.s = None

        def step(self, letter):
            Sys.n += 1
            if Sys.n > budget:
                raise Budget('system steps')
            al = opts[self.s, c.letter(letter)]
            o, t, _ = rng.choices(al, [x[2] for x in al])[0]
            log[-1].append({'a': c.letter(letter), 'o': enc_out(c.g(o))})
            self.s = t
            return c.g(o)
    return Sys()


def shape(kind, res, c):
    """what was returned, as a run"""
    step = lambda i, o: {'a': c.letter(i) or 99, 'o': enc_out(o)}
    if res is None:
        return {'found': False, 'shape': '', 'start': '', 'w': []}
    if isinstance(res, tuple) and len(res) == 2 and all(isinstance(x, (list, tuple)) for x in res):
        ok = len(res[0]) == len(res[1])
        return {'found': True, 'shape': 'pair' if ok else 'unequal pair', 'start': '', 'w': [step(i, o) for i, o in zip(*res)]}
    start = ''
    sh = 'list'
    res = list(res)
    if len(res) % 2:
        sh, start = 'listwithstart', enc_out(res[0])
        res = res[1:]
    return {'found': True, 'shape': sh, 'start': start, 'w': [step(res[i], res[i + 1]) for i in range(0, len(res), 2)]}


def run_search(it):
    import random as R
    from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle
    R.seed(it['seed'])
    kind, g, p = it['kind'], it['g'], it['params']
    c = Coding(kind, g['k'], it['inp'], it['out'])
    log = []
    sul = make_sul(g, c, R.Random(it['seed'] + 1), log)
    orc = (RandomWalkEqOracle if it['oracle'] == 'randomwalk' else RandomWordEqOracle)(c.alphabet, sul, **p)
    calls = []
    for h, reset in zip(it['H'], it['resets']):
        m, st = gbuild(kind, h, c)
        before = gproject(kind, m, c, st)
        log.clear()
        if reset:
            orc.reset_counter()
        res, err = None, ''
        try:
            res = orc.find_cex(m)
        except Exception as e:
            err = 'Exception_' + type(e).__name__
        calls.append({'H': before, 'after': gproject(kind, m, c, st), 'reset': reset, 'runs': [list(r) for r in log],
                      'res': shape(kind, res, c), 'err': err})
        if err:
            break
    return calls


def perturb(rng, g, kind):
    """a graph close to g"""
    h = json.loads(json.dumps(g))
    u = rng.random()
    e = rng.choice(h['tr'])
    if u < .35:
        h['tr'].remove(e)
    elif u < .7:
        e['t'] = rng.randrange(1, h['n'] + 1)
        if kind == 'mdp':
            e['o'] = h['lab'][e['t'] - 1]
    elif kind == 'mdp':
        s = rng.randrange(h['n'])
        h['lab'][s] = str(rng.randrange(3))
        for x in h['tr']:
            x['o'] = h['lab'][x['t'] - 1]
    else:
        e['o'] = str(rng.randrange(4))
    if kind in ('mdp', 'smm'):
        for key in {(x['s'], x['a']) for x in h['tr']}:
            es = [x for x in h['tr'] if (x['s'], x['a']) == key]
            for x in es:
                x.update(edge(x['s'], x['a'], x['o'], x['t'], 1 / len(es)))
    seen = {(x['s'], x['a'], x['o']) for x in h['tr']}
    return h if len(seen) == len(h['tr']) else None


def items(rng, count):
    res = []
    while len(res) < count:
        kind = rng.choice(('onfsm', 'mdp', 'smm'))
        g = random_graph(rng, kind, rng.choice((1, 2, 3, 4, 6)), rng.choice((1, 2, 3)), rng.choice((2, 3)))
        if len({(x['s'], x['a'], x['o']) for x in g['tr']}) < len(g['tr']):
            continue
        H = []
        while len(H) < rng.choice((1, 2, 3, 5)):
            h = g if rng.random() < .4 else perturb(rng, g, kind) if rng.random() < .8 else \
                random_graph(rng, kind, rng.choice((1, 2, 3)), g['k'], 3, partial=rng.choice((0, .2)))
            if h and len({(x['s'], x['a'], x['o']) for x in h['tr']}) == len(h['tr']) and h['k'] == g['k']:
                H.append(h)
        o = rng.choice(('randomwalk', 'randomword'))
        renew = rng.random() < .5
        p = {'num_steps': rng.choice((1, 10, 60)), 'reset_prob': rng.choice((.0, .09, .5))} if o == 'randomwalk' else \
            {'num_walks': rng.choice((1, 5, 15)), 'min_walk_len': rng.choice((1, 3)), 'max_walk_len': rng.choice((3, 12))}
        res.append({'kind': kind, 'g': g, 'H': H, 'oracle': o, 'params': {**p, 'reset_after_cex': renew}, 'inp': rng.choice(('str', 'int', 'tuple')),
                    'out': rng.choice(('str', 'int')), 'resets': [rng.random() < .3 for _ in H], 'seed': rng.randrange(1 << 30)})
    return res


def spec_p(p):
    return {'renew': p['reset_after_cex'], 'steps': p['num_steps']} if 'num_steps' in p else \
        {'renew': p['reset_after_cex'], 'walks': p['num_walks'], 'min': p['min_walk_len'], 'max': p['max_walk_len']}


def judge(ctx, its, name):
    res = pmap(run_search, its)
    cases, metas = [], []
    for it, r in zip(its, res):
        if r[0] == 'skip':
            continue
        empty = {'found': False, 'shape': '', 'start': '', 'w': []}
        g = gspec(it['g'], Coding(it['kind'], it['g']['k'], it['inp'], it['out']))
        calls = r[1] if r[0] == 'ok' else [{'H': g, 'after': g, 'reset': False, 'runs': [], 'res': empty, 'err': r[0].capitalize()}]
        cases.append({'kind': it['kind'], 'o': it['oracle'], 'p': spec_p(it['params']), 'calls': calls})
        metas.append(it)
    ctx.judge('TraceSearch', cases, metas, name=name, sig=lambda m: m['kind'] + '|' + m['oracle'], chunk=4000)
