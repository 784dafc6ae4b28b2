"""Direct runs of equivalence oracles on (hypothesis, system) pairs, recorded for TraceOracle."""
import math, random
from common import *
import oracles as Q


def run(item):
    """item: T, H list, kind, oracle, params"""
    from aalpy.base.SUL import CacheSUL
    T = item['T']
    random.seed(item['seed'])
    coding = Coding(item['kind'], T['k'], item.get('inp', 'str'), item.get('out', 'str'))
    raw = make_sul(T, coding, 300000)
    sul = raw
    words = []
    if item['oracle'] == 'cachebased':
        sul = CacheSUL(raw)
        for w in item['cached']:
            sul.query(coding.word(w))
        words = item['cached']
        raw.log.clear()
    model = build(item['kind'], T, coding)
    orc = Q.make(item['oracle'], item['params'], coding.alphabet, sul, coding, model)
    calls = []
    for H, reset in zip(item['H'], item.get('resets') or [False] * 9):
        h = build(item['kind'], H, coding)
        h.compute_prefixes()
        for s in h.states:
            if s is h.initial_state:
                s.prefix = ()
        raw.log.clear()
        before, pre = project(h, coding), prefixes(h, coding)
        res, err = None, ''
        reset = reset and hasattr(orc, 'reset_counter')
        if reset:
            orc.reset_counter()
        try:
            res = orc.find_cex(h)
        except (Exception, SystemExit) as e:
            err = 'Exception_' + type(e).__name__
        except Budget:
            return None
        calls.append({'H': before, 'after': project(h, coding), 'pre': pre, 'post': prefixes(h, coding), 'reset': reset,
                      'tests': [w for w, _ in log_words(raw.log)], 'res': [0] if res is None else coding.unword(res), 'err': err})
        if err or res is None and item.get('stop'):
            break
    return calls


def spec_params(item):
    p, o = item['params'], item['oracle']
    if o in ('wmethod', 'wp'):
        return {'m': p['m']}
    if o == 'bfs':
        return {'depth': p['depth']}
    if o == 'stateprefix':
        return {'walks': p['walks_per_state'], 'len': p['walk_len'], 'max': p['max_tests'] or 0}
    if o == 'rwmethod':
        return {'walks': p['walks_per_state']}
    if o == 'kwaystate':
        return {'k': p['k'], 'perm': p['method'] == 'permutations', 'len': p['random_walk_len']}
    if o == 'kwaytrans':
        return {'k': p['k'], 'maxsteps': p['max_number_of_steps']}
    if o == 'provided':
        return {'words': p['words']}
    if o == 'pac':
        return {'e': round(1 / p['epsilon']), 'lnd': round(math.log(1 / p['delta']) * 1e6), 'ln2': round(math.log(2) * 1e6), 'min': p['min_walk_len'], 'max': p['max_walk_len']}
    if o == 'randomword':
        return {'walks': p['num_walks'], 'min': p['min_walk_len'], 'max': p['max_walk_len'], 'renew': p['reset_after_cex']}
    if o == 'randomwalk':
        return {'steps': p['num_steps'], 'renew': p['reset_after_cex']}
    if o == 'transfocus':
        return {'walks': p['num_random_walks'], 'len': p['walk_len'], 'mode': {0: 'diff', 1: 'same'}.get(p['same_state_prob'], 'mixed')}
    if o == 'cachebased':
        return {'walks': p['num_walks'], 'words': item['cached'], 'renew': p['reset_after_cex']}
    return {'none': 0}


def mutate(rng, m, kind):
    """a machine close to m"""
    h = json.loads(json.dumps(m))
    s, a = rng.randrange(m['n']), rng.randrange(m['k'])
    if rng.random() < .6:
        h['d'][s][a] = rng.randrange(m['n']) + 1
    elif h['mealy']:
        h['o'][s][a] = str(1 - int(h['o'][s][a]) % 2)
    else:
        h['o'][s] = str(1 - int(h['o'][s]) % 2)
    return h


def reach_minimal(m):
    """minimal reachable version (driver side, to choose interesting hypotheses)"""
    n, k = m['n'], m['k']
    seen, order = {m['init']}, [m['init']]
    for s in order:
        for a in range(k):
            t = m['d'][s - 1][a]
            if t not in seen:
                seen.add(t); order.append(t)
    c = {s: str(m['o'][s - 1]) for s in order}
    while True:
        key = {s: (c[s], tuple(c[m['d'][s - 1][a]] for a in range(k))) for s in order}
        ids = {}
        for s in order:
            ids.setdefault(key[s], len(ids) + 1)
        c2 = {s: ids[key[s]] for s in order}
        if len(ids) == len(set(c.values())):
            break
        c = c2
    cls, reps = {}, []
    for s in order:
        if c2[s] not in cls:
            cls[c2[s]] = len(cls) + 1; reps.append(s)
    return mk(m['mealy'], [[cls[c2[m['d'][s - 1][a]]] for a in range(k)] for s in reps], [m['o'][s - 1] for s in reps])


def to_case(item, r, **flags):
    coding = Coding(item['kind'], item['T']['k'], item.get('inp', 'str'), item.get('out', 'str'))
    T = coding.spec(item['T'])
    calls = r[1] if r[0] == 'ok' else [{'H': T, 'after': T, 'pre': [], 'post': [], 'reset': False, 'tests': [], 'res': [0], 'err': r[0].capitalize()}]
    return {'T': T, 'o': item['oracle'], 'p': spec_params(item), 'calls': calls, **flags}


BUDGETED = ('randomword', 'randomwalk', 'cachebased', 'stateprefix', 'rwmethod')


def random_items(ctx, rng, per, big=True):
    items = []
    pool = {'moore': [m for m in ctx.gen_machines(3, 2, 2, False)], 'mealy': ctx.gen_machines(2, 2, 2, True)}
    for name in Q.NAMES:
        for i in range(per):
            kind = rng.choice(('dfa', 'moore', 'mealy'))
            k = rng.choice((1, 2, 2, 3))
            if i % 2:
                k = 2
                T = rng.choice(pool['mealy' if kind == 'mealy' else 'moore'])
            else:
                T = random_machine(rng, rng.choice((2, 3, 4, 5, 6)), k, 2, kind == 'mealy')
            H = []
            for _ in range(rng.choice((1, 2, 3)) if name not in BUDGETED else rng.choice((1, 2, 3, 5))):
                u = rng.random()
                h = T if u < .3 else mutate(rng, T, kind) if u < .75 else random_machine(rng, rng.choice((1, 2, 3)), k, 2, kind == 'mealy')
                H.append(reach_minimal(h))
            p = Q.draw(name, rng, T)
            if name in ('wmethod', 'wp'):
                p['m'] = max([p['m']] + [h['n'] for h in H])
                if p['m'] - min(h['n'] for h in H) > 3:
                    p['m'] = max(h['n'] for h in H)
            items.append({'T': T, 'H': H, 'kind': kind, 'oracle': name, 'params': p, 'inp': rng.choice(('str', 'int', 'tuple')), 'out': 'str',
                          'seed': rng.randrange(1 << 30), 'resets': [rng.random() < .3 for _ in H], 'cached': [[rng.randrange(k) + 1 for _ in range(rng.randrange(1, 5))] for _ in range(4)]})
    return items
