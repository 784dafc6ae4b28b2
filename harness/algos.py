"""Drivers for the functions that inspect or transform automata (spec/Algo.tla)."""
from graphs import *


def guard(fn, **base):
    try:
        return {'err': '', **base, **fn()}
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)
        if any(t.name in ('project', 'gproject', 'vproject') for t in tb):
            return {'err': 'ModelNotReadable', 'where': repr(x)[:200], **base}
        if not any('/aalpy/' in t.filename for t in tb):
            raise
        return {'err': 'Raised' + type(x).__name__, 'where': f'{tb[-1].filename.split("/")[-1]}:{tb[-1].lineno}', **base}


def word(c, w):
    try:
        return [0] if w is None else c.unword(w)
    except TypeError:
        return [0, 0]                       # not a word at all


def redundant(rng, m):
    """the same behaviour with some states duplicated (and possibly unreachable ones)"""
    m = json.loads(json.dumps(m))
    for _ in range(rng.choice((1, 1, 2, 3))):
        s = rng.randrange(m['n'])
        m['d'].append(list(m['d'][s])); m['o'].append(list(m['o'][s]) if m['mealy'] else m['o'][s])
        m['n'] += 1
        for r in range(m['n']):
            for a in range(m['k']):
                if m['d'][r][a] == s + 1 and rng.random() < .5:
                    m['d'][r][a] = m['n']
        if rng.random() < .2:
            m['init'] = m['n'] if m['init'] == s + 1 else m['init']
    return m


def rename(rng, m):
    p = list(range(m['n'])); rng.shuffle(p)          # old state i -> position p[i]
    d = [None] * m['n']; o = [None] * m['n']
    for i in range(m['n']):
        d[p[i]] = [(p[t - 1] + 1 if t > 0 else t) for t in m['d'][i]]; o[p[i]] = m['o'][i]
    return {**m, 'd': d, 'o': o, 'init': p[m['init'] - 1] + 1}


def tweak(rng, m):
    m = json.loads(json.dumps(m))
    s, a = rng.randrange(m['n']), rng.randrange(m['k'])
    r = rng.random()
    if r < .4:
        m['d'][s][a] = rng.randrange(m['n']) + 1
    elif m['mealy']:
        m['o'][s][a] = '1' if m['o'][s][a] == '0' else '0'
    else:
        m['o'][s] = '1' if m['o'][s] == '0' else '0'
    return m


def holes(rng, m, n=1):
    m = json.loads(json.dumps(m))
    for _ in range(n):
        m['d'][rng.randrange(m['n'])][rng.randrange(m['k'])] = 0
    return m


def run(it):
    import random as R
    R.seed(it['seed'])
    return {'calls': {'pair': run_pair, 'min': run_min, 'struct': run_struct, 'completion': run_completion}[it['what']](it)}


def run_pair(it):
    from aalpy.utils import bisimilar, compare_automata
    kind, m1, m2 = it['kind'], it['m1'], it['m2']
    c = Coding(kind, m1['k'], it['inp'], it['out'])
    a, b = build(kind, m1, c), build(kind, m2, c, ids=lambda i: f'q{i}')
    s1, s2 = c.spec(m1), c.spec(m2)
    p = lambda: {'after1': project(a, c), 'after2': project(b, c)}
    before = p()
    calls = []

    def f():
        if it['dirty']:                       # comparison starts at the initial states, wherever the automata are
            a.current_state = a.states[-1]; b.current_state = b.states[-1]
        eq = bisimilar(a, b)
        cex = bisimilar(a, b, return_cex=True)
        return {'m1': before['after1'], 'm2': before['after2'], 'eq': bool(eq), 'op': a == b, 'cex': word(c, cex), **p()}
    calls.append(guard(f, e='bisim'))

    def self_eq():
        eq = bisimilar(a, a)
        return {'m1': before['after1'], 'm2': before['after1'], 'eq': bool(eq), 'op': a == a, 'cex': word(c, bisimilar(a, a, return_cex=True)),
                'after1': project(a, c), 'after2': project(a, c)}
    if it['self']:
        calls.append(guard(self_eq, e='bisim'))

    def g():
        r = compare_automata(a, b, num_cex=it['num'])
        return {'m1': before['after1'], 'm2': before['after2'], 'num': it['num'], 'res': [word(c, x) for x in r], **p()}
    if it['compare']:
        calls.append(guard(g, e='compare'))
    return calls


def run_min(it):
    kind, m = it['kind'], it['m']
    c = Coding(kind, m['k'], it['inp'], it['out'])
    fresh = lambda: build(kind, m, c, order=it['order'])
    calls = []
    a = fresh()
    spec = project(a, c)
    calls.append(guard(lambda: {'m': spec, 'res': bool(a.is_minimal()), 'h': project(a, c)}, e='isminimal'))
    if not it['complete']:
        return calls
    if it['prefixes']:
        a.compute_prefixes()
    for s, t in it['pairs']:
        calls.append(guard(lambda: {'m': spec, 's': s, 't': t, 'res': word(c, a.find_distinguishing_seq(a.states[s - 1], a.states[t - 1], list(c.alphabet)))}, e='dist'))
    for o in it['charsets']:
        def f():
            init = None if o['init'] is None else [c.word(w) for w in o['init']]
            keep = None if init is None else list(init)
            r = a.compute_characterization_set(init, o['closure'], o['split'], raise_warning=False)
            return {'m': spec, 'init': [] if keep is None else [word(c, w) for w in keep],
                    'init2': [] if init is None else [word(c, w) for w in init], 'closed': o['closure'],
                    'none': r is None, 'res': [] if r is None else [word(c, w) for w in r], 'h': project(a, c)}
        calls.append(guard(f, e='charset'))

    def same():
        s, t = a.compute_characterization_set(return_same_states=True)
        pos = lambda x: next((i for i, y in enumerate(a.states, 1) if y is x), 0)
        return {'m': spec, 'none': s is None and t is None, 's': pos(s) if s is not None else 0, 't': pos(t) if t is not None else 0}
    calls.append(guard(same, e='same'))

    def mini():
        a.minimize()
        return {'m': spec, 'h': project(a, c), 'pref': prefixes(a, c)}
    calls.append(guard(mini, e='minimize'))
    calls.append(guard(lambda: (lambda h: {'m': h, 'res': bool(a.is_minimal()), 'h': h})(project(a, c)), e='isminimal'))
    return calls


def run_struct(it):
    kind, m = it['kind'], it['m']
    c = Coding(kind, m['k'], it['inp'], it['out'])
    a = build(kind, m, c, order=it['order'])
    other = build(kind, m, c)
    spec = project(a, c)
    n = m['n']

    def f():
        paths = [{'s': s, 't': t, 'w': word(c, a.get_shortest_path(a.states[s - 1], a.states[t - 1]))}
                 for s in range(1, n + 1) for t in range(1, n + 1)]
        strong, complete = a.is_strongly_connected(), a.is_input_complete()
        foreign = a.get_shortest_path(a.initial_state, other.states[0]) if it['foreign'] else other.get_shortest_path(a.initial_state, other.states[0])
        a.compute_prefixes()
        pos = lambda x: next((i for i, y in enumerate(a.states, 1) if y is x), 0)
        return {'m': spec, 'paths': paths, 'pref': prefixes(a, c), 'strong': bool(strong), 'complete': bool(complete), 'foreign': word(c, foreign),
                'alpha': [c.letter(x) for x in a.get_input_alphabet()], 'same': [[c.letter(x) for x in s.get_same_state_transitions()] for s in a.states],
                'diff': [[c.letter(x) for x in s.get_diff_state_transitions()] for s in a.states],
                'byid': [pos(a.get_state_by_id(s.state_id)) for s in a.states], 'noid': pos(a.get_state_by_id('no such state')), 'size': a.size,
                'h': project(a, c)}
    return [guard(f, e='struct')]


def run_completion(it):
    from aalpy.utils import make_input_complete
    kind, g = it['kind'], it['g']
    c = Coding(kind, g['k'], it['inp'], it['out'])
    a, st = gbuild(kind, g, c, order=it['order'])
    before = gproject(kind, a, c)

    def f():
        mode = {'self': 'self_loop', 'sink': 'sink_state'}[it['mode']]
        if it['how'] == 'method':
            a.make_input_complete(mode); same = True
        elif it['how'] == 'default':
            a.make_input_complete(); same = True
        else:
            same = make_input_complete(a, mode) is a
        return {'g': before, 'h': gproject(kind, a, c), 'mode': it['mode'], 'sameobj': same, 'complete': bool(a.is_input_complete()),
                'sinklab': enc_out(False) if kind == 'dfa' else enc_out('sink_state') if kind in ('moore', 'mdp') else enc_out(None) if kind == 'ndmoore' else '',
                'epsout': '' if kind in LABELLED else enc_out('epsilon')}
    return [guard(f, e='completion')]


def judge(ctx, items, name):
    res = pmap(run, items)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        metas.append({**it, 'outcome': r[0]})
        cases.append(r[1] if r[0] == 'ok' else {'calls': [{'err': {'hang': 'NoResult'}.get(r[0], 'Crash'), 'e': it['what'], 'detail': r[1]}]})
    return ctx.judge('TraceAlgo', cases, metas, 'SPECIFICATION TraceSpec\n', name=name, sig=lambda m: m['kind'] + '|' + m['what'], chunk=3000)


def check_notions(ctx, quick):
    for n, k, mealy, part in ((2, 1, False, True), (2, 1, True, True), (2, 2, False, False)) if quick else \
            ((2, 2, False, True), (2, 2, True, False), (3, 1, False, True), (3, 1, True, True)):
        ctx.tlc('MCFsm', f'CONSTANTS N={n} K={k} Mealy={"TRUE" if mealy else "FALSE"} Partial={"TRUE" if part else "FALSE"}\nSPECIFICATION Spec\n'
                'INVARIANT EquivalenceIsByWords\nINVARIANT CompleteAgrees\nINVARIANT ClassesAreByWords\nINVARIANT DistanceIsByWords\n',
                name=f'notions agree with words N={n} K={k} mealy={mealy} partial={part}')


CODES = [('str', 'str'), ('int', 'int'), ('tuple', 'str'), ('mixed', 'int')]
