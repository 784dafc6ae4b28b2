"""Drivers for saving/loading and for copies (spec/Persist.tla)."""
from algos import *
import tempfile, shutil

SINK = 'ErrorSinkState'           # the implicit rejecting sink of VPAs, not part of saved models
VCODES = {'int': 'ab', 'call': ('(', '[', 'c'), 'ret': (')', ']', 'r')}


def vpa_letters(style):
    return {'word': (['i1', 'i2'], ['c1', 'c2'], ['r1', 'r2']), 'paren': (['a', 'b'], ['(', '['], [')', ']']),
            'num': ([1, 2], ['c1', 'c2'], [3, 4]),
            'nums': ([1, 2], [5, 60], [3, 4]), 'key': (['popcorn', 'push'], ['pushit', 'pop'], ['unpop', 'repush'])}[style]


def random_vpa(rng, style, sevpa):
    """edges [s, letter index, action, guard, t]; guard: letter index (vpa) or [state, call index] (sevpa)"""
    ints, calls, rets = vpa_letters(style)
    ni, nc, nr = rng.choice((0, 1, 2)), rng.choice((1, 2)), rng.choice((1, 2))
    n = rng.choice((1, 2, 3, 4))
    al = ints[:ni] + calls[:nc] + rets[:nr]
    I, C, Rr = range(ni), range(ni, ni + nc), range(ni + nc, ni + nc + nr)
    e = []
    for s in range(1, n + 1):
        for a in I:
            if rng.random() < .7:
                e.append([s, a, None, None, rng.randrange(1, n + 1)])
        if not sevpa:
            for a in C:
                if rng.random() < .7:
                    e.append([s, a, 'push', rng.choice(list(C)) if rng.random() < .2 else a, rng.randrange(1, n + 1)])
        for a in Rr:
            for b in C:
                if sevpa:
                    for q in range(1, n + 1):
                        if rng.random() < .6:
                            e.append([s, a, 'pop', [q, b], rng.randrange(1, n + 1)])
                elif rng.random() < .6:
                    e.append([s, a, 'pop', b, rng.randrange(1, n + 1)])
    return {'n': n, 'init': rng.randrange(1, n + 1) if not sevpa or rng.random() < .3 else 1, 'acc': [rng.random() < .5 for _ in range(n)],
            'al': al, 'e': e, 'sevpa': sevpa, 'ncalls': [ni, nc, nr]}


def vbuild(v, ids, order=None):
    from aalpy.automata import Vpa, VpaState, VpaTransition, Sevpa, SevpaState, SevpaTransition
    st = [(SevpaState if v['sevpa'] else VpaState)(ids(i), v['acc'][i]) for i in range(v['n'])]
    for s, a, act, g, t in v['e']:
        x = v['al'][a]
        if v['sevpa']:
            guard = None if act is None else (ids(g[0] - 1), v['al'][g[1]])
            st[s - 1].transitions[x].append(SevpaTransition(st[t - 1], x, act, guard))
        else:
            guard = None if act is None else v['al'][g]
            st[s - 1].transitions[x].append(VpaTransition(st[s - 1], st[t - 1], x, act, guard))
    lst = [st[i] for i in order] if order else list(st)
    return (Sevpa if v['sevpa'] else Vpa)(st[v['init'] - 1], lst), st


def vproject(model, al, states):
    idx = {id(s): i + 1 for i, s in enumerate(states)}
    tr = []
    for i, s in enumerate(states, 1):
        for x, lst in list(s.transitions.items()):
            for t in lst:
                a = al.index(x) + 1 if x in al and type(x) is type(al[al.index(x)]) else 99
                o = f'{enc_out(t.letter)} {t.action} {t.stack_guard!r}'
                tr.append(edge(i, a, o, idx.get(id(t.target_state), -1)))
    return {'n': len(states), 'init': idx.get(id(model.initial_state), 0), 'lab': [enc_out(s.is_accepting) for s in states],
            'eps': True, 'tr': tr, 'k': len(al)}


def real_states(model):
    return [s for s in model.states if s.state_id != SINK]


def make_model(it):
    c = None
    ids = {'s': lambda i: f's{i}', 'rev': lambda i: f'n{it["n"] - i}', 'odd': lambda i: ['A', 'b_2', 'q10', 'q1', 'Zz', '_x', 'x0', 'y', 'w'][i % 9] + ('' if i < 9 else str(i)),
           'num': lambda i: str(i + 3),
           'key': lambda i: ['node', '1a', 'edge', 'graph', 'doublecircle', 'label', 'push', 'Node', 'digraph', '2_b', 'strict', 'subgraph'][i]}[it['ids']]
    if it['kind'] in ('vpa', 'sevpa'):
        m, st = vbuild(it['g'], ids, it['order'])
        proj = lambda model, states: vproject(model, it['g']['al'], states)
    else:
        c = Coding(it['kind'], it['g']['k'], it['inp'], it['out'])
        m, st = gbuild(it['kind'], it['g'], c, order=it['order'], ids=ids)
        proj = lambda model, states: gproject(it['kind'], model, c, states)
    return m, st, c, proj


def view(model, proj, gids):
    """graph and identifiers, states numbered by position of their identifier in gids (unknown ones last)"""
    ss = real_states(model)
    pos = {x: i for i, x in enumerate(gids or ())}
    lst = sorted(ss, key=lambda s: pos.get(s.state_id, 10 ** 6)) if gids else ss
    return proj(model, lst), [enc_out(s.state_id) for s in lst], lst


def mutate_model(rng, kind, m):
    """change everything about a model: outputs, transitions, initial state, list of states"""
    ss = list(m.states)
    for s in ss:
        if hasattr(s, 'is_accepting') and kind in ('dfa', 'vpa', 'sevpa'):
            s.is_accepting = not s.is_accepting
        elif hasattr(s, 'output') and kind != 'dfa':
            s.output = 'changed'
        if hasattr(s, 'output_fun'):
            for x in s.output_fun:
                s.output_fun[x] = 'changed'
        if isinstance(s.transitions, dict):
            for x in list(s.transitions):
                v = s.transitions[x]
                if isinstance(v, list):
                    for t in v:
                        if hasattr(t, 'target_state'):
                            t.target_state = ss[0]; t.stack_guard = 'changed'
                    v.append(v[0]) if v else None
                else:
                    s.transitions[x] = ss[0]
            if rng.random() < .5:
                s.transitions.clear()
        else:
            s.transitions.clear()
    m.states.reverse()
    m.initial_state = m.states[0]
    m.states.pop()


def run_save(it):
    import random as R
    from aalpy.utils import save_automaton_to_file, load_automaton_from_file
    R.seed(it['seed'])
    tmp = tempfile.mkdtemp(prefix='verif_save_')
    cwd = os.getcwd()
    try:
        os.chdir(tmp)

        def f():
            m, st, c, proj = make_model(it)
            ids0 = [s.state_id for s in real_states(m)]
            g, gids, lst = view(m, proj, None)
            path = os.path.join(tmp, 'model')
            how = it['how']
            if how == 'method':
                m.save(path)
            elif how == 'func':
                save_automaton_to_file(m, path=path, file_type='dot', display_same_state_trans=it['loops'])
            elif how == 'path':
                from pathlib import Path
                save_automaton_to_file(m, Path(path))
            else:
                open(path + '.dot', 'w').write(save_automaton_to_file(m, path=path, file_type='string'))
            after, afterids, _ = view(m, proj, None)
            L = load_automaton_from_file(path + '.dot', automaton_type=it['kind'], compute_prefixes=it['pref'])
            h, hids, hl = view(L, proj, ids0)
            det = it['kind'] in DETERMINISTIC
            return {'cls': type(L) is type(m), 'g': g, 'gids': gids, 'after': after, 'afterids': afterids, 'h': h, 'hids': hids,
                    'shared': 0, 'cur': g['init'] if it['kind'] in ('vpa', 'sevpa') else next((i for i, s in enumerate(hl, 1) if s is L.current_state), 0),
                    'wantpref': det and it['pref'], 'm': project_part(L, c, hl) if det else g, 'pref': [word(c, s.prefix) for s in hl] if det else [],
                    'haslate': False, 'late': g}
        return {'calls': [guard(f, e='save')]}
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def project_part(model, c, lst):
    m = project(model, c)
    order = {id(s): i for i, s in enumerate(lst)}
    perm = [order.get(id(s), 0) for s in model.states]      # model position -> position in lst
    d = [None] * m['n']; o = [None] * m['n']
    for i, p in enumerate(perm):
        d[p] = [(perm[t - 1] + 1 if t > 0 else t) for t in m['d'][i]]; o[p] = m['o'][i]
    return {**m, 'd': d, 'o': o, 'init': perm[m['init'] - 1] + 1 if m['init'] else 0}


def run_copy(it):
    import random as R, pickle as P, copy as CP
    R.seed(it['seed'])
    rng = R.Random(it['seed'])
    calls = []

    def f(how):
        m, st, c, proj = make_model(it)
        ids0 = [s.state_id for s in real_states(m)]
        g, gids, lst = view(m, proj, None)
        if how == 'copy':
            x = m.copy()
        elif how == 'setup':
            setup = m.to_state_setup()
            x = type(m).from_state_setup(setup)
            if rng.random() < .5:
                x = type(m).from_state_setup(setup)       # a setup can be used again
        elif how == 'twice':
            x = m.copy().copy()
        elif how == 'deepcopy':
            x = CP.deepcopy(m)
        else:
            x = P.loads(P.dumps(m, protocol=rng.choice((2, 4))))
        after, afterids, _ = view(m, proj, None)
        h, hids, hl = view(x, proj, ids0)
        own = {id(s) for s in real_states(m)}
        shared = sum(id(s) in own for s in x.states)
        cur = next((i for i, s in enumerate(hl, 1) if s is x.current_state), 0) if it['kind'] not in ('vpa', 'sevpa') else g['init']
        cls = type(x) is type(m)
        who = rng.random() < .5                            # change the copy, look at the original, or the other way round
        if who:
            mutate_model(rng, it['kind'], x)
            late = proj(m, lst)
        else:
            mutate_model(rng, it['kind'], m)
            late = proj(x, hl)
        return {'cls': cls, 'g': g, 'gids': gids, 'after': after, 'afterids': afterids, 'h': h, 'hids': hids, 'shared': shared, 'cur': cur,
                'wantpref': False, 'm': g, 'pref': [], 'haslate': True, 'late': late, 'how': how}
    for how in it['hows']:
        calls.append(guard(lambda: f(how), e='copy', how=how))
    return {'calls': calls}


def judge_persist(ctx, items, fn, name):
    res = pmap(fn, items)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        metas.append({**it, 'outcome': r[0]})
        cases.append(r[1] if r[0] == 'ok' else {'calls': [{'err': {'hang': 'NoResult'}.get(r[0], 'Crash'), 'detail': r[1]}]})
    return ctx.judge('TracePersist', cases, metas, 'SPECIFICATION TraceSpec\n', name=name, sig=lambda m: m['kind'], chunk=3000)


def model_items(rng, kinds, count, inps, outs):
    for _ in range(count):
        for kind in kinds:
            if kind in ('vpa', 'sevpa'):
                g = random_vpa(rng, rng.choice(('word', 'paren', 'num', 'nums', 'key')), kind == 'sevpa')
            else:
                n, k = rng.choice((1, 2, 3, 5, 11)), rng.choice((1, 2, 3))
                g = random_graph(rng, kind, n, k, 2 if kind == 'dfa' else rng.choice((1, 2, 3)), partial=rng.choice((0, 0, .3)),
                                 observable=rng.random() < .7, reach=rng.random() < .8)
                g['init'] = rng.randrange(1, n + 1)
            n = g['n']
            order = list(range(n))
            if rng.random() < .7:
                rng.shuffle(order)
            yield {'kind': kind, 'g': g, 'n': n, 'inp': rng.choice(inps), 'out': rng.choice([o for o in outs if not (kind in ('mdp', 'mc') and o == 'int')]),
                   'order': order, 'ids': rng.choice(('s', 'rev', 'odd', 'num', 'key')), 'seed': rng.randrange(1 << 30)}
