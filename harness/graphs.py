"""Models of every transition-graph class: building them from specification graphs with the public
constructors and reading graphs off models through their public attributes (see spec/Graph.tla)."""
from common import *

LABELLED = ('dfa', 'moore', 'ndmoore', 'mdp', 'mc')
DETERMINISTIC = ('dfa', 'moore', 'mealy')
NONE = 'noinput'


def classes(kind):
    import aalpy.automata as A
    from aalpy.automata.NonDeterministicMooreMachine import NDMooreMachine, NDMooreState
    return {'dfa': (A.Dfa, A.DfaState), 'moore': (A.MooreMachine, A.MooreState), 'mealy': (A.MealyMachine, A.MealyState),
            'onfsm': (A.Onfsm, A.OnfsmState), 'ndmoore': (NDMooreMachine, NDMooreState), 'mdp': (A.Mdp, A.MdpState),
            'smm': (A.StochasticMealyMachine, A.StochasticMealyState), 'mc': (A.MarkovChain, A.McState)}[kind]


def edge(s, a, o, t, pr=1.0):
    return {'s': s, 'a': a, 'o': o, 't': t, 'p': int(round(pr * 10 ** 6)) if pr < 1 else int(round(pr * 10 ** 6)), 'pr': repr(float(pr))}


def random_graph(rng, kind, n, k, o, partial=0.0, observable=True, reach=True):
    """graph with raw outputs '0'..; every state reachable when reach"""
    lab = [str(rng.randrange(o)) for _ in range(n)] if kind in LABELLED else [''] * n
    kk = 1 if kind == 'mc' else k
    order = list(range(2, n + 1))
    tree = {}
    if reach:
        avail = [(1, a) for a in range(1, kk + 1)]
        for t in order:
            s, a = avail.pop(rng.randrange(len(avail))) if avail else (rng.randrange(1, t), rng.randrange(1, kk + 1))
            tree.setdefault((s, a), []).append(t)
            if kind not in DETERMINISTIC and rng.random() < .3:
                avail.append((s, a))
            avail += [(t, b) for b in range(1, kk + 1)]
    tr = []
    for s in range(1, n + 1):
        for a in range(1, kk + 1):
            ts = list(tree.get((s, a), []))
            if kind in DETERMINISTIC:
                ts = ts[:1]
                if not ts and rng.random() >= partial:
                    ts = [rng.randrange(1, n + 1)]
            elif not ts or rng.random() < .6:
                if ts or rng.random() >= partial:
                    for _ in range(rng.choice((1, 1, 2, 3))):
                        t = rng.randrange(1, n + 1)
                        if t not in ts:
                            ts.append(t)
            if not ts:
                continue
            es, used = [], set()
            for t in ts:
                if kind in LABELLED:
                    out = lab[t - 1]
                else:
                    out = str(rng.randrange(o))
                    if observable and out in used:
                        free = [str(x) for x in range(o + 12) if str(x) not in used]
                        out = free[0]
                if kind in LABELLED and observable and out in used and (s, a) not in tree:
                    continue
                used.add(out)
                es.append((out, t))
            ps = probs(rng, len(es)) if kind in ('mdp', 'smm', 'mc') else [1.0] * len(es)
            tr += [edge(s, a, x, t, p) for (x, t), p in zip(es, ps)]
    return {'n': n, 'init': 1, 'lab': lab, 'eps': kind in ('dfa', 'moore', 'mdp'), 'tr': tr, 'k': kk}


def probs(rng, m):
    if m == 1:
        return [1.0]
    w = [rng.randrange(1, 6) for _ in range(m)]
    if rng.random() < .4:
        s = sum(w)
        return [x / s for x in w]
    cuts = sorted(rng.sample(range(1, 10), m - 1))
    return [round((b - a) / 10, 10) for a, b in zip([0] + cuts, cuts + [10])]


def from_fsm(m):
    """deterministic machine (common.mk) as a graph"""
    tr = []
    for s in range(1, m['n'] + 1):
        for a in range(1, m['k'] + 1):
            t = m['d'][s - 1][a - 1]
            if t > 0:
                tr.append(edge(s, a, m['o'][s - 1][a - 1] if m['mealy'] else m['o'][t - 1], t))
    return {'n': m['n'], 'init': m['init'], 'lab': [''] * m['n'] if m['mealy'] else list(m['o']), 'eps': not m['mealy'],
            'tr': tr, 'k': m['k']}


def gspec(g, c):
    """graph with outputs encoded as projections of the real values"""
    e = lambda o: enc_out(c.g(o))
    r = dict(g)
    r['lab'] = [e(x) if x != '' else '' for x in g['lab']]
    r['tr'] = [{**t, 'o': e(t['o'])} for t in g['tr']]
    return r


def gbuild(kind, g, c, order=None, ids=None):
    """returns (model, states) with states[i-1] the object for specification state i"""
    M, S = classes(kind)
    sid = ids or (lambda i: f's{i}')
    lab = [c.g(x) if x != '' else None for x in g['lab']]
    st = [S(sid(i), lab[i]) if kind in LABELLED else S(sid(i)) for i in range(g['n'])]
    for t in g['tr']:
        s, a, tgt = st[t['s'] - 1], c.alphabet[t['a'] - 1], st[t['t'] - 1]
        o, p = c.g(t['o']), float(t['pr'])
        if kind in ('dfa', 'moore'):
            s.transitions[a] = tgt
        elif kind == 'mealy':
            s.transitions[a] = tgt; s.output_fun[a] = o
        elif kind == 'onfsm':
            s.transitions[a].append((o, tgt))
        elif kind == 'ndmoore':
            s.transitions[a].append(tgt)
        elif kind == 'mdp':
            s.transitions[a].append((tgt, p))
        elif kind == 'smm':
            s.transitions[a].append((tgt, o, p))
        elif kind == 'mc':
            s.transitions.append((tgt, p))
    lst = [st[i] for i in order] if order else list(st)
    return M(st[g['init'] - 1], lst), st


def gproject(kind, model, c, states=None, enc=enc_out, letter=None):
    """graph read off a model; states fixes the numbering (default: the model's own list)"""
    lst = list(states if states is not None else model.states)
    idx = {id(s): i + 1 for i, s in enumerate(lst)}
    letter = letter or (lambda x: c.letter(x) or 99)
    tr = []
    for i, s in enumerate(lst, 1):
        if kind == 'mc':
            for t, p in s.transitions:
                tr.append(edge(i, 1, enc(t.output), idx.get(id(t), -1), p))
            continue
        for x, v in list(s.transitions.items()):
            a = letter(x)
            if kind in ('dfa', 'moore'):
                tr.append(edge(i, a, enc(v.is_accepting if kind == 'dfa' else v.output), idx.get(id(v), -1)))
            elif kind == 'mealy':
                tr.append(edge(i, a, enc(s.output_fun[x]) if x in s.output_fun else 'missing', idx.get(id(v), -1)))
            elif kind == 'onfsm':
                tr += [edge(i, a, enc(o), idx.get(id(t), -1)) for o, t in v]
            elif kind == 'ndmoore':
                tr += [edge(i, a, enc(t.output), idx.get(id(t), -1)) for t in v]
            elif kind == 'mdp':
                tr += [edge(i, a, enc(t.output), idx.get(id(t), -1), p) for t, p in v]
            elif kind == 'smm':
                tr += [edge(i, a, enc(o), idx.get(id(t), -1), p) for t, o, p in v]
        if kind == 'mealy' and any(x not in s.transitions for x in s.output_fun):
            tr.append(edge(i, 99, 'stray output', -1))
    if kind == 'dfa':
        lab = [enc(s.is_accepting) for s in lst]
    elif kind in LABELLED:
        lab = [enc(s.output) for s in lst]
    else:
        lab = [''] * len(lst)
    extra = [s for s in model.states if id(s) not in idx]
    return {'n': len(lst) + len(extra), 'init': idx.get(id(model.initial_state), 0), 'lab': lab,
            'eps': kind in ('dfa', 'moore', 'mdp'), 'tr': tr, 'k': len(c.alphabet)}


def known_inputs(kind, c, states):
    """pairs of state and input that the model says are defined"""
    return [] if kind == 'mc' else [[i, c.letter(x) or 99] for i, s in enumerate(states, 1) for x in s.transitions]


def letters(c, k):
    """concrete letter for a specification letter; 0 no input, k+1 an input no state knows"""
    return lambda a: None if a == 0 else c.alphabet[a - 1] if a <= k else 'no such input'


def run_ops(it):
    """replay operations on a model of the given kind; returns a TraceRun case"""
    import random as R
    R.seed(it['seed'])
    kind, g = it['kind'], it['g']
    c = Coding(kind, g['k'], it['inp'], it['out'])
    model, st = gbuild(kind, g, c, order=it.get('order'), ids=it.get('ids'))
    idx = {id(s): i + 1 for i, s in enumerate(st)}
    let = letters(c, g['k'])
    if kind == 'mc':
        let = lambda a: None
    where = lambda: idx.get(id(model.current_state), 0)
    ev = []
    for op in it['ops']:
        k, s, w = op['op'], op['s'], op['w']
        e = {'op': k, 's': s, 'w': w, 'err': False, 'outs': [], 'cur': 0}
        cw = [let(a) for a in w]
        if k in ('look', 'exec') and op.get('tup'):
            cw = tuple(cw)
        try:
            if k == 'reset':
                model.reset_to_initial()
            elif k == 'step':
                e['outs'] = [enc_out(model.step(cw[0]))]
            elif k == 'peek':
                e['outs'] = [enc_out(model.output_step(st[s - 1], cw[0]))]
            elif k == 'look':
                e['outs'] = [enc_out(x) for x in model.compute_output_seq(st[s - 1], cw)]
            elif k == 'exec':
                e['outs'] = [enc_out(x) for x in model.execute_sequence(st[s - 1], cw)]
            elif k == 'stepto':
                o = c.g(op['o']) if op['o'] != 'nope' else 'no such output'
                r = model.step_to(o) if kind == 'mc' else model.step_to(cw[0], o)
                e.update(o=enc_out(o), none=r is None, outs=[] if r is None else [enc_out(r)])
            elif k == 'lookup':
                r = st[s - 1].get_transition(cw[0]) if op['o'] == 'any' else \
                    st[s - 1].get_transition(cw[0], c.g(op['o']) if op['o'] != 'nope' else 'no such output')
                r = r if op['o'] == 'any' else [] if r is None else [r]
                e.update(o='any' if op['o'] == 'any' else enc_out(c.g(op['o'])) if op['o'] != 'nope' else 'nope',
                         res=[[enc_out(x), idx.get(id(t), 0)] for x, t in r])
            elif k == 'offers':
                e['outs'] = [enc_out(x) for x in model.outputs_on_input(cw[0])]
            elif k == 'sample':
                res = []
                for _ in range(op['n']):
                    model.current_state = st[s - 1]
                    o = model.step(cw[0])
                    res.append((enc_out(o), where()))
                cnt = collections.Counter(res)
                e['res'] = [list(x) for x in sorted(cnt)]
                e.update(cnt=[cnt[x] for x in sorted(cnt)], n=op['n'], weighted=bool(op.get('weighted')))
        except Exception as x:
            e['err'] = True
            if k in ('stepto', 'offers', 'sample', 'reset', 'lookup'):
                e = {'op': 'fail', 'what': f'{k}Error:' + type(x).__name__}
        if e['op'] != 'fail':
            e['cur'] = where()
        ev.append(e)
    ev.append({'op': 'end', 'g': gproject(kind, model, c, st), 'known': known_inputs(kind, c, st), 'mc': kind == 'mc'})
    return {'g': {**gspec(g, c), 'absorb': kind == 'mc'}, 'ev': ev}


def judge_ops(ctx, items, name):
    res = pmap(run_ops, items)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        metas.append(it)
        cases.append(r[1] if r[0] == 'ok' else {'g': it['g'], 'ev': [{'op': 'fail', 'what': 'RunRaised'}]})
        if r[0] != 'ok':
            metas[-1] = {**it, 'outcome': r}
    return ctx.judge('TraceRun', cases, metas, 'SPECIFICATION TraceSpec\n', name=name,
                     sig=lambda m: m['kind'], chunk=4000)
