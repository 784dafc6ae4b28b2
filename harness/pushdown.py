"""Visibly pushdown systems (spec/Pushdown.tla): building models, running operations, learning."""
from persist import *


def pspec(v, al_codes=None):
    """specification of a random_vpa description; letters are 1-based positions in its alphabet"""
    ni, nc, nr = v['ncalls']
    e = []
    for s, a, act, g, t in v['e']:
        gs, gc = (0, 0) if act is None else (g[0], g[1] + 1) if v['sevpa'] else (0, g + 1)
        e.append({'s': s, 'a': a + 1, 't': t, 'gs': gs, 'gc': gc})
    return tables({'n': v['n'], 'init': v['init'], 'acc': list(v['acc']), 'ni': ni, 'nc': nc, 'nr': nr, 'sevpa': v['sevpa'], 'e': e})


def tables(g):
    """the transitions as tables (a duplicated transition is noticed by the specification, as tables and list differ)"""
    n, ni, nc, nr = g['n'], g['ni'], g['nc'], g['nr']
    g['ti'] = [[0] * ni for _ in range(n)]
    g['tc'] = [[[0, 0] for _ in range(nc)] for _ in range(n)]
    g['tr'] = [[[0] * (n * nc if g['sevpa'] else nc) for _ in range(nr)] for _ in range(n)]
    for x in reversed(g['e']):
        a = x['a']
        if not (1 <= x['t'] <= n):
            continue
        if 1 <= a <= ni:
            g['ti'][x['s'] - 1][a - 1] = x['t']
        elif ni < a <= ni + nc:
            g['tc'][x['s'] - 1][a - ni - 1] = [x['t'], x['gc']]
        elif ni + nc < a <= ni + nc + nr and ni < x['gc'] <= ni + nc and x['gs'] in range(1 if g['sevpa'] else 0, n + 1 if g['sevpa'] else 1):
            g['tr'][x['s'] - 1][a - ni - nc - 1][((x['gs'] - 1) * nc if g['sevpa'] else 0) + x['gc'] - ni - 1] = x['t']
    return g


def pproject(model, al, ncalls, sevpa, raw=False):
    """read the structure off a model (Vpa or Sevpa) through its public attributes"""
    ni, nc, nr = ncalls
    lst = real_states(model)
    idx = {id(s): i + 1 for i, s in enumerate(lst)}
    byid = {s.state_id: i + 1 for i, s in enumerate(lst)}
    pos = lambda x: al.index(x) + 1 if x in al else 99
    e = []
    for i, s in enumerate(lst, 1):
        for x, ts in list(s.transitions.items()):
            for t in ts:
                g = t.stack_guard
                gs, gc = (0, 0) if t.action is None else (byid.get(g[0], 98), pos(g[1])) if sevpa else (0, pos(g))
                a = pos(t.letter)
                want = None if a <= ni else 'push' if a <= ni + nc else 'pop'
                if x != t.letter or t.action != want:
                    a = 99
                if t.target_state.state_id == SINK:
                    continue
                e.append({'s': i, 'a': a, 't': idx.get(id(t.target_state), 97), 'gs': gs, 'gc': gc})
    return {'n': len(lst), 'init': idx.get(id(model.initial_state), 0), 'acc': [bool(s.is_accepting) for s in lst],
            'ni': ni, 'nc': nc, 'nr': nr, 'sevpa': sevpa, 'e': e} if raw else \
        tables({'n': len(lst), 'init': idx.get(id(model.initial_state), 0), 'acc': [bool(s.is_accepting) for s in lst],
                'ni': ni, 'nc': nc, 'nr': nr, 'sevpa': sevpa, 'e': e})


class PSim:
    """reference run used to drive systems under learning (mirrors Pushdown.tla, which judges the results)"""
    def __init__(self, g):
        self.g = g
        self.t = {}
        for x in g['e']:
            self.t.setdefault((x['s'], x['a'], x['gs'], x['gc']) if x['a'] > g['ni'] + g['nc'] else (x['s'], x['a']), x)

    def kind(self, a):
        g = self.g
        return 0 if a <= g['ni'] else 1 if a <= g['ni'] + g['nc'] else 2

    def call(self, s, a):
        if s == 0:
            return 0, (0, 0)
        if self.g['sevpa']:
            return self.g['init'], (s, a)
        x = self.t.get((s, a))
        return (x['t'], (0, x['gc'])) if x else (0, (0, 0))

    def ret(self, s, a, sym):
        x = self.t.get((s, a) + tuple(sym)) if s else None
        return x['t'] if x else 0

    def internal(self, s, a):
        x = self.t.get((s, a)) if s else None
        return x['t'] if x else 0

    def start(self):
        return (self.g['init'], ())

    def move(self, c, a):
        s, st = c
        if s == 0:
            return (0, ())
        k = self.kind(a)
        if k == 1:
            t, sym = self.call(s, a)
            return (t, st + (sym,)) if t else (0, ())
        if k == 2:
            t = self.ret(s, a, st[-1]) if st else 0
            return (t, st[:-1]) if t else (0, ())
        t = self.internal(s, a)
        return (t, st) if t else (0, ())

    def acc(self, c):
        return c[0] != 0 and not c[1] and self.g['acc'][c[0] - 1]


def balanced_words(g, h, rng=None):
    """word on which two systems differ, None if there is none (least fixpoint with witnesses)"""
    G, H = PSim(g), PSim(h)
    ni, nc, nr = g['ni'], g['nc'], g['nr']
    ints, calls, rets = range(1, ni + 1), range(ni + 1, ni + nc + 1), range(ni + nc + 1, ni + nc + nr + 1)
    if rng:
        ints, calls, rets = (rng.sample(list(x), len(x)) for x in (ints, calls, rets))
    e0 = (g['init'], h['init'])
    best = {(e0, e0): ()}
    changed = True
    while changed:
        changed = False
        for (e, c), w in list(best.items()):
            new = [((e, (G.internal(c[0], a), H.internal(c[1], a))), w + (a,)) for a in ints]
            for a in calls:
                x, y = G.call(c[0], a), H.call(c[1], a)
                f = (x[0], y[0])
                new.append(((f, f), ()))
                for (e2, d), w2 in list(best.items()):
                    if e2 == f:
                        for b in rets:
                            new.append(((e, (G.ret(d[0], b, x[1]), H.ret(d[1], b, y[1]))), w + (a,) + w2 + (b,)))
            for k, v in new:
                if k not in best or len(best[k]) > len(v):
                    best[k] = v; changed = True
    A = lambda g, s: s != 0 and g['acc'][s - 1]
    diff = [w for (e, c), w in best.items() if e == e0 and A(g, c[0]) != A(h, c[1])]
    return min(diff, key=len) if diff else None


def random_cex(g, h, rng, tries, length):
    G, H = PSim(g), PSim(h)
    L = g['ni'] + g['nc'] + g['nr']
    for _ in range(tries):
        c, d, w = G.start(), H.start(), []
        for _ in range(rng.randrange(1, length)):
            a = rng.randrange(1, L + 1)
            if G.move(c, a)[0] == 0 and rng.random() < .8:
                continue
            c, d = G.move(c, a), H.move(d, a)
            w.append(a)
            if G.acc(c) != H.acc(d):
                return tuple(w)
    return None


def pwords(rng, v, maxlen):
    """a word that mostly follows the model"""
    g = pspec(v)
    S = PSim(g)
    L = len(v['al'])
    c, w = S.start(), []
    for _ in range(rng.randrange(0, maxlen + 1)):
        a = rng.randrange(1, L + 1)
        for _ in range(6):
            if S.move(c, a)[0]:
                break
            a = rng.randrange(1, L + 1)
        c = S.move(c, a)
        w.append(a)
    return w


def run_pushdown(it):
    import random as R
    R.seed(it['seed'])
    v = it['g']
    ids = lambda i: f's{i}' if it['ids'] == 's' else f'n{v["n"] - i}'
    m, st = vbuild(v, ids, it['order'])
    al, g = v['al'], pspec(v)
    let = lambda a: None if a == 0 else al[a - 1] if a <= len(al) else 'no such letter'
    idx = {id(s): i + 1 for i, s in enumerate(st)}
    ev = []
    used = lambda act: sorted({(g['e'][i]['gc'] if v['sevpa'] and act == 'push' else x[1] + 1) for i, x in enumerate(v['e'])
                               if x[2] == ('pop' if v['sevpa'] else act)}) if act == 'push' else \
        sorted({x[1] + 1 for x in v['e'] if x[2] == 'pop'})
    for op in it['ops']:
        k = op['op']
        e = {'op': k, 'err': False}
        try:
            if k == 'reset':
                m.reset_to_initial(); e['cur'] = idx.get(id(m.current_state), 0)
            elif k == 'step':
                e.update(a=op['a'], out=False, cur=0)
                o = m.step(let(op['a']))
                e.update(out=bool(o), cur=-1 if getattr(m, 'error_state_reached', False) else idx.get(id(m.current_state), 0))
            elif k == 'query':
                from aalpy.SULs import AutomatonSUL
                e.update(w=op['w'], outs=[])
                o = AutomatonSUL(m).query(tuple(let(a) for a in op['w']))
                e['outs'] = [bool(x) for x in o]
            elif k == 'exec':
                e.update(w=op['w'], outs=[])
                e['outs'] = [bool(x) for x in m.execute_sequence(m.initial_state, [let(a) for a in op['w']])]
            elif k == 'words':
                e.update(ws=[], min=op['min'], max=op['max'], count=0, must='name' in v)
                if op['how'] == 'bfs':
                    ws = m.get_accepting_words_bfs(op['min'], op['count']) or []; e['count'] = op['count'] if ws or 'name' in v else 0
                elif op['how'] == 'random':
                    ws = [m.get_random_accepting_word(*op['args'])]
                else:
                    x = m.generate_random_accepting_word(op['min'], op['max'])
                    ws = [] if x is None else [x]
                e['ws'] = [[al.index(x) + 1 if x in al else 99 for x in w] for w in ws]
            elif k == 'balance':
                from aalpy.utils.HelperFunctions import is_balanced
                e.update(w=op['w'])
                w = [let(a) for a in op['w']]
                w = tuple(w) if op['how'] == 'tuple' else w
                ni, nc, nr = v['ncalls']
                if op['via'] == 'model':
                    e.update(calls=used('push'), rets=used('pop'), out=bool(m.is_balanced(w)))
                else:
                    from aalpy.automata import VpaAlphabet, SevpaAlphabet
                    A = (SevpaAlphabet if v['sevpa'] else VpaAlphabet)(al[:ni], al[ni:ni + nc], al[ni + nc:])
                    e.update(calls=list(range(ni + 1, ni + nc + 1)), rets=list(range(ni + nc + 1, ni + nc + nr + 1)), out=bool(is_balanced(w, A)))
        except Exception as x:
            e.update(err=True, detail=repr(x)[:200])
            if k == 'reset':
                e = {'op': 'fail', 'what': 'ResetFailed'}
            if k == 'balance':
                e.update(calls=[], rets=[], out=False)
        ev.append(e)
    try:
        ev.append({'op': 'end', 'g': {**pproject_as(m, st, v), 'acc': [bool(s.is_accepting) for s in st]}})
    except Exception as x:
        ev.append({'op': 'fail', 'what': 'ModelNotReadable'})
    return {'g': norm(g), 'ev': ev}


def norm(g):
    return {**g, 'e': sorted(g['e'], key=lambda x: (x['s'], x['a'], x['gs'], x['gc'], x['t']))}


def pproject_as(m, st, v):
    """structure with the numbering of st"""
    class View:
        pass
    x = View()
    x.states, x.initial_state = st, m.initial_state
    return norm(pproject(x, v['al'], v['ncalls'], v['sevpa'], raw=True))


def judge_pushdown(ctx, items, name, timeout=20):
    res = pmap(run_pushdown, items, timeout=timeout, max_hangs=10 ** 6 if name == 'accepting words' else 3)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip' or (r[0] == 'hang' and it.get('may_hang')):
            continue
        metas.append(it if r[0] == 'ok' else {**it, 'outcome': r})
        cases.append(r[1] if r[0] == 'ok' else {'g': norm(pspec(it['g'])), 'ev': [{'op': 'fail', 'what': 'RunRaised' if r[0] != 'hang' else 'NoResult'}]})
    return ctx.judge('TracePushdown', cases, metas, 'SPECIFICATION TraceSpec\n', name=name,
                     sig=lambda m: 'sevpa' if m['g']['sevpa'] else 'vpa', chunk=3000)
