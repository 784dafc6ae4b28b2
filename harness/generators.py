"""Drivers for the random model generators (spec/Generator.tla)."""
from pushdown import *
from convert import *


class Names:
    """coding for a given input alphabet; outputs are taken as they are"""
    def __init__(self, kind, alphabet):
        self.kind, self.alphabet = kind, alphabet

    def letter(self, x):
        return next((i + 1 for i, a in enumerate(self.alphabet) if type(a) is type(x) and a == x), None)

    def unword(self, w):
        return [self.letter(x) or 99 for x in w]


def run_gen(it):
    import random as R
    import warnings
    import aalpy.utils as U
    import aalpy.automata as A
    from aalpy.utils import AutomatonGenerators as AG
    R.seed(it['seed'])
    kind, n, k, o = it['kind'], it['n'], it['k'], it['o']
    how = it['how']
    al = [f'i{i + 1}' for i in range(k)]
    outs = [True, False] if kind == 'dfa' else [f'o{i + 1}' for i in range(o)]
    custom = it.get('custom')
    if custom:
        al = [['a', 1, (), 'none', 'i1', 2.5, False][(j + custom) % 7] for j in range(k)]
        if kind != 'dfa':
            outs = [[0, 'x', None, True, 'o1', 2.5, ('y',)][(j + custom) % 7] for j in range(o)]
    al0, outs0 = list(al), list(outs)

    def det():
        kw = {}
        if kind == 'dfa' and it['acc'] >= 0:
            kw['num_accepting_states'] = it['acc']
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            if how == 'generic':
                if custom:
                    kw['custom_input_alphabet'] = al
                    if kind != 'dfa':
                        kw['custom_output_alphabet'] = outs
                if kind != 'dfa' or it['giveout']:
                    kw['output_alphabet_size'] = o
                m = U.generate_random_deterministic_automata(kind, n, k, ensure_minimality=it['ensure'], **kw)
            elif kind == 'dfa':
                m = U.generate_random_dfa(n, al, compute_prefixes=it['pre'], ensure_minimality=it['ensure'], **kw)
            else:
                f = U.generate_random_mealy_machine if kind == 'mealy' else U.generate_random_moore_machine
                m = f(n, al, outs, compute_prefixes=it['pre'], ensure_minimality=it['ensure'])
        c = Names(kind, al0)
        cls = type(m) is {'dfa': A.Dfa, 'moore': A.MooreMachine, 'mealy': A.MealyMachine}[kind] and \
            all(type(s) is {'dfa': A.DfaState, 'moore': A.MooreState, 'mealy': A.MealyState}[kind] for s in m.states)
        acc = -1
        if kind == 'dfa':
            acc = it['acc'] if it['acc'] >= 0 else n // 2 if how == 'generic' else 1 if n > 1 else 0
            if how != 'generic' and acc >= n:
                acc = -1                     # cannot be met by a minimal automaton with more than one state
        return {'m': project(m, c, kind), 'kind': kind, 'cls': cls, 'ids': len({s.state_id for s in m.states}),
                'pre': prefixes(m, c) if it['pre'] and how != 'generic' else [], 'warned': bool(ws), 'kept': al == al0 and outs == outs0,
                'want': {'n': n, 'k': k, 'outs': [enc_out(x) for x in outs0], 'acc': acc, 'minimal': it['minimal'], 'ensure': it['ensure']}}

    def sto():
        ps = [tuple(x) for x in it['dists']] if it.get('dists') else None
        ps0 = list(ps) if ps else None
        kw = {'possible_probabilities': ps} if ps else {}
        if kind == 'mdp':
            m = U.generate_random_mdp(n, k, o, **kw)
        elif kind == 'smm':
            m = U.generate_random_smm(n, k, o, **kw)
        elif kind == 'mc':
            m = U.generate_random_markov_chain(n)
        else:
            m = U.generate_random_ONFSM(n, k, o, **({} if it['alts'] == 0 else {'multiple_out_prob': it['alts'] - 1}))
        c = Names(kind, al)
        M, S = classes(kind)
        cls = type(m) is M and all(type(s) is S for s in m.states)
        e = edge
        return {'g': gproject(kind, m, c, letter=lambda x: c.letter(x) or 99), 'kind': kind, 'cls': cls,
                'ids': len({s.state_id for s in m.states}), 'kept': ps == ps0,
                'want': {'n': n, 'k': 1 if kind == 'mc' else k, 'outs': [enc_out(x) for x in outs], 'alts': it.get('alts', 0),
                         'dists': [[int(round(p * 10 ** 6)) for p in x] for x in ps0] if ps0 else []}}

    def vpa():
        ni, nc, nr = it['al']
        m = U.generate_random_sevpa(n, ni, nc, nr, it['accp'], it['retp'])
        names = [f'i{i}' for i in range(ni)] + [f'c{i}' for i in range(nc)] + [f'r{i}' for i in range(nr)]
        a = m.get_input_alphabet()
        show = lambda x: sorted(str(y) for y in x)
        return {'v': pproject(m, names, (ni, nc, nr), True, raw=True), 'cls': type(m) is A.Sevpa and all(type(s) is A.SevpaState for s in m.states),
                'ids': len({s.state_id for s in m.states}), 'al': [show(a.internal_alphabet), show(a.call_alphabet), show(a.return_alphabet)],
                'want': {'n': n, 'accp': {0: 0, 1: 1}.get(it['accp'], 2), 'al': [show(names[:ni]), show(names[ni:ni + nc]), show(names[ni + nc:])]}}
    e = it['what']
    return [guard({'det': det, 'sto': sto, 'vpa': vpa}[e], e=e)]
