"""Adaptive L# looked at from inside: the match table against the observation tree (spec/Matching.tla)."""
import adaptive as A
import learnrun as L
from convert import *


def value(kind, q):
    return q.is_accepting if kind == 'dfa' else q.output


class Codes:
    """outputs as strings, equal iff equal in the code"""
    def __init__(self):
        self.m = {}

    def __call__(self, v):
        return self.m.setdefault(v, f'v{len(self.m)}')


def of_model(kind, states, alphabet, code):
    """the transitions on the learner's letters; 0: none"""
    no = {id(s): i + 1 for i, s in enumerate(states)}
    d = [[no[id(s.transitions[a])] if a in s.transitions else 0 for a in alphabet] for s in states]
    if kind == 'mealy':
        o = [[code(s.output_fun[a]) if a in s.transitions else '' for a in alphabet] for s in states]
    else:
        o = [code(value(kind, s)) for s in states]
    return {'d': d, 'o': o}


def of_tree(kind, root, alphabet, code):
    par, inp, out, no = [], [], [], {}
    todo = [(0, 0, root, '' if kind == 'mealy' else code(root.output))]
    while todo:
        p, a, node, o = todo.pop()
        par.append(p); inp.append(a); out.append(o)
        no[id(node)] = me = len(par)
        for x, s in node.successors.items():
            t = s[1] if kind == 'mealy' else s
            todo.append((me, alphabet.index(x) + 1, t, code(s[0]) if kind == 'mealy' else code(t.output)))
    return {'par': par, 'inp': inp, 'out': out}, no


def snapshot(kind, tree, alphabet, code):
    m = tree.state_matcher
    states = list(tree.combined_model.states)
    at = {id(s): i + 1 for i, s in enumerate(states)}
    t, no = of_tree(kind, tree.root, alphabet, code)
    total = tree.state_matching == 'Total'
    basis, missing = [], False
    for b in tree.basis:
        if b not in m.matchings or any(q not in m.matchings[b] for q in states):
            missing = True
            continue
        row = [m.matchings[b][q] for q in states]
        basis.append({'node': no[id(b)], 'score': [[int(x), 0] if total else [int(x[0]), int(x[1])] for x in row],
                      'best': sorted(at.get(id(q), 0) for q in m.best_match.get(b, []))})
    return {'e': 'match', 'err': '', 't': t, 'r': of_model(kind, states, alphabet, code), 'mealy': kind == 'mealy', 'total': total, 'basis': basis, 'missing': missing}


def watch(item):
    """one run of adaptive L#; the calls to judge"""
    import aalpy.learning_algs.adaptive.AdaptiveLSharp as M
    kind, cfg = item['kind'], item['cfg']
    calls, seen, code = [], {}, Codes()
    original = M.AdaptiveObservationTree

    class Watched(original):
        def __init__(self, alphabet, sul, references, *a, **kw):
            seen['alphabet'] = list(alphabet)
            seen['refs'] = list(references)
            super().__init__(alphabet, sul, references, *a, **kw)
            seen['tree'] = self
            seen['first'] = len(self.basis)
            seen['usable'] = bool(getattr(self, 'combined_model', None))
            seen['rebuilt'] = self.rebuild_states

        def build_hypothesis(self):
            h = super().build_hypothesis()
            if self.state_matching:
                if len(calls) < 12:
                    calls.append(snapshot(kind, self, seen['alphabet'], code))
            seen['size'] = len(self.basis)
            return h
    res = {}

    def adapter(cfg, coding, sul, teacher):
        model, info = A.run_adaptive(item['refs'])(cfg, coding, sul, teacher)
        res['info'] = info
        return model, info
    M.AdaptiveObservationTree = Watched
    try:
        L.record_run(item, adapter=adapter)
    except AttributeError as x:
        if 'matcher' in str(x) or 'matchings' in str(x) or 'best_match' in str(x):
            return []        # the bookkeeping is kept elsewhere: nothing to look at
        raise
    finally:
        M.AdaptiveObservationTree = original
    al = seen['alphabet']
    if seen['usable']:
        refs = []
        for r in seen['refs']:
            refs.append({'usable': any(a in s.transitions for s in r.states for a in al), **of_model(kind, r.states, al, code)})
        calls.append({'e': 'refs', 'err': '', 'mealy': kind == 'mealy', 'refs': refs, 'r': of_model(kind, list(seen['tree'].combined_model.states), al, code)})
        info = res['info']
        calls.append({'e': 'info', 'err': '', 'rebuilding': bool(cfg['rebuilding']), 'rebuilt': info.get('rebuild_states', 0), 'first': seen['first'],
                      'type': str(info.get('matching_type')), 'want': str(cfg['state_matching']), 'matched': info.get('matching_states', 0), 'size': seen['size'],
                      'rounds': info['learning_rounds'], 'same': bool(item['same']), 'mealy': kind == 'mealy',
                      't': {'d': item['m']['d'], 'o': item['m']['o']}})
    return calls
