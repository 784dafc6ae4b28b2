"""L# looked at from inside: observation tree, basis and model at every presentation (spec/Sharp.tla)."""
import adaptive as A
import learnrun as L
from convert import *



class Trees:
    """observation trees numbered in order of first sight; parents first"""
    def __init__(self, kind, alphabet, code):
        self.kind, self.alphabet, self.code = kind, alphabet, code

    def look(self, root):
        mealy = self.kind == 'mealy'
        par, inp, out, kid, no, words = [0], [0], ['' if mealy else self.code(root.output)], [], {id(root): 1}, [()]
        todo, i = [root], 0
        while i < len(todo):
            node = todo[i]; i += 1
            row = [0] * len(self.alphabet)
            for x, s in node.successors.items():
                a = self.alphabet.index(x) + 1
                t = s[1] if mealy else s
                par.append(i); inp.append(a); out.append(self.code(s[0]) if mealy else self.code(t.output))
                words.append(words[i - 1] + (a,))
                todo.append(t)
                no[id(t)] = row[a - 1] = len(todo)
            kid.append(row)
        return {'par': par, 'inp': inp, 'out': out, 'kid': kid}, no, words


def of_hyp(kind, h, alphabet, code):
    at = {id(s): i + 1 for i, s in enumerate(h.states)}
    d = [[at[id(s.transitions[a])] for a in alphabet] for s in h.states]
    if kind == 'mealy':
        o = [[code(s.output_fun[a]) for a in alphabet] for s in h.states]
    else:
        o = [code(s.is_accepting if kind == 'dfa' else s.output) for s in h.states]
    return {'d': d, 'o': o, 'init': at[id(h.initial_state)]}


def watch(item):
    import aalpy.learning_algs.adaptive.AdaptiveLSharp as M1
    import aalpy.learning_algs.deterministic.LSharp as M2
    kind, cfg = item['kind'], item['cfg']
    ad = cfg['alg'] == 'adaptive'
    M, name = (M1, 'AdaptiveObservationTree') if ad else (M2, 'ObservationTree')
    original = getattr(M, name)
    c = Coding(kind, item['m']['k'], item['inp'], item['out'])
    names = {}

    def code(v):
        return names.setdefault(v, f'v{len(names)}')
    m = item['m']
    target = {'d': m['d'], 'init': m['init'], 'o': [[code(c.g(x)) for x in r] for r in m['o']] if m['mealy'] else [code(c.g(x)) for x in m['o']]}
    calls, last = [], {}

    class Watched(original):
        def build_hypothesis(self):
            h = super().build_hypothesis()
            if len(calls) < 24:
                al = list(self.alphabet)
                t, no, words = Trees(kind, al, code).look(self.root)
                basis = [words[no[id(b)] - 1] for b in self.basis]
                if last:
                    calls.append({'e': 'grow', 'err': '', 'before': last['basis'], 'after': basis, 'nodes': [last['n'], len(words)]})
                last.update(basis=basis, n=len(words))
                calls.append({'e': 'look', 'err': '', 'mealy': kind == 'mealy', 't': t, 'm': target, 'basis': [no[id(b)] for b in self.basis], 'h': of_hyp(kind, h, al, code)})
            return h
    setattr(M, name, Watched)
    try:
        if ad:
            L.record_run(item, adapter=A.run_adaptive(item['refs']))
        else:
            L.record_run(item)
    except AttributeError as x:
        if "'basis'" in str(x) or "'successors'" in str(x):
            return []        # kept under other names: nothing to look at
        raise
    finally:
        setattr(M, name, original)
    return calls


def trie(kind, k, root, obs):
    par, inp, out, kid = [0], [0], [root], [[0] * k]
    for w, o in obs:
        n = 1
        for a, v in zip(w, o):
            if not kid[n - 1][a - 1]:
                par.append(n); inp.append(a); out.append(v); kid.append([0] * k)
                kid[n - 1][a - 1] = len(par)
            n = kid[n - 1][a - 1]
    return {'par': par, 'inp': inp, 'out': out, 'kid': kid}


def rows(item):
    """L* and KV: access words against everything the system has answered so far"""
    r = L.record_run(item)
    T, kind, k = r['T'], item['kind'], item['m']['k']
    mealy = kind == 'mealy'
    obs, calls = [], []
    if item['cfg'].get('samples'):
        c = Coding(kind, k, item['inp'], item['out'])
        obs += [(w, [enc_out(x) for x in o]) for w, o in item['cfg']['samples']]
    for e in r['ev']:
        if e['e'] != 'hyp':
            continue
        obs += [(x['w'], x['o']) for x in e['obs']]
        if len(calls) > 12:
            continue
        t = trie(kind, k, '' if mealy else T['o'][T['init'] - 1], obs)
        acc = []
        for p in e['pre']:
            n = 1
            for a in p:
                n = 0 if n == 0 or a == 0 else t['kid'][n - 1][a - 1]
            acc.append(n)
        calls.append({'e': 'rows', 'err': '', 'mealy': mealy, 't': t, 'm': {'d': T['d'], 'o': T['o'], 'init': T['init']}, 'acc': acc, 'h': {'d': e['m']['d']}})
    return calls


def either(item):
    return watch(item) if item['cfg']['alg'] in ('lsharp', 'adaptive') else rows(item)
