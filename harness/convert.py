"""Drivers for conversions between model classes (spec/Convert.tla)."""
import re
from algos import *


def judge_calls(ctx, module, op, items, fn, name, sig=None, timeout=40, chunk=2000, env=None):
    """run fn on every item; fn returns a list of recorded calls; TLC judges them with operator op"""
    res = pmap(fn, items, timeout=timeout)
    cases, metas = [], []
    for it, r in zip(items, res):
        if r[0] == 'skip':
            continue
        metas.append({**it, 'outcome': r[0]})
        cases.append({'calls': r[1]} if r[0] == 'ok' else
                     {'calls': [{'err': {'hang': 'NoResult'}.get(r[0], 'Crash'), 'e': '', 'detail': str(r[1])[:300]}]})
    return ctx.judge(module, cases, metas, f'CONSTANT Judge <- {op}\nSPECIFICATION TraceSpec\n', name=name,
                     sig=sig or (lambda m: str(m.get('kind', '')) + '|' + str(m.get('what', ''))), chunk=chunk, env=env)


def ids_of(states):
    return [str(s.state_id) for s in states]


WORDS = ['go', 'stop', 'a1', 'label', 'x', 'b_2', 'init', 'mdp']
LABELS = ['ok', 'err', 'hot__cold', 'mdp', 'hot', 'label__ok', 'module']


def run_conv(it):
    import random as R
    R.seed(it['seed'])
    g, kind = it['g'], it['kind']
    c = Coding(kind, g['k'], it['inp'], it['out'])
    if it['what'] == 'prism':
        c.alphabet = WORDS[:g['k']]; c.g = lambda o: LABELS[int(o)]
    if it['what'] == 'moore2dfa':
        c.g = lambda o: it['outs'][int(o)]
    m, st = gbuild(kind, g, c, order=it['order'])
    lst = list(m.states)
    g0 = gproject(kind, m, c, lst)
    foreign = {id(s) for s in lst}
    shared = lambda x: sum(id(s) in foreign for s in x.states)

    def smm():
        from aalpy.automata import Mdp
        from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
        x = m.to_mdp() if it['how'] else smm_to_mdp_conversion(m)
        return {'g': g0, 'h': gproject('mdp', x, c), 'hids': ids_of(x.states), 'after': gproject(kind, m, c, lst), 'known': known_inputs(kind, c, lst), 'cls': type(x) is Mdp}

    def mc():
        from aalpy.automata import MarkovChain
        from aalpy.utils.HelperFunctions import mc_from_mdp
        sym = c.alphabet[it['a'] - 1]
        x = mc_from_mdp(m) if it['how'] and it['single'] else mc_from_mdp(m, sym)
        return {'g': g0, 'a': it['a'], 'h': gproject('mc', x, c), 'ids': ids_of(lst), 'hids': ids_of(x.states), 'after': gproject(kind, m, c, lst), 'known': known_inputs(kind, c, lst),
                'cls': type(x) is MarkovChain, 'shared': shared(x)}

    def dfa():
        from aalpy.automata import Dfa
        from aalpy.utils.HelperFunctions import dfa_from_moore
        try:
            x = dfa_from_moore(m)
        except ValueError:
            return {'g': g0, 'refused': True}
        return {'g': g0, 'refused': False, 'h': gproject('dfa', x, c), 'ids': ids_of(lst), 'hids': ids_of(x.states), 'after': gproject(kind, m, c, lst), 'known': known_inputs(kind, c, lst),
                'cls': type(x) is Dfa, 'shared': shared(x)}

    def prism():
        from aalpy.utils import mdp_2_prism_format
        d = f'/tmp/verif_prism_{os.getpid()}_{it["seed"]}'
        os.makedirs(d)
        txt = mdp_2_prism_format(m, 'some_model', f'{d}/x.prism' if it['how'] else None)
        same = not it['how'] or open(f'{d}/x.prism').read() == txt
        subprocess.run(['rm', '-rf', d])
        return prism_fields(txt, m, c, lst, g0, g0, gproject(kind, m, c, lst), known_inputs(kind, c, lst), same, 'some_model')
    return [guard({'smm2mdp': smm, 'mdp2mc': mc, 'moore2dfa': dfa, 'prism': prism}[it['what']], e=it['what'])]


def prism_fields(txt, m, c, lst, g, orig, after, known, same, name):
    """the model checker's text, read back, next to the model (states lst, graph g) it was made from"""
    upper, init, trs, labels = parse_prism(txt, name)
    san = lambda x: f'___{x}___' if x in ('mdp', 'init', 'module', 'endmodule', 'label') else x
    lab = lambda names: '|'.join(sorted(names))
    glab = [lab({san(x) for x in s.output.split('__') if x}) for s in lst]
    g2 = {**g, 'lab': glab, 'tr': [{**t, 'o': glab[t['t'] - 1]} for t in g['tr']]}
    n = max([upper, init] + [x for t in trs for x in (t[1], t[2])]) + 1
    hl = [set() for _ in range(max(n, g['n']))]
    for nm, locs in labels:
        for x in locs:
            if x < len(hl):
                hl[x].add(nm)
    hl = [lab(x) for x in hl]
    codes = {san(w): i + 1 for i, w in enumerate(c.alphabet)}
    htr = [{**edge(s + 1, codes.get(a, 99), hl[t], t + 1, p), 'cmd': k} for a, s, t, p, k in trs]
    return {'g': g2, 'orig': orig, 'after': after, 'known': known, 'upper': upper, 'file': same,
            'h': {'n': g['n'], 'init': init + 1, 'lab': hl[:g['n']], 'eps': True, 'tr': htr, 'k': g['k']}}


def parse_prism(txt, name):
    t = ' '.join(txt.split())
    head = re.match(r'mdp module (\S+) loc ?: ?\[ ?(\d+) ?\.\. ?(\d+) ?\] init (\d+) ?; ?', t)
    if not head or head.group(1) != name:
        return -1, 0, [], []
    rest = t[head.end():]
    body, _, tail = rest.partition('endmodule')
    trs = []
    for k, cmd in enumerate(x for x in body.split(';') if x.strip()):
        m = re.match(r' ?\[ ?(\S*?) ?\] ?loc ?= ?(\d+) ?-> ?(.*)$', cmd.strip())
        if not m:
            return -1, 0, [], []
        for up in m.group(3).split('+'):
            u = re.match(r"\s*(\S+?) ?: ?\( ?loc' ?= ?(\d+) ?\)\s*$", up)
            if not u:
                return -1, 0, [], []
            trs.append((m.group(1), int(m.group(2)), int(u.group(2)), float(u.group(1)), k))
    labels = []
    for x in (y for y in tail.split(';') if y.strip()):
        m = re.match(r' ?label "(.*)" ?= ?(.*)$', x.strip())
        if not m:
            return -1, 0, [], []
        labels.append((m.group(1), [int(v) for v in re.findall(r'loc ?= ?(\d+)', m.group(2))]))
    return int(head.group(3)), int(head.group(4)), trs, labels
