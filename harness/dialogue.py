"""Driver for equivalence queries answered by a person (spec/Dialogue.tla); the person is a script."""
import ast
import builtins
import contextlib
import io
import os
import re
import sys
from common import *

LETTERS = ['a', 'b', 'coin', 'but ton', '0', 'END', 'x=1', 'Reset']


def run_dialogue(it):
    import aalpy.utils.FileHandler as FH
    from aalpy.oracles import UserInputEqOracle
    mod = sys.modules[UserInputEqOracle.__module__]
    random.seed(it['seed'])
    c = Coding(it['kind'], it['m']['k'], 'str', it['out'])
    c.alphabet = [LETTERS[i] for i in it['letters']]
    sul = make_sul(it['m'], c)
    hyps = [build(it['kind'], h, c) for h in it['hs']]
    orc = UserInputEqOracle([c.alphabet[a - 1] for a in it['order']], sul)
    drawn, ev, buf = [], [], io.StringIO()
    by_text = {}
    for o in sorted({x for m in [it['m']] + it['hs'] for row in m['o'] for x in (row if isinstance(row, list) else [row])}):
        by_text[str(c.g(o))] = enc_out(c.g(o))

    def draw(aut, path='LearnedModel', *a, **kw):
        drawn.append(str(path) if aut is hyps[cur[0]] else 'another model')
    old = FH.visualize_automaton, FH.save_automaton_to_file, getattr(mod, 'visualize_automaton', None), builtins.input
    FH.visualize_automaton, FH.save_automaton_to_file = draw, draw
    if old[2] is not None:
        mod.visualize_automaton = draw
    cur, mark, pending = [0], [0], [None]

    def value(lines, word):
        for ln in lines:
            if word in ln.lower() and ':' in ln:
                return by_text.get(ln.split(':', 1)[1].strip(), '!' + ln)
        return ''

    def listed(lines):
        for ln in lines:
            m = re.search(r'[\[(].*[\])]', ln)
            if m:
                try:
                    return [c.letter(x) for x in ast.literal_eval(m.group())]
                except (ValueError, SyntaxError):
                    pass
        return [-1]

    def flush():
        """what happened since the last prompt belongs to the command entered there"""
        lines = buf.getvalue().splitlines()
        buf.seek(0); buf.truncate()
        calls = [[e[0]] if e[0] != 'step' else ['step', e[1]] for e in sul.log[mark[0]:]]
        mark[0] = len(sul.log)
        e, a = pending[0]
        r = {'e': e, 'a': a, 'sul': calls, 'q': orc.num_queries, 's': orc.num_steps, 'claim': any('ounterexample' in ln for ln in lines)}
        if e == 'begin':
            r['drawn'] = list(drawn); drawn.clear()
        elif e == 'letter':
            r['hyp'], r['out'] = value(lines, 'hypothesis'), value(lines, 'sul')
        elif e in ('alphabet', 'current'):
            r['list'] = listed(lines)
        ev.append(r)
        pending[0] = None

    def say(prompt=''):
        flush()
        if not todo:
            raise EOFError
        x = todo.pop(0)
        pending[0] = (x[0], x[1] if len(x) > 1 else 0)
        return {'letter': lambda: c.alphabet[x[1] - 1], 'alphabet': lambda: 'print alphabet', 'current': lambda: 'current inputs',
                'junk': lambda: it['junk'][len(ev) % len(it['junk'])]}.get(x[0], lambda: x[0])()
    builtins.input = say
    try:
        for i, h in enumerate(hyps):
            cur[0] = i
            todo = list(it['says'][i])
            pending[0] = ('begin', 0)
            try:
                with contextlib.redirect_stdout(buf):
                    r = orc.find_cex(h)
            except Exception as e:
                ev.append({'e': 'crash', 'detail': type(e).__name__ + ' ' + str(e)[:200]})
                break
            flush()
            ev.append({'e': 'return', 'some': r is not None, 'list': [c.letter(x) for x in r] if r is not None else [], 'after': project(h, c)})
    finally:
        FH.visualize_automaton, FH.save_automaton_to_file, builtins.input = old[0], old[1], old[3]
        if old[2] is not None:
            mod.visualize_automaton = old[2]
    return {'t': c.spec(it['m']), 'hs': [project(h, c) for h in hyps], 'order': it['order'], 'ev': ev}


def random_says(rng, k, length):
    says = []
    for _ in range(rng.randrange(length + 1)):
        u = rng.random()
        says.append(['letter', rng.randrange(k) + 1] if u < .7 else [rng.choice(('reset', 'reset', 'current', 'alphabet', 'junk', 'help'))])
    return says + [[rng.choice(('cex', 'cex', 'end'))], ['current'], ['end']]      # a refused cex goes on to the end


def items_of(rng, hists, count):
    res = []

    def item(m, kind, hs, says):
        k = m['k']
        letters = rng.sample(range(len(LETTERS)), k)
        out = rng.choice(('str', 'int', 'tuple'))
        junk = ['', 'zz', 'print', 'CEX', 'cex '] + [LETTERS[i] for i in range(len(LETTERS)) if i not in letters]
        order = list(range(1, k + 1))
        rng.shuffle(order)
        res.append({'m': m, 'kind': kind, 'hs': hs, 'says': says, 'letters': letters, 'order': order, 'out': out, 'junk': rng.sample(junk, 3), 'seed': rng.randrange(1 << 30)})

    def machine(kind, k, n):
        return random_machine(rng, n, k, 2 if kind == 'dfa' else 3, kind == 'mealy')
    for h in hists:
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        h = h[1:]
        if h and h[-1][0] not in ('end',):
            h = h + [['end']]
        item(machine(kind, 2, rng.choice((1, 2, 3))), kind, [machine(kind, 2, rng.choice((1, 2)))], [h or [['end']]])
    for _ in range(count):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        k = rng.choice((1, 2, 3, 5))
        m = machine(kind, k, rng.choice((1, 2, 4, 7)))
        hs = [machine(kind, k, rng.choice((1, 2, 3, 5))) if rng.random() < .8 else json.loads(json.dumps(m)) for _ in range(rng.choice((1, 1, 2, 3, 5)))]
        item(m, kind, hs, [random_says(rng, k, rng.choice((2, 6, 15, 40))) for _ in hs])
    return res
