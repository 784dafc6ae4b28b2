"""Wrapped objects behind the SUL interface (spec/Adapter.tla)."""
import re
from algos import *
from graphs import *

CHARS = {'ab': ['a', 'b', 'c'], '01': ['0', '1', '2'], 'ints': [0, 1, 2], 'special': ['a', '$', '.'], 'multi': ['a', 'ab', 'b'], 'nl': ['a', '\n', 'b'], 'mixed': ['a', 1, '|']}


def random_regex(rng, chars, depth):
    k = rng.choice(('sym', 'sym', 'set', 'any') if depth == 0 else ('cat', 'cat', 'alt', 'alt', 'star', 'opt', 'plus', 'sym', 'eps'))
    code = lambda c: ord(c)
    if k == 'sym':
        return {'k': k, 'c': code(rng.choice(chars))}
    if k == 'set':
        return {'k': k, 'cs': [code(x) for x in rng.sample(chars, rng.randrange(1, len(chars) + 1))], 'neg': rng.random() < .3}
    if k in ('cat', 'alt'):
        return {'k': k, 'x': random_regex(rng, chars, depth - 1), 'y': random_regex(rng, chars, depth - 1)}
    if k in ('star', 'opt', 'plus'):
        return {'k': k, 'x': random_regex(rng, chars, depth - 1)}
    return {'k': k}


def render(r, top=False):
    k = r['k']
    if k == 'sym':
        return re.escape(chr(r['c']))
    if k == 'set':
        return '[' + ('^' if r['neg'] else '') + ''.join(re.escape(chr(c)) for c in r['cs']) + ']'
    if k == 'any':
        return '.'
    if k == 'eps':
        return '' if top else '(?:)'
    if k == 'cat':
        return ''.join(render(x) if x['k'] != 'alt' else '(' + render(x) + ')' for x in (r['x'], r['y']))
    if k == 'alt':
        s = render(r['x']) + '|' + render(r['y'])
        return s if top else '(?:' + s + ')'
    return '(?:' + render(r['x']) + ')' + {'star': '*', 'opt': '?', 'plus': '+'}[k]


def wrapped_class(m, c, style):
    """a Python class behaving like machine m, and its inputs"""
    from aalpy.SULs import FunctionDecorator

    class Thing:
        def __init__(self):
            self.s = m['init']

        def _go(self, a):
            self.s, o = m_step(m, self.s, a)
            return c.g(o)

        def go(self, x):
            return self._go(style['args'].index(x) + 1 if x in style['args'] else 0)

        def two(self, x, y):
            return self._go(x + y)

        def first(self):
            return self._go(1)

        def second(self):
            return self._go(2)

        def maybe(self, x=None):
            return self._go(1 if x is None else x)
    F = FunctionDecorator
    letters = []
    for a in range(1, m['k'] + 1):
        how = style['how'][a - 1]
        if how == 'plain' and a <= 2:
            letters.append(F(Thing.first if a == 1 else Thing.second))
        elif how == 'pair':
            letters.append(F(Thing.two, style['box']((a, 0))))
        elif how == 'default':
            letters.append(F(Thing.maybe, a) if a > 1 else F(Thing.maybe))
        else:
            x = style['args'][a - 1]
            letters.append(F(Thing.go, x if style['bare'] else [x]))
    return Thing, letters


def run_adapter(it):
    import random as R
    R.seed(it['seed'])
    rng = R.Random(it['seed'])
    from aalpy.SULs import AutomatonSUL, PyClassSUL, RegexSUL, TomitaSUL
    import aalpy.SULs as SULS
    from aalpy.learning_algs.non_deterministic.NonDeterministicSULWrapper import NonDeterministicSULWrapper
    kind = it['kind']
    ev = []
    cache = None
    try:
        if kind in ('dfa', 'moore', 'mealy'):
            m = it['m']; c = Coding(kind, m['k'], it['inp'], it['out'])
            sul = getattr(SULS, {'dfa': 'DfaSUL', 'moore': 'MooreSUL', 'mealy': 'MealySUL'}[kind] if it['seed'] % 2 else 'AutomatonSUL')(build(kind, m, c))
            letters, obj = c.alphabet, {'k': 'machine', 'm': c.spec(m)}
        elif kind == 'class':
            m = it['m']; c = Coding('mealy', m['k'], 'str', it['out'])
            cls, letters = wrapped_class(m, c, it['style'])
            sul, obj = PyClassSUL(cls), {'k': 'machine', 'm': c.spec(m)}
        elif kind == 'regex':
            letters = CHARS[it['chars']]
            sul = RegexSUL(render(it['r'], True) + ('$' if it['dollar'] and not (it['r']['k'] == 'alt') else ''))
            obj = {'k': 'regex', 'r': it['r'], 'str': [[ord(x) for x in str(y)] for y in letters]}
        elif kind == 'tomita':
            letters = it['letters']
            sul, obj = TomitaSUL(it['n']), {'k': 'tomita', 'n': it['n'], 'str': [[0], [1]]}
        elif kind == 'balanced':
            from aalpy.utils.BenchmarkSULs import get_balanced_string_sul
            letters = it['letters']
            sul = get_balanced_string_sul(dict(it['pairs']), it['empty'])
            obj = {'k': 'balanced', 'opens': [ord(x) for x in it['pairs']], 'closes': [ord(x) for x in it['pairs'].values()], 'empty': it['empty'], 'str': [[ord(x)] for x in letters]}
        else:
            g = it['g']; c = Coding(kind, g['k'], it['inp'], it['out'])
            model, _ = gbuild(kind, g, c)
            sul = AutomatonSUL(model); letters, obj = c.alphabet, {'k': 'graph', 'g': gspec(g, c)}
            if kind == 'onfsm':
                sul = NonDeterministicSULWrapper(sul); cache = sul.cache
        ins = lambda w: tuple(letters[a - 1] for a in w)
        num = lambda x: next((i + 1 for i, y in enumerate(letters) if y is x or (type(y) is type(x) and y == x)), 0)
        done = []
        for op in it['ops']:
            k, u = op['op'], op['w']
            if k == 'query':
                outs = [enc_out(o) for o in sul.query(ins(u) if rng.random() < .7 else list(ins(u)))]
                ev.append({'op': k, 'w': u, 'outs': outs}); done.append((u, outs))
            elif k == 'io':
                ps = list(sul.io_query(ins(u)))
                ev.append({'op': k, 'w': u, 'ins': [num(x) for x, _ in ps], 'outs': [enc_out(o) for _, o in ps]}); done.append((u, ev[-1]['outs']))
            elif k == 'pre':
                sul.pre(); ev.append({'op': k}); cur = ([], []); done.append(cur)
            elif k == 'post':
                sul.post(); ev.append({'op': k})
            else:
                o = enc_out(sul.step(letters[u[0] - 1] if u[0] else None))
                ev.append({'op': k, 'a': u[0], 'out': o})
                if u[0]:
                    cur[0].append(u[0]); cur[1].append(o)
        if cache is not None:
            for u, outs in done[-6:]:
                n = rng.randrange(len(u) + 1)
                if not n:
                    continue
                node = cache.get_to_node(ins(u[:n]), [c.g(o) for o in it_outs(outs[:n], c)])
                ev.append({'op': 'freq', 'w': list(u[:n]), 'outs': outs[:n], 'n': 0 if node is None else node.frequency_counter})
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)
        if not any('/aalpy/' in t.filename for t in tb):
            raise
        ev.append({'op': 'Raised' + type(x).__name__})
    return {'obj': obj, 'ev': ev}


def it_outs(outs, c):
    """raw outputs of encoded ones"""
    back = {enc_out(c.g(str(i))): str(i) for i in range(12)}
    return [back[o] for o in outs]
