"""Looks at the example systems the library ships (spec/Examples.tla)."""
import itertools
from convert import *

VPAS = {'vpa_L1': 'anbn', 'vpa_L2': 'abncdn', 'vpa_for_L3': 'abcdnefghn', 'vpa_L3': 'blocks2', 'vpa_L4': 'dyck2', 'vpa_L6': 'dyck3', 'vpa_L8': 'dyck4',
        'vpa_L9': 'nest2', 'vpa_L10': 'dyck1letters', 'vpa_L11': 'dyck2letters', 'vpa_L12': 'dyck1abc', 'vpa_for_L16': 'prime',
        'vpa_for_odd_parentheses': 'odd', 'vpa_for_even_parentheses': 'even'}
SEVPAS = {'sevpa_for_L1': 'anbn', 'sevpa_for_L2': 'abncdn', 'sevpa_for_L3': 'abcdnefghn', 'sevpa_for_L4': 'blocks2', 'sevpa_for_L5': 'blocks3',
          'sevpa_for_L7': 'dyck2', 'sevpa_for_L8': 'dyck3', 'sevpa_for_L9': 'dyck4', 'sevpa_for_L10': 'blocks5', 'sevpa_for_L12': 'nest2',
          'sevpa_for_L13': 'dyck1letters', 'sevpa_for_L14': 'dyck2letters', 'sevpa_for_L15': 'dyck1abc'}
PROCS = {'get_faulty_coffee_machine_MDP': 'coffee', 'get_faulty_coffee_machine_SMM': 'coffee', 'get_minimal_faulty_coffee_machine_SMM': 'coffee',
         'get_weird_coffee_machine_MDP': 'weird', 'get_small_pomdp': 'pomdp', 'get_faulty_mqtt_SMM': 'mqtt', 'get_small_gridworld': 'grid'}
PAIRS = {'anbn': ['ab'], 'abncdn': ['ac', 'ad', 'bc', 'bd'], 'abcdnefghn': [], 'dyck2': ['()', '[]'], 'dyck3': ['()', '[]', '{}'], 'dyck4': ['()', '[]', '{}', '<>'],
         'nest2': ['()', '[]'], 'dyck1letters': ['()'], 'dyck2letters': ['()', '[]'], 'dyck1abc': ['()'], 'prime': ['ab'], 'odd': ['()'], 'even': ['()'],
         'blocks2': [], 'blocks3': [], 'blocks5': [], 'sums': ['()'], 'evens': []}
BLOCKS = {'anbn': (['a'], ['b']), 'abncdn': (['a', 'b'], ['c', 'd']), 'abcdnefghn': (['ab', 'cd'], ['ef', 'gh']), 'blocks2': (['ab'], ['cd']),
          'blocks3': (['abc'], ['def']), 'blocks5': (['abcde'], ['vwxyz'])}
UNITS = {'dyck1letters': ['a', 'b', 'c'], 'dyck2letters': ['a', 'b', 'c'], 'dyck1abc': ['abc', 'd']}
ALPHABET = {'anbn': 'ab', 'abncdn': 'abcd', 'abcdnefghn': 'abcdefgh', 'blocks2': 'abcd', 'blocks3': 'abcdef', 'blocks5': 'abcdevwxyz', 'dyck2': '()[]', 'dyck3': '()[]{}',
            'dyck4': '()[]{}<>', 'nest2': '()[]', 'dyck1letters': '()abc', 'dyck2letters': '()[]abc', 'dyck1abc': '()abcd', 'prime': 'ab', 'odd': '()', 'even': '()',
            'sums': '()1+', 'evens': 'ab'}


def nested(rng, lang, size):
    """a word built to be close to the language"""
    if lang in BLOCKS:
        u, v = BLOCKS[lang]
        n = rng.randrange(1, 5)
        return list(''.join(rng.choice(u) for _ in range(n)) + ''.join(rng.choice(v) for _ in range(n)))
    pairs, units = PAIRS[lang] or ['()'], UNITS.get(lang, [])
    one = lang in ('nest2', 'odd', 'even') and rng.random() < .8

    def g(n):
        if n <= 0:
            return ''
        x = rng.random()
        if x < .3 and units:
            return rng.choice(units) + g(n - 1)
        p = rng.choice(pairs)
        if one:
            return p[0] + g(n - 1) + p[1]
        i = rng.randrange(n)
        return p[0] + g(i) + p[1] + g(n - 1 - i)
    if lang == 'sums':
        def s(n):
            return '1' if n <= 0 else rng.choice((s(n // 2) + '+' + s(n // 2), '(' + s(n - 1) + ')'))
        return list(s(size))
    if lang == 'evens':
        return [rng.choice('ab') for _ in range(2 * size)]
    return list(g(size))


def spoil(rng, w, letters):
    w = list(w)
    for _ in range(rng.choice((1, 1, 2))):
        x = rng.random()
        i = rng.randrange(len(w) + 1)
        if x < .35 and w:
            del w[i % len(w)]
        elif x < .6:
            w.insert(i, rng.choice(letters))
        elif x < .8 and w:
            w[i % len(w)] = rng.choice(letters)
        elif len(w) > 1:
            j = rng.randrange(len(w)); i = i % len(w)
            w[i], w[j] = w[j], w[i]
    return w


def words_for(rng, lang, limit, extra):
    letters = list(ALPHABET[lang])
    res = [[]]
    for n in range(1, 20):
        if len(letters) ** n + len(res) > limit:
            break
        res += [list(w) for w in itertools.product(letters, repeat=n)]
    for _ in range(extra):
        w = nested(rng, lang, rng.randrange(1, 8))
        res.append(w if rng.random() < .6 else spoil(rng, w, letters))
    return res


def build(it):
    name = it['name']
    if name == 'arithmetics':
        from aalpy.utils import load_automaton_from_file
        return load_automaton_from_file(os.environ.get('VERIF_REPO', '/repo') + '/DotModels/arithmetics.dot', 'vpa')
    import aalpy.utils.BenchmarkVpaModels as V, aalpy.utils.BenchmarkSULs as B
    if name.startswith('sevpa'):
        import aalpy.utils.BenchmarkSevpaModels as S
        return getattr(S, name)()
    return getattr(V if name.startswith('vpa') else B, name)()


def num(p):
    n = round(p * 10)
    return n if abs(p * 10 - n) < 1e-6 else 999


def run_example(it):
    import random as R
    R.seed(it['seed'])
    what = it['what']

    def f():
        if what == 'data':
            from aalpy.utils.BenchmarkVpaModels import gen_arithmetic_data
            import warnings
            warnings.simplefilter('ignore')
            data, al = gen_arithmetic_data(*it['args'])
            sums = {'e': 'lang', 'lang': 'sums', 'ws': [list(w) for w, _ in data], 'acc': [bool(o) for _, o in data]}
            unary = lambda w: any(x == '+' and (i == 0 or w[i - 1] in '+(') for i, x in enumerate(w))
            keep = [i for i, w in enumerate(sums['ws']) if not unary(w)]            # unary signs: not settled by the documentation
            sums['ws'], sums['acc'] = [sums['ws'][i] for i in keep], [sums['acc'][i] for i in keep]
            lo, hi, n = it['args'][1], it['args'][2], it['args'][0]
            if not all(0 <= len(w) <= hi and set(w) <= set('()1+') for w, _ in data) or \
                    sorted(al.get_merged_alphabet()) != sorted('()1+') or list(al.call_alphabet) != ['('] or list(al.return_alphabet) != [')']:
                sums['err'] = 'DataOutsideAlphabet'
            return sums
        m = build(it) if what in ('lang', 'proc', 'onfsm') else None
        if what == 'lang':
            acc = []
            named = {str(x): x for x in ([*m.input_alphabet.internal_alphabet] if it['name'] == 'arithmetics' else [])}     # a loaded 1 is a number
            for i, w in enumerate(it['ws']):
                w = [named.get(x, x) for x in w]
                if it['how'] == 'query' and w:
                    from aalpy.SULs import AutomatonSUL
                    acc.append(bool(AutomatonSUL(m).query(tuple(w))[-1]))
                else:
                    m.reset_to_initial()
                    o = m.step(None)
                    for x in w:
                        o = m.step(x)
                    acc.append(bool(o))
            return {'e': 'lang', 'lang': it['lang'], 'ws': it['ws'], 'acc': acc}
        if what in ('proc', 'onfsm'):
            st = list(m.states)
            no = {id(s): i + 1 for i, s in enumerate(st)}
            e = []
            for s in st:
                for a, ts in s.transitions.items():
                    for t in ts:
                        if what == 'onfsm':
                            o, t, p = str(t[0]), t[1], 0
                        elif len(t) == 2:
                            t, p = t; o = t.output
                        else:
                            t, o, p = t
                        e.append({'s': no[id(s)], 'a': a, 'o': o, 't': no.get(id(t), 99), 'p': num(p)})
            g = {'n': len(st), 'init': no.get(id(m.initial_state), 0), 'e': e, 'first': getattr(m.initial_state, 'output', '') or ''}
            if what == 'onfsm':
                return {'e': 'onfsm', 'g': g, 'bench': it['name'] == 'get_benchmark_ONFSM'}
            return {'e': 'proc', 'g': g, 'ref': it['ref'], 'depth': it['depth']}
        if what == 'mock':
            from aalpy.utils import MockMqttExample
            b = MockMqttExample()
            ops = []
            for op, t in it['ops']:
                out = getattr(b, op)(*([t] if op in ('subscribe', 'unsubscribe', 'publish') else []))
                ops.append({'op': op, 't': repr(t), 'bad': op not in ('connect', 'disconnect') and ('\n' in t or '\0' in t), 'out': str(out)})
            return {'e': 'mock', 'ops': ops}
        from aalpy.utils import DateValidator
        v = DateValidator()
        rows = []
        for r in it['rows']:
            res = v.is_date_accepted(r['text'])
            rows.append({'form': r['form'], 'd': r['d'], 'm': r['m'], 'y': r['y'], 'ok': res if isinstance(res, bool) else not r['form']})
        return {'e': 'dates', 'rows': rows}
    return [guard(f, e=what)]


def dates(rng, count):
    rows = []
    for m in range(0, 15):
        for d in range(0, 34):
            for y in (rng.choice((0, 1999, 2020, 2100)), rng.randrange(0, 10002)):
                style = rng.choice(('{}/{}/{}', '{:02}/{:02}/{:04}', '{:02}/{}/{:04}'))
                rows.append({'text': style.format(d, m, y), 'form': True, 'd': d, 'm': m, 'y': y})
    for y in (0, 1, 9999, 10000, 99999):
        rows.append({'text': f'1/1/{y}', 'form': True, 'd': 1, 'm': 1, 'y': y})
    bad = ['', '/', '//', '1/1', '1/1/2000/1', 'a/1/2000', '1/b/2000', '1/1/c', '1-1-2000', '1/1/', '/1/2000', '1//2000', '1.0/1/2000', '2000', '1/1/2000/', '0x1/1/2000', '-1/1/2000', '1/-1/2000', '1/1/-1', '-1/-1/-1']
    for t in bad:
        rows.append({'text': t, 'form': False, 'd': 0, 'm': 0, 'y': 0})
    for _ in range(count):
        t = ''.join(rng.choice('0123456789/') for _ in range(rng.randrange(3, 11)))
        p = t.split('/')
        ok = len(p) == 3 and all(p)
        rows.append({'text': t, 'form': ok, **dict(zip('dmy', (min(int(x), 10 ** 6) if ok else 0 for x in (p if ok else '000'))))})
    return rows
