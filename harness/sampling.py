"""Drivers for samplers, data conversion and tokenizers (spec/Sampling.tla)."""
from convert import *
from pushdown import random_vpa, vbuild, pspec, PSim

MOORE = ('dfa', 'moore', 'ndmoore', 'mdp', 'mc')


def tr_(t, c, kind, moore):
    """a trace of the library as [eps, ins, outs]"""
    t = list(t)
    eps = [enc_out(t.pop(0))] if moore and t and not isinstance(t[0], tuple) else []
    for x in t:
        if not isinstance(x, tuple) or len(x) != 2:
            return {'eps': eps, 'ins': [99], 'outs': []}
    return {'eps': eps, 'ins': [c.letter(i) or 98 for i, _ in t], 'outs': [enc_out(o) for _, o in t]}


def ins_(w, c):
    return {'eps': [], 'ins': [c.letter(x) or 98 for x in w], 'outs': []}


def run_sampling(it):
    import random as R
    from aalpy.utils import Sampling as S
    R.seed(it['seed'])
    if it['what'] in ('convert', 'token', 'vpa', 'mc'):
        return {'convert': run_convert, 'token': run_token, 'vpa': run_vpa, 'mc': run_mc}[it['what']](it)
    kind, g = it['kind'], it['g']
    moore = kind in MOORE
    c = Coding(kind, g['k'], it['inp'], it['out'])
    if kind == 'mc':
        c.alphabet = [None]
    m, st = gbuild(kind, g, c, order=it['order'])
    lst = list(m.states)
    g0 = gproject(kind, m, c, lst)
    res = []
    for q in it['calls']:
        how = q['how']
        base = {'op': q['op'], 'g': g0, 'moore': moore}

        def words():
            return [(list if how == 'list' else tuple)(c.alphabet[a - 1] for a in w) for w in q['ws']]

        def io():
            ws = words()
            f = (lambda: S.get_data_from_input_sequence(m, ws, 'io_sequences')) if q['via'] == 'fmt' else \
                (lambda: S.get_data_from_input_sequence(m, ws)) if q['via'] == 'default' else (lambda: S.get_io_traces(m, ws))
            r = f()
            return {**base, 'ws': q['ws'], 'res': [tr_(t, c, kind, moore) for t in r], 'after': gproject(kind, m, c, lst)}

        def label():
            ws = words()
            try:
                r = S.get_data_from_input_sequence(m, ws, 'labeled_sequences') if q['via'] != 'direct' else S.get_labeled_sequences(m, ws)
            except ValueError:
                return {**base, 'ws': q['ws'], 'res': [], 'refused': True, 'after': gproject(kind, m, c, lst)}
            return {**base, 'ws': q['ws'], 'refused': False, 'after': gproject(kind, m, c, lst),
                    'res': [{'ins': [c.letter(x) or 98 for x in w], 'o': enc_out(o)} for w, o in r]}

        def drawn():
            outs = q['outs']
            letters = q['letters'] if q['src'] == 'alphabet' else sorted({t['a'] for t in g['tr']})
            arg = m if q['src'] == 'model' else [c.alphabet[a - 1] for a in letters]
            kw = {'include_outputs': True} if outs else {}
            if q['op'] == 'limits':
                a = (arg, q['count'], q['lo'], q['hi'])
                r = S.sample_with_length_limits(*a, **kw) if how == 'list' else S.sample_with_length_limits(a[0], nr_samples=a[1], min_len=a[2], max_len=a[3], **kw)
            else:
                a = (arg, q['count'], q['p'])
                r = S.sample_with_term_prob(*a, **kw) if how == 'list' else S.sample_with_term_prob(a[0], nr_samples=a[1], term_prob=a[2], **kw)
            return {**base, 'letters': letters, 'count': q['count'], 'lo': q['lo'], 'hi': q['hi'], 'outs': outs, 'spread': q['spread'],
                    'total': q.get('total', [0, 0]), 'res': [tr_(t, c, kind, moore) if outs else ins_(t, c) for t in r],
                    'after': gproject(kind, m, c, lst)}

        def data():
            from aalpy.utils import generate_input_output_data_from_automata as G
            args = {'num_sequances': q['count'], 'min_seq_len': q['lo'], 'max_seq_len': q['hi']}
            if q['fmt'] != 'io' or how == 'list':
                args['sequance_type'] = 'io_traces' if q['fmt'] == 'io' else 'labeled_sequences'
            r = G(m, **args)
            return {**base, 'letters': sorted({t['a'] for t in g['tr']}), 'count': q['count'], 'lo': q['lo'], 'hi': q['hi'], 'fmt': q['fmt'], 'spread': q['spread'],
                    'res': [tr_(t, c, kind, False) if q['fmt'] == 'io' else {'ins': [c.letter(x) or 98 for x in t[0]], 'o': enc_out(t[1])} for t in r]}

        def complete():
            mach = c.spec(it['m'])
            r = S.get_complete_sample(m, include_outputs=True) if q['outs'] else S.get_complete_sample(m)
            if q['outs'] or how == 'list':
                m.compute_prefixes()
            return {'op': 'complete', 'm': mach, 'acc': [[c.letter(x) or 98 for x in s.prefix] for s in st], 'outs': q['outs'],
                    'res': [tr_(t, c, kind, kind != 'mealy') if q['outs'] else ins_(t, c) for t in r]}
        res.append(guard({'io': io, 'label': label, 'limits': drawn, 'term': drawn, 'data': data, 'complete': complete}[q['op']], e=q['op']))
    return res


def run_convert(it):
    from aalpy.utils import convert_i_o_traces_for_RPNI
    c = Coding('mealy', it['k'], it['inp'], it['out'])
    ts = []
    for t in it['ts']:
        x = [(c.alphabet[a - 1], c.g(o)) for a, o in t['io']]
        ts.append(([c.g(t['eps'])] if it['cls'] in ('moore', 'dfa') else []) + x)
    spec = [{'eps': [enc_out(c.g(t['eps']))] if it['cls'] in ('moore', 'dfa') else [], 'ins': [a for a, _ in t['io']],
             'outs': [enc_out(c.g(o)) for _, o in t['io']]} for t in it['ts']]

    def f():
        bad = it['cls'] not in ('mealy', 'moore', 'dfa')
        try:
            r = convert_i_o_traces_for_RPNI(ts) if it['cls'] == 'mealy' and it['how'] else convert_i_o_traces_for_RPNI(ts, it['cls'])
        except ValueError:
            return {'op': 'convert', 'bad': bad, 'refused': True, 'ts': spec, 'res': [], 'dup': False}
        pairs = [([c.letter(x) or 98 for x in w], enc_out(o)) for w, o in r]
        return {'op': 'convert', 'bad': bad, 'refused': False, 'ts': spec, 'res': [{'ins': w, 'o': o} for w, o in pairs],
                'dup': len({(tuple(w), o) for w, o in pairs}) != len(pairs)}
    return [guard(f, e='convert')]


def num(x):
    return int(x) if x.isdecimal() else x


def run_token(it):
    from aalpy.utils import CharacterTokenizer, DelimiterTokenizer, IODelimiterTokenizer
    d = f'/tmp/verif_tok_{os.getpid()}_{it["seed"]}'
    os.makedirs(d)
    path = d + '/data.txt'
    try:
        seqs, k = it['seqs'], it['tok']
        wd, iod = it['wd'], it['iod']
        if k == 'char':
            lines = [''.join(s) for s in seqs]
        elif k == 'delim':
            lines = [wd.join(s) for s in seqs]
        else:
            lines = [wd.join([s[0]] + [iod.join(p) for p in s[1:]]) for s in seqs]
        open(path, 'w').write('\n'.join(lines) + ('\n' if it['nl'] and lines else ''))
        e = lambda x: enc_out(x)

        def f():
            try:
                if k == 'char':
                    r = CharacterTokenizer().tokenize_data(path)
                elif k == 'delim':
                    r = DelimiterTokenizer().tokenize_data(path) if wd == ',' else DelimiterTokenizer().tokenize_data(path, delimiter=wd)
                else:
                    r = IODelimiterTokenizer().tokenize_data(path) if (wd, iod) == (',', '/') else \
                        IODelimiterTokenizer().tokenize_data(path, io_delimiter=iod, word_delimiter=wd)
            except SystemExit:
                return {'op': 'token', 'refused': True, 'malformed': it['malformed'], 'read': [], 'written': []}
            if k == 'io':
                read = [[[e(x[0]), e(x[1])] if isinstance(x, tuple) else [e(x)] for x in s] for s in r]
                wr = [[[e(num(s[0]))]] + [[e(num(y)) for y in p] for p in s[1:]] for s in seqs]
            else:
                read = [[[e(x)] for x in s] for s in r]
                wr = [[[e(x)] for x in s] for s in seqs]
            return {'op': 'token', 'refused': False, 'malformed': it['malformed'], 'read': read, 'written': wr}
        return [guard(f, e='token')]
    finally:
        subprocess.run(['rm', '-rf', d])


def run_vpa(it):
    from aalpy.utils.HelperFunctions import generate_input_output_data_from_vpa
    v = it['v']
    m, st = vbuild(v, lambda i: f's{i}')
    g = pspec(v)
    al = v['al']

    def f():
        kw = {} if it['att'] is None else {'max_attempts': it['att']}
        r = generate_input_output_data_from_vpa(m, it['count'], it['hi'], **kw)
        return {'op': 'vpa', 'g': g, 'count': it['count'], 'hi': it['hi'], 'enough': it['enough'],
                'res': [{'ins': [al.index(x) + 1 if x in al else 98 for x in w], 'o': str(o)} for w, o in r]}
    return [guard(f, e='vpa')]


def run_mc(it):
    from aalpy.utils.HelperFunctions import mc_format_to_mdp
    c = Coding('mealy', 1, 'str', it['out'])

    def f():
        data = [[c.g(o) for o in s] for s in it['seqs']]
        r = mc_format_to_mdp(data)
        one = {x[0] for t in r for x in t[1:]}
        nm = lambda x: 'one' if len(one) == 1 and x in one else '?'
        return {'op': 'mc', 'seqs': [[enc_out(c.g(o)) for o in s] for s in it['seqs']], 'one': 'one',
                'res': [{'eps': [enc_out(t[0])], 'ins': [nm(x[0]) for x in t[1:]], 'outs': [enc_out(x[1]) for x in t[1:]]} for t in r]}
    return [guard(f, e='mc')]
