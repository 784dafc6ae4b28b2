"""Drivers for passive learning (spec/Passive.tla, spec/Quotient.tla)."""
from convert import *


def gen_words(rng, k, count, maxlen):
    return [tuple(rng.randrange(1, k + 1) for _ in range(rng.randrange(0, maxlen + 1))) for _ in range(count)]


def closure(ws):
    return sorted({w[:i] for w in ws for i in range(len(w) + 1)}, key=lambda w: (len(w), w))


def label_with(m, kind, w):
    """label the machine gives to w ('' if a Mealy machine has none)"""
    if not w:
        return m['o'][m['init'] - 1] if kind != 'mealy' else ''
    return m_run(m, w)[1][-1]


def run_det(it):
    """learn a deterministic model from labelled words; it: kind, k, data [(w,o)], alg, fmt, complete, opts"""
    import random as R
    R.seed(it['seed'])
    from aalpy.learning_algs import run_RPNI, run_EDSM
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM
    kind, k = it['kind'], it['k']
    c = Coding(kind, k, it['inp'], it['out'])
    seq = {'tuple': tuple, 'list': list}[it['seq']]
    alg, fmt = it['alg'], it['fmt']
    mode = {'': None, 'self': 'self_loop', 'sink': 'sink_state'}[it['complete']]
    if fmt == 'labels':
        data = [(seq(c.word(w)), c.g(o)) for w, o in it['data']]
        lab = [{'w': list(w), 'o': enc_out(c.g(o))} for w, o in it['data']]
    else:                                   # traces: [(letter, output), ...], for state outputs preceded by the initial output
        data, lab = [], []
        for w, outs in it['data']:
            tr = [(c.alphabet[a - 1], c.g(o)) for a, o in zip(w, outs[-len(w):] if w else [])]
            if kind != 'mealy':
                tr = [c.g(outs[0])] + tr
                lab.append({'w': [], 'o': enc_out(c.g(outs[0]))})
            data.append(tr)
            lab += [{'w': list(w[:i + 1]), 'o': enc_out(c.g(o))} for i, o in enumerate(outs[-len(w):] if w else [])]
    before = sorted(repr(x) for x in data)

    def f():
        try:
            if alg in ('gsm', 'classic'):
                m = run_RPNI(data, kind, algorithm=alg, input_completeness=mode, print_info=it['info'])
            elif alg == 'edsm':
                m = run_EDSM(data, kind, input_completeness=mode, print_info=it['info'])
            else:
                kw = dict(it['opts'])
                if kw.pop('order', None):
                    kw['node_order'] = lambda a, b: (a.get_prefix_length(), str(a.get_prefix())) < (b.get_prefix_length(), str(b.get_prefix()))
                if kw.pop('evidence', None):
                    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation, EDSM_score, EDSM_frequency_score
                    kw['score_calc'] = ScoreCalculation(score_function=EDSM_score() if it['seed'] % 2 else EDSM_frequency_score())
                m = run_GSM(data, output_behavior='mealy' if kind == 'mealy' else 'moore', transition_behavior='deterministic',
                            data_format=None if it['auto'] else 'labeled_sequences' if fmt == 'labels' else 'io_traces', **kw)
                if mode:
                    m.make_input_complete(mode)
        except ValueError:
            m = None
        base = {'kind': 'mealy' if kind == 'mealy' else 'moore', 'dfa': kind == 'dfa' and alg != 'rungsm', 'k': k, 'lab': lab, 'complete': it['complete'],
                'maximal': it.get('maximal', True), 'before': before, 'after': sorted(repr(x) for x in data), 'refused': m is None, 'alg': alg}
        if it['what'] == 'ident':
            base.update(t=c.spec(it['t']), must=it['must'], acc=it['acc'])
        if m is not None:
            base['m'] = project(m, c, 'moore' if kind == 'dfa' and alg == 'rungsm' else kind)
        return base
    return [guard(f, e=it['what'])]
