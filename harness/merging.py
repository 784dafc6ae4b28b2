"""Stochastic and generalized state merging (spec/Merge.tla, spec/RedBlue.tla)."""
import math
from algos import *
from graphs import *
from convert import judge_calls


def sample_graph(g, rng, count, maxlen, mc=False):
    """observations of graph g: lists of specification steps (a, o)"""
    res = []
    for _ in range(count):
        s, w = g['init'], []
        for _ in range(rng.randrange(maxlen + 1) if rng.random() < .5 else maxlen):
            a = 1 if mc else rng.randrange(1, g['k'] + 1)
            es = [e for e in g['tr'] if e['s'] == s and e['a'] == a]
            if not es:
                break
            e = rng.choices(es, [float(x['pr']) for x in es])[0]
            w.append((a, e['o'])); s = e['t']
        res.append(w)
    return res


class PTree:
    """the prefix tree of the data, built from the data alone"""
    def __init__(self, traces, lab0):
        self.syms = sorted({x for w in traces for x in w})
        self.num = {x: i for i, x in enumerate(self.syms)}
        self.kid, self.cnt, self.par, self.by, self.dep, self.lab = [], [], [], [], [], []
        self.new(1, 1, 0, lab0)
        for w in traces:
            n = 1
            for x in w:
                s = self.num[x]
                if not self.kid[n - 1][s]:
                    self.kid[n - 1][s] = self.new(n, s + 1, self.dep[n - 1] + 1, x[1] if lab0 != '' else '')
                self.cnt[n - 1][s] += 1
                n = self.kid[n - 1][s]

    def new(self, par, by, dep, lab):
        S = len(self.syms)
        self.kid.append([0] * S); self.cnt.append([0] * S)
        self.par.append(par); self.by.append(by); self.dep.append(dep); self.lab.append(lab)
        return len(self.kid)

    def path(self, n):
        w = []
        while n != 1:
            w.append(self.syms[self.by[n - 1] - 1]); n = self.par[n - 1]
        return tuple(reversed(w))

    def find(self, w):
        n = 1
        for x in w:
            n = self.kid[n - 1][self.num[x]] if x in self.num else 0
            if not n:
                return 0
        return n

    def spec(self, enc, key=None):
        N = len(self.kid)
        try:
            order = sorted(range(1, N + 1), key=lambda n: (self.dep[n - 1], [key(x) for x in self.path(n)])) if key else list(range(1, N + 1))
        except TypeError:
            order = sorted(range(1, N + 1), key=lambda n: (self.dep[n - 1], [str(key(x)) for x in self.path(n)]))
        rank = [0] * N
        for i, n in enumerate(order):
            rank[n - 1] = i
        return {'N': N, 'S': len(self.syms), 'symA': [a for a, _ in self.syms], 'symO': [enc(o) for _, o in self.syms], 'kid': self.kid, 'cnt': self.cnt,
                'par': self.par, 'by': self.by, 'dep': self.dep, 'lab': [enc(x) if x != '' else '' for x in self.lab], 'rank': rank}


def crit_hoef(eps):
    l2 = 100 * .5 * math.log(2 / eps)
    return {'what': 'hoef', 'lo': int(math.floor(l2 + 1e-9)) if l2 > 1e-6 else 0, 'hi': int(math.ceil(l2 - 1e-9)) if l2 > 1e-6 else 0}


def raw_data(kind, c, traces, lab0, rng):
    """the data as the library wants it for this kind of model"""
    f = lambda x: (c.alphabet[x[0] - 1], c.g(x[1]))
    box = rng.choice((list, tuple))
    if kind not in LABELLED:
        return [box(f(x) for x in w) for w in traces]
    if kind == 'mc':
        return [box([c.g(lab0)] + [c.g(o) for _, o in w]) for w in traces]
    return [box([c.g(lab0)] + [f(x) for x in w]) for w in traces]


def setup(it, rng):
    g, kind = it['g'], it['kind']
    c = Coding(kind, g['k'], it['inp'], it['out'])
    traces = sample_graph(g, rng, it['count'], it['len'], kind == 'mc')
    lab0 = g['lab'][g['init'] - 1] if kind in LABELLED else ''
    t = PTree(traces, lab0)
    e = lambda o: enc_out(c.g(o))
    data = raw_data(kind, c, traces, lab0, rng)
    real = lambda x: c.g(x[1]) if kind == 'mc' else (c.alphabet[x[0] - 1], c.g(x[1]))
    return c, t, data, t.spec(e, real), real


def run_alergia(it):
    import random as R
    rng = R.Random(it['seed'])
    from aalpy.learning_algs import run_Alergia
    from aalpy.automata import Mdp, MarkovChain, StochasticMealyMachine
    from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import CompatibilityChecker
    kind = it['kind']
    c, t, data, d, real = setup(it, rng)
    eps = it['eps']
    val = 10 / max(1, sum(len(x) - 1 for x in data)) if eps == 'auto' else eps
    kw = {'eps': eps}
    crit = crit_hoef(min(val, 2)) if val <= 2 else None
    if it['checker']:
        lim = it['checker']

        class Tot(CompatibilityChecker):
            def are_states_different(self, a, b, **kw):
                return abs(sum(a.original_input_frequency.values()) - sum(b.original_input_frequency.values())) > lim
        kw['compatibility_checker'] = Tot()
        crit = {'what': 'tot', 'lo': lim, 'hi': lim}
    if crit is None or eps == 'auto' and sum(len(x) - 1 for x in data) < 6:
        return []                                   # not a confidence level

    def go():
        m = run_Alergia(data, kind, print_info=False, **kw)
        node = []
        back = {real(x): x for x in t.syms}
        for s in m.states:
            w = [back.get(x) for x in s.prefix]
            node.append(0 if None in w else t.find(w))
        return {'what': 'alergia', 'd': d, 'M': gproject(kind, m, c), 'node': node, 'moore': kind != 'smm', 'crit': {'locals': [crit], 'depth': 99},
                'cls': type(m) is {'mdp': Mdp, 'mc': MarkovChain, 'smm': StochasticMealyMachine}[kind]}
    return [guard(go, e='learn')]


# ----------------------------------------------------------------------------- generalized state merging
GSMKINDS = {'moore': ('moore', 'deterministic'), 'mealy': ('mealy', 'deterministic'), 'ndmoore': ('moore', 'nondeterministic'),
            'onfsm': ('mealy', 'nondeterministic'), 'mdp': ('moore', 'stochastic'), 'smm': ('mealy', 'stochastic')}


def leaf(n):
    return not any(len(t) for t in n.transitions.values())


def total(n, orig):
    return sum(t.original_count if orig else t.count for _, _, t in n.transition_iterator())


def gsm_locals(it, orig, ident, t):
    """the user's local criteria: library ones and ones defined here; returns (functions, specification)"""
    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import hoeffding_compatibility
    from aalpy.learning_algs.general_passive.GsmNode import GsmNode
    fs, sp, bad = [], [], []
    for w in it['locals']:
        if w[0] == 'hoef':
            fs.append(hoeffding_compatibility(w[1], compare_original=orig)); sp.append(crit_hoef(w[1]))
        elif w[0] == 'tot':
            def tot(a, b, lim=w[1]):
                x, y = total(a, orig), total(b, orig)
                return not (x and y and abs(x - y) > lim)
            fs.append(tot); sp.append({'what': 'tot', 'lo': w[1], 'hi': w[1]})
        elif w[0] == 'det':
            
            def det(a, b):
                outs = [{i: {o for o, t in x.items() if t.original_count} for i, x in n.transitions.items()} for n in (a, b)]
                return all(not outs[0][i] or not outs[1].get(i) or outs[0][i] == outs[1][i] for i in outs[0])
            fs.append(det if orig else GsmNode.deterministic_compatible); sp.append({'what': 'det', 'lo': 0, 'hi': 0})
        elif w[0] == 'rel':                                  # an arbitrary relation between nodes of the tree
            N = len(t.kid)
            rel = lambda a, b, w=w: random.Random(hash((w[1], a, b))).random() < w[2]
            bad = [[a, b] for a in range(1, N + 1) for b in range(1, N + 1) if rel(a, b)]
            fs.append(lambda a, b, rel=rel: not rel(ident(a), ident(b)))
    return fs, sp, bad


def run_gsm(it):
    import random as R
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM, Instrumentation
    from aalpy.learning_algs.general_passive.GsmNode import GsmNode
    from aalpy.learning_algs.general_passive import ScoreFunctionsGSM as SF
    rng = R.Random(it['seed'])
    kind = it['kind']
    ob, tb = GSMKINDS[kind]
    c, t, data, d, real = setup(it, rng)
    if it['fmt'] == 'traces':
        c.alphabet = ['step']
        data = [[x[0]] + [o for _, o in x[1:]] for x in data] if ob == 'moore' else [[o for _, o in x] for x in data]
        real = lambda x: ('step', c.g(x[1]))
    back = {real(x): x for x in t.syms}
    key = lambda x: (x[0], type(x[1]).__name__, x[1])
    back = {key(real(x)): x for x in t.syms}
    nodes = {}

    def ident(n):
        return nodes.get(id(n), (0,))[0]
    ev = []

    class Watch(Instrumentation):
        def pta_construction_done(self, root):
            todo = [(root, 1)]
            while todo:
                n, i = todo.pop()
                nodes[id(n)] = (i, n)
                for a, o, ti in n.transition_iterator():
                    x = back.get(key((a, o)))
                    j = t.kid[i - 1][t.num[x]] if i and x is not None else 0
                    todo.append((ti.target, j))

        def log_promote(self, node):
            ev.append({'e': 'promote', 'n': ident(node), 'r': 0})

        def log_merge(self, part):
            ev.append({'e': 'merge', 'n': ident(part.blue), 'r': ident(part.red)})

    mode = it['mode']
    orig = mode == 'pta'
    fs, sp, bad = gsm_locals(it, orig, ident, t)
    lf = None if not fs else (lambda a, b: all(f(a, b) is not False for f in fs))
    crit = {'moore': ob == 'moore', 'det': tb == 'deterministic', 'locals': sp, 'bad': bad, 'depth': 99, 'sink': '', 'score': 'true', 'min': 0, 'minblue': False,
            'near': False, 'weighted': tb == 'stochastic', 'mode': mode, 'greedy': False}
    sc = it['score']
    sf = None
    if sc[0] == 'evid':
        sf = SF.EDSM_score(sc[1]) if sc[1] is not None else SF.EDSM_score()
        crit['score'], crit['min'] = 'evid', -1 if sc[1] is None else sc[1]
    elif sc[0] == 'freq':
        sf = SF.EDSM_frequency_score(sc[1]) if sc[1] is not None else SF.EDSM_frequency_score()
        crit['score'], crit['min'] = 'freq', -1 if sc[1] is None else sc[1]
    elif sc[0] == 'user':
        sf = lambda part: len(part) - len(set(map(id, part.values())))
        crit['score'], crit['min'] = 'evid', -1
    elif sc[0] == 'aic':
        sf = SF.AIC_score(sc[1]); crit['mode'] = 'any'; crit['greedy'] = True
    elif sc[0] == 'pairs':
        crit['score'], crit['min'] = 'pairs', -1
    if it['thresh'] is not None and crit['score'] != 'true':
        sf = SF.lower_threshold(sf, it['thresh']); crit['min'] = max(crit['min'], it['thresh'])
    if mode == 'global':
        sf = SF.local_to_global_compatibility(lf); lf = None
    if mode == 'now' and crit['score'] == 'true' and not it['wrap']:
        pass
    if it['greedy'] and sf is not None and mode != 'global':
        sf = SF.make_greedy(sf); crit['greedy'] = True
    score = SF.ScoreCalculation(lf, sf)
    if sc[0] == 'pairs':
        score = counting(lf)
    for w in it['wrap']:
        if w == 'ktail':
            score = SF.ScoreWithKTail(score, it['k']); crit['depth'] = it['k']
            if it['k'] == 0:
                crit['sink'] = ''                        # tails of length nought compare nothing at all
        elif w in ('same', 'never'):
            score = SF.ScoreWithSinks(score, leaf, allow_sink_merge=w == 'same') if w == 'never' or it['seed'] % 2 else SF.ScoreWithSinks(score, leaf)
            crit['sink'] = w
        elif w == 'greedy':
            if score.has_score_function():
                score = SF.make_greedy(score); crit['greedy'] = True
        elif w == 'thresh':
            if crit['score'] != 'true' and not crit['greedy']:
                score = SF.lower_threshold(score, it['k']); crit['min'] = max(crit['min'], it['k'])
        elif w == 'comb':
            score = SF.ScoreCombinator([SF.ScoreCalculation(lambda a, b: None), score], aggregate_score=lambda xs: list(xs)[1])
        elif w == 'comball':
            score = SF.ScoreCombinator([score, SF.ScoreCalculation()], aggregate_compatibility=lambda xs: all(x is not False for x in xs),
                                       aggregate_score=lambda xs: list(xs)[0])
    kw = {}
    if tb != 'deterministic' or fs or sf or it['wrap']:
        kw['score_calc'] = score
    if mode in ('pta', 'now'):
        kw['compatibility_on_futures'] = True; kw['compatibility_on_pta'] = mode == 'pta'
    if it.get('default'):
        kw.pop('score_calc', None)
        crit['locals'] = [crit_hoef(.005)]; crit['sink'] = ''; crit['depth'] = 99
        if mode not in ('pta', 'now'):
            crit['mode'] = 'first'
    if it['minblue']:
        kw['consider_only_min_blue'] = True; crit['minblue'] = crit['near'] = True
    if it['dfs']:
        kw['depth_first'] = True
    if it['order']:
        kw['node_order'] = {'len': lambda a, b: a.get_prefix_length() < b.get_prefix_length(), 'rev': lambda a, b: b < a, 'lex': lambda a, b: str(a.get_prefix()) < str(b.get_prefix())}[it['order']]
        crit['near'] = False
    if it['fmt'] == 'traces':
        kw['data_format'] = 'traces'
    elif it['fmt'] == 'tree':
        data = GsmNode.createPTA(data, ob, 'io_traces')
    else:
        kw['data_format'] = 'io_traces'
    flags = {'pre': 0, 'post': 0}
    if it['hooks']:
        def pre(x):
            flags['pre'] += 1; return x

        def post(x):
            flags['post'] += 1; return x
        kw.update(pta_preprocessing=pre, postprocessing=post)
    keep = repr(data) if it['fmt'] != 'tree' else ''

    def go():
        if it['convert']:
            m = run_GSM(data, output_behavior=ob, transition_behavior=tb, instrumentation=Watch(), **kw)
        else:
            m = run_GSM(data, output_behavior=ob, transition_behavior=tb, instrumentation=Watch(), convert=False, **kw).to_automaton(ob, tb)
        M = gproject(kind, m, c)
        cls = type(m) is classes(kind)[0]
        e = 'end' if cls else 'WrongModelClass'
        if it['hooks'] and (flags['pre'], flags['post']) != (1, 1):
            e = 'HooksNotApplied'
        if keep and repr(data) != keep:
            e = 'DataChanged'
        return {'M': M, 'ends': e}
    r = guard(go)
    ev2 = ev + [{'e': r['err'] or r['ends'], 'n': 0, 'r': 0}]
    return {'d': d, 'crit': crit, 'ev': ev2, 'M': r.get('M', {'n': 0, 'init': 0, 'lab': [], 'tr': [], 'k': 0, 'eps': False}), 'where': r.get('where', '')}


def counting(local):
    """evidence is the number of comparisons made"""
    from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation

    class Counting(ScoreCalculation):
        def __init__(self):
            super().__init__(); self.n = 0

        def reset(self):
            self.n = 0

        def local_compatibility(self, a, b):
            self.n += 1
            return True if local is None else local(a, b)

        def score_function(self, part):
            return self.n
    return Counting()


def run_named(it):
    """run_Alergia_EDSM, run_k_tails"""
    import random as R
    from aalpy.learning_algs.general_passive.GsmAlgorithms import run_k_tails, run_Alergia_EDSM
    from aalpy.learning_algs.general_passive.GeneralizedStateMerging import run_GSM
    from aalpy.learning_algs.general_passive.GsmNode import GsmNode
    from aalpy.learning_algs.general_passive import ScoreFunctionsGSM as SF
    from aalpy.automata import Mdp, MarkovChain, StochasticMealyMachine, Onfsm
    from aalpy.automata.NonDeterministicMooreMachine import NDMooreMachine
    rng = R.Random(it['seed'])
    kind = it['kind']
    c, t, data, d, real = setup(it, rng)
    if it['what'] == 'edsm':
        def go():
            m = run_Alergia_EDSM(data, kind, **({} if it['eps'] is None else {'eps': it['eps']}))
            md = data if kind != 'mc' else [[x[0]] + [(c.alphabet[0], o) for o in x[1:]] for x in data]
            m2 = run_GSM(md, output_behavior='mealy' if kind == 'smm' else 'moore', transition_behavior='stochastic', score_calc=counting(SF.hoeffding_compatibility(it['eps'] or .05)),
                         compatibility_on_pta=True, compatibility_on_futures=True, data_format='io_traces')
            return {'what': 'edsm', 'd': d, 'M': gproject(kind, m, c), 'M2': gproject('mdp' if kind == 'mc' else kind, m2, c), 'second': True, 'weighted': True, 'complete': False,
                    'moore': kind != 'smm', 'cls': type(m) is {'mdp': Mdp, 'mc': MarkovChain, 'smm': StochasticMealyMachine}[kind]}
    else:
        at = 'moore' if kind == 'ndmoore' else 'mealy'
        comp = it['complete']

        def go():
            m = run_k_tails(data, at, it['k'], input_completeness=comp, print_info=it['print'])
            M = gproject(kind, m, c)
            m2 = run_GSM(data, output_behavior=at, transition_behavior='nondeterministic', score_calc=SF.ScoreWithKTail(SF.ScoreCalculation(GsmNode.deterministic_compatible), it['k']), data_format='io_traces')
            if comp:
                m2.make_input_complete(comp)
            return {'what': 'tails', 'd': d, 'M': M, 'M2': gproject(kind, m2, c), 'second': True, 'weighted': False, 'complete': bool(comp), 'moore': kind == 'ndmoore',
                    'cls': type(m) is {'onfsm': Onfsm, 'ndmoore': NDMooreMachine}[kind]}
    return [guard(go, e='learn')]
