"""Non-deterministic L* on observable non-deterministic systems (spec/Onfsm.tla)."""
from algos import *
from graphs import *
from convert import judge_calls


class Tree:
    """everything observed so far: node 0 is the start, every other node an input/output step"""
    def __init__(self):
        self.kids = {}
        self.par, self.a, self.o, self.c = [], [], [], []

    def child(self, i, a, o):
        j = self.kids.get((i, a, o))
        if j is None:
            j = self.kids[(i, a, o)] = len(self.par) + 1
            self.par.append(i); self.a.append(a); self.o.append(o); self.c.append(0)
        self.c[j - 1] += 1
        return j

    def data(self):
        return {'par': self.par, 'a': self.a, 'o': self.o, 'c': self.c}


def make_nsul(g, c, weather, rng, tree, budget=400000):
    """system with graph g; weather 'fair': after every history the alternatives come in turn;
    'random': independent choice; 'biased': one alternative is rare"""
    from aalpy.base import SUL
    opts = {}
    for e in g['tr']:
        opts.setdefault((e['s'], e['a']), []).append((e['o'], e['t']))
    turn = {}

    class NSul(SUL):
        def __init__(self):
            super().__init__()
            self.n = self.tests = self.msteps = 0
            self.mode = 'learner'
            self.tally = {}

        def pre(self):
            self.s, self.i = g['init'], 0
            self.tests += 1
            self.tally[self.mode] = self.tally.get(self.mode, 0) + 1

        def post(self):
            pass

        def step(self, letter):
            self.n += 1
            self.tally[self.mode + '_steps'] = self.tally.get(self.mode + '_steps', 0) + 1
            if self.n > budget:
                raise Budget('system steps')
            a = c.letter(letter)
            al = opts[self.s, a]
            if weather == 'fair':
                j = turn.setdefault((self.i, a), rng.randrange(len(al)))
                turn[self.i, a] = j + 1
                o, t = al[j % len(al)]
            elif weather == 'biased':
                o, t = al[0] if rng.random() < .8 else rng.choice(al)
            else:
                o, t = rng.choice(al)
            self.i = tree.child(self.i, a, enc_out(c.g(o)))
            self.s = t
            return c.g(o)
    return NSul()


def gnext(g):
    d = {}
    for e in g['tr']:
        d.setdefault((e['s'], e['a'], e['o']), set()).add(e['t'])
    return d


def missing(g, h, rng=None, absn=lambda o: o):
    """a shortest trace of g that is impossible in h (sets of states; outputs through absn)"""
    gd, hd = {}, {}
    for e in g['tr']:
        gd.setdefault(e['s'], []).append((e['a'], e['o'], e['t']))
    for e in h['tr']:
        hd.setdefault((e['s'], e['a'], absn(e['o'])), set()).add(e['t'])
    seen = {(g['init'], frozenset([h['init']]))}
    todo = collections.deque((x, ()) for x in seen)
    while todo:
        (s, S), w = todo.popleft()
        es = list(gd.get(s, []))
        if rng:
            rng.shuffle(es)
        for a, o, t in es:
            T = frozenset(x for q in S for x in hd.get((q, a, absn(o)), ()))
            v = w + ((a, o),)
            if not T:
                return v
            if (t, T) not in seen:
                seen.add((t, T)); todo.append(((t, T), v))
    return None


def run_nondet(it):
    import random as R
    R.seed(it['seed'])
    rng = R.Random(it['seed'])
    from aalpy.base import Oracle
    from aalpy.learning_algs import run_non_det_Lstar, run_abstracted_ONFSM_Lstar
    from aalpy.oracles import RandomWalkEqOracle, RandomWordEqOracle
    g = it['g']
    c = Coding('onfsm', g['k'], it['inp'], it['out'])
    T = gspec(g, c)
    tree = Tree()
    sul = make_nsul(g, c, it['weather'], rng, tree, it.get('budget', 400000))
    real = {enc_out(c.g(e['o'])): c.g(e['o']) for e in g['tr']}
    cls = it.get('absn')
    absn = (lambda o: cls.get(o, o)) if cls is not None else (lambda o: o)
    eabs = {enc_out(c.g(o)): absn(o) for o in {e['o'] for e in g['tr']}}
    calls = []
    hyps = []

    def give(tr):
        ins, outs = [c.alphabet[a - 1] for a, _ in tr], [real[o] for _, o in tr]
        return (ins, outs) if it['seed'] % 2 else (tuple(ins), tuple(outs))

    class Teacher(Oracle):
        def find_cex(self, h):
            hyps.append(gproject('onfsm', h, c))
            if len(hyps) > 60:
                raise Budget('equivalence queries')
            p = hyps[-1]
            w = missing(T, p, rng)
            if w is None:
                return None
            return give(w)

    class Counting:
        """the equivalence oracle's own interactions are told apart from the learner's"""
        def __init__(self, inner):
            object.__setattr__(self, 'inner', inner)

        def __getattr__(self, k):
            return getattr(self.inner, k)

        def __setattr__(self, k, v):
            setattr(self.inner, k, v)

        def find_cex(self, h):
            hyps.append(None)
            sul.mode = 'oracle'
            try:
                return self.inner.find_cex(h)
            finally:
                sul.mode = 'learner'
    if it['oracle'] == 'exact':
        orc = Teacher(c.alphabet, sul)
    elif it['oracle'] == 'walk':
        orc = Counting(RandomWalkEqOracle(c.alphabet, sul, it['tests'] * 5, reset_prob=.2, reset_after_cex=it['seed'] % 2 == 0))
    else:
        orc = Counting(RandomWordEqOracle(c.alphabet, sul, it['tests'], min_walk_len=3, max_walk_len=8, reset_after_cex=it['seed'] % 2 == 0))
    samples = []
    for _ in range(it['samples']):
        s, i, ins, outs = g['init'], 0, [], []
        for _ in range(rng.choice((1, 2, 4, 6))):
            e = rng.choice([e for e in g['tr'] if e['s'] == s and (e['a'] == 1 or rng.random() < .8)] or [e for e in g['tr'] if e['s'] == s])
            ins.append(c.alphabet[e['a'] - 1]); outs.append(c.g(e['o']))
            i = tree.child(i, e['a'], enc_out(c.g(e['o']))); s = e['t']
        samples.append((tuple(ins), tuple(outs)))
    kw = {'max_learning_rounds': it['limit']} if it['limit'] else {}
    al = list(c.alphabet)

    def go():
        with verbosity(it['seed']) as level:
            if cls is not None:
                m, info = run_abstracted_ONFSM_Lstar(al, sul, orc, {c.g(o): 'abs' + x for o, x in cls.items()}, n_sampling=it['n'], return_data=True, print_level=level, **kw)
            else:
                m, info = run_non_det_Lstar(al, sul, orc, n_sampling=it['n'], samples=samples or None, stochastic=it['stochastic'], return_data=True,
                                            print_level=level, **kw)
        kind = 'smm' if it['stochastic'] else 'onfsm'
        M = gproject(kind, m, c)
        from aalpy.automata import Onfsm, StochasticMealyMachine
        pre = []
        for s in m.states:
            p = getattr(s, 'prefix', None) or ((), ())
            pre.append([{'a': c.letter(a) or 99, 'o': enc_out(o)} for a, o in zip(p[0], p[1])])
        lim = bool(it['limit']) and len(hyps) >= it['limit']
        return {'T': T, 'M': M, 'cls': type(m) is (StochasticMealyMachine if it['stochastic'] else Onfsm), 'pre': pre, 'tree': tree.data(), 'stoch': it['stochastic'],
                'checked': not lim, 'exact': it['oracle'] == 'exact' and it['weather'] == 'fair' and not lim,
                'lim': it['limit'], 'hyps': len(hyps), 'rounds': info['learning_rounds'], 'size': info['automaton_size'],
                'lq': [info['queries_learning'], info['steps_learning'], info['queries_eq_oracle'], info['steps_eq_oracle']],
                'rq': [sul.tally.get(x, 0) for x in ('learner', 'learner_steps', 'oracle', 'oracle_steps')], 'alpha': al == c.alphabet,
                'absn': [{'o': o, 'x': x} for o, x in sorted(eabs.items())], 'abstracted': cls is not None, 'identity': cls is not None and len(set(cls.values())) >= len({e['o'] for e in g['tr']}) or cls == {}}
    try:
        return [guard(go, e='learn')]
    except Budget:
        if it['weather'] == 'fair':
            raise
        return []                            # termination is promised for fair resolutions only


def branching(g, depth):
    """the largest product of numbers of alternatives along a trace of at most depth steps"""
    alts = collections.Counter((e['s'], e['a']) for e in g['tr'])
    best = {s: 1 for s in range(1, g['n'] + 1)}
    for _ in range(depth):
        best = {s: max([alts[e['s'], e['a']] * best[e['t']] for e in g['tr'] if e['s'] == s] or [1]) for s in best}
    return best[g['init']] if depth == 0 else max(best.values())
