"""Calls of the public interface, each made three times (spec/Frame.tla)."""
from graphs import *
from learnrun import CLOSING, LSTAR_CEX, KV_CEX
from convert import *


def fz(x, seen=None):
    """a value as text, structure of models included; what running a model leaves behind (current state, prefixes) is not"""
    from aalpy.base import Automaton
    if isinstance(x, Automaton):
        at = {id(s): i for i, s in enumerate(x.states)}

        def val(v):
            if id(v) in at:
                return f'state{at[id(v)]}'
            if isinstance(v, dict):
                return '{' + ', '.join(f'{k!r}: {val(w)}' for k, w in v.items()) + '}'
            if isinstance(v, (list, tuple)):
                return '(' + ', '.join(val(w) for w in v) + ')'
            t = getattr(v, 'target', getattr(v, 'target_state', None))
            if t is not None and hasattr(v, '__dict__'):
                return '<' + ', '.join(f'{k}={val(w)}' for k, w in sorted(vars(v).items())) + '>'
            return repr(v)
        rows = [type(x).__name__, f'initial {at.get(id(x.initial_state))}']
        for s in x.states:
            rows.append(', '.join(f'{k}={val(getattr(s, k))}' for k in ('state_id', 'is_accepting', 'output', 'output_fun', 'transitions') if hasattr(s, k)))
        return ' | '.join(rows)
    if isinstance(x, dict):
        return '{' + ', '.join(f'{fz(k)}: {fz(v)}' for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)):
        return ('[%s]' if isinstance(x, list) else '(%s)') % ', '.join(fz(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return 'set(' + ', '.join(sorted(fz(v) for v in x)) + ')'
    if type(x).__name__ in ('VpaAlphabet', 'SevpaAlphabet'):
        return fz([x.internal_alphabet, x.call_alphabet, x.return_alphabet])
    return repr(x)


def behaviour(m, al):
    """deterministic model up to names and order of states"""
    if m is None:
        return 'none'
    no, todo, rows = {id(m.initial_state): 0}, [m.initial_state], []
    for s in todo:
        row = [repr(getattr(s, 'is_accepting', getattr(s, 'output', '')))]
        for a in al:
            t = s.transitions.get(a)
            if t is not None:
                if id(t) not in no:
                    no[id(t)] = len(todo); todo.append(t)
                row.append(f"{a!r}->{no[id(t)]}" + (f'/{s.output_fun[a]!r}' if hasattr(s, 'output_fun') else ''))
        rows.append(' '.join(row))
    return ' | '.join(rows)


class Exact:
    def __new__(cls, al, sul, model):
        from aalpy.base import Oracle

        class Teacher(Oracle):
            def find_cex(self, h):
                from aalpy.utils import bisimilar
                w = bisimilar(model, h, True)
                return None if w is None or w is True else tuple(w)
        return Teacher(al, sul)


def det(rng, kind=None, n=None, k=None):
    kind = kind or rng.choice(('dfa', 'moore', 'mealy'))
    m = random_machine(rng, n or rng.choice((1, 2, 3, 4, 5)), k or rng.choice((1, 2, 3)), 2 if kind == 'dfa' else rng.choice((2, 3)), kind == 'mealy')
    c = Coding(kind, m['k'], rng.choice(('str', 'int')), 'str')
    return kind, m, c, build(kind, m, c)


def scramble(rng, al):
    al = list(al); rng.shuffle(al)
    return al


def words(rng, al, n, length):
    return [tuple(rng.choice(al) for _ in range(rng.randint(0, length))) for _ in range(n)]


def learner(rng):
    from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp, run_adaptive_Lsharp
    from aalpy.SULs import AutomatonSUL
    from aalpy.oracles import ProvidedSequencesOracleWrapper
    kind, m, c, M = det(rng)
    alg = rng.choice(('lstar', 'kv', 'lsharp', 'adaptive'))
    args = {'alphabet': scramble(rng, c.alphabet), 'system': M}
    kw = {'print_level': 0, 'cache_and_non_det_check': rng.random() < .5}
    if rng.random() < .5:
        args['given'] = [list(w) if rng.random() < .5 else w for w in words(rng, c.alphabet, 4, 6) if w]
        if rng.random() < .3:
            args['given'] += args['given'][:1]
    if rng.random() < .4 and alg != 'kv' and kw['cache_and_non_det_check']:
        args['samples'] = []
        for w in words(rng, c.alphabet, 5, 5):
            if w:
                args['samples'].append((tuple(w), tuple(M.execute_sequence(M.initial_state, w))))
        M.reset_to_initial()
    if alg == 'lstar':
        kw.update(closing_strategy=rng.choice(CLOSING), cex_processing=rng.choice(LSTAR_CEX), e_set_suffix_closed=rng.random() < .5, all_prefixes_in_obs_table=rng.random() < .5)
    elif alg == 'kv':
        kw.update(cex_processing=rng.choice(KV_CEX))
    else:
        kw.update(extension_rule=rng.choice((None, 'SepSeq', 'ADS')), separation_rule=rng.choice(('SepSeq', 'ADS')))
        if alg == 'adaptive':
            args['references'] = [build(kind, random_machine(rng, rng.choice((1, 2, 4)), m['k'], 2, kind == 'mealy'), c) for _ in range(rng.choice((1, 2)))]
            kw.update(extension_rule=None, separation_rule='SepSeq', state_matching=rng.choice(('Total', 'Approximate')), rebuilding=rng.random() < .5)

    def call():
        sul = AutomatonSUL(M)
        al = args['alphabet']
        eq = Exact(al, sul, M)
        if 'given' in args:
            eq = ProvidedSequencesOracleWrapper(al, sul, eq, args['given'])
        k2 = dict(kw)
        if 'samples' in args:
            k2['samples'] = args['samples']
        f = {'lstar': run_Lstar, 'kv': run_KV, 'lsharp': run_Lsharp}.get(alg)
        h = f(al, sul, eq, kind, **k2) if f else run_adaptive_Lsharp(al, sul, args['references'], eq, kind, **k2)
        return behaviour(h, sorted(al, key=repr))
    return alg, args, call


def passive(rng):
    from aalpy.learning_algs import run_RPNI, run_EDSM, run_GSM, run_k_tails
    kind, m, c, M = det(rng)
    ws = words(rng, c.alphabet, rng.choice((3, 8, 20)), 5)
    alg = rng.choice(('gsm', 'classic', 'edsm', 'rungsm', 'k_tails'))
    data = []
    if kind == 'mealy':
        ws = [w[:i] for w in ws for i in range(1, len(w) + 1)]
    for w in ws:
        out = M.execute_sequence(M.initial_state, w)[-1] if w else (M.initial_state.is_accepting if kind == 'dfa' else M.initial_state.output)
        data.append((list(w) if rng.random() < .5 else tuple(w), out))
    if alg in ('rungsm', 'k_tails') and rng.random() < .5 or not data:
        data = data or [((c.alphabet[0],), M.execute_sequence(M.initial_state, [c.alphabet[0]])[-1])]
    rng.shuffle(data)
    if rng.random() < .5:
        data = [list(x) for x in data]
    M.reset_to_initial()
    if alg == 'k_tails':          # traces
        data = []
        for w in words(rng, c.alphabet, 6, 5):
            out = list(M.execute_sequence(M.initial_state, w)) if w else []
            data.append([(a, o) for a, o in zip(w, out)] if kind == 'mealy' else [M.initial_state.is_accepting if kind == 'dfa' else M.initial_state.output] + list(zip(w, out)))
        data = [x for x in data if x] or [[(c.alphabet[0], 'z')]]
        M.reset_to_initial()
    args = {'data': data}
    mode = rng.choice((None, 'self_loop', 'sink_state'))

    def call():
        d = args['data']
        al = sorted(c.alphabet, key=repr)
        if alg in ('gsm', 'classic'):
            return behaviour(run_RPNI(d, kind, algorithm=alg, input_completeness=mode, print_info=False), al)
        if alg == 'edsm':
            return behaviour(run_EDSM(d, kind, input_completeness=mode, print_info=False), al)
        ob = 'mealy' if kind == 'mealy' else 'moore'
        if alg == 'k_tails':
            return fz(run_k_tails(d, ob, 1, print_info=False)) and ''
        return behaviour(run_GSM(d, output_behavior=ob, transition_behavior='deterministic', data_format='labeled_sequences'), al)
    return alg, args, call


def frequencies(rng):
    from aalpy.learning_algs import run_Alergia
    kind = rng.choice(('mc', 'mdp', 'smm'))
    data = []
    for _ in range(rng.choice((4, 15, 40))):
        n = rng.randint(1, 5)
        if kind == 'mc':
            data.append(['i'] + [rng.choice('ab') for _ in range(n)])
        elif kind == 'mdp':
            data.append(['i'] + [(rng.choice('xy'), rng.choice('ab')) for _ in range(n)])
        else:
            data.append([(rng.choice('xy'), rng.choice('ab')) for _ in range(n)])
    args = {'data': data}
    return 'alergia', args, lambda: fz(run_Alergia(args['data'], kind, eps=.5, print_info=False))


def pushdown(rng):
    from aalpy.learning_algs import run_PAPNI, run_KV
    from aalpy.automata import VpaAlphabet
    import aalpy.utils.BenchmarkSevpaModels as B
    if rng.random() < .5:
        v = VpaAlphabet(internal_alphabet=['x'], call_alphabet=['(', '['], return_alphabet=[')', ']'])
        data = []
        for _ in range(12):
            w, depth = [], []
            for _ in range(rng.randint(0, 6)):
                a = rng.choice(['x', '(', '[', ')', ']'])
                w.append(a)
            data.append((w if rng.random() < .5 else tuple(w), False))
        data += [(list('()'), True), (list('(x)'), True), (list('[]'), True)]
        args = {'data': data, 'alphabet': v}
        alg = rng.choice(('gsm', 'classic', 'edsm'))
        seen = {}
        for w, o in list(data):
            seen[tuple(w)] = o
        args['data'] = [(w, seen[tuple(w)]) for w, o in data]
        return 'papni', args, lambda: fz(run_PAPNI(args['data'], v, algorithm=alg, print_info=False)) and ''
    from aalpy.SULs import AutomatonSUL
    from aalpy.oracles import RandomWordEqOracle
    M = getattr(B, rng.choice(('sevpa_for_L1', 'sevpa_for_L2', 'sevpa_for_L7')))()
    args = {'system': M, 'alphabet': M.get_input_alphabet()}

    def call():
        sul = AutomatonSUL(M)
        run_KV(args['alphabet'], sul, RandomWordEqOracle(args['alphabet'].get_merged_alphabet(), sul, num_walks=50), 'vpa', print_level=0, max_learning_rounds=4)
        return ''
    return 'kv vpa', args, call


def oracle(rng):
    import aalpy.oracles as O
    from aalpy.SULs import AutomatonSUL
    from aalpy.base.SUL import CacheSUL
    kind, m, c, M = det(rng, k=rng.choice((2, 3)))
    H = build(kind, random_machine(rng, rng.choice((1, 2, 3)), m['k'], 2, kind == 'mealy'), c) if rng.random() < .5 else M.copy()
    for x in (M, H):
        x.compute_prefixes()
    args = {'alphabet': scramble(rng, c.alphabet), 'hypothesis': H, 'system': M}
    name = rng.choice(('BreadthFirstExplorationEqOracle', 'CacheBasedEqOracle', 'KWayStateCoverageEqOracle', 'KWayTransitionCoverageEqOracle', 'RandomWalkEqOracle',
                       'RandomWordEqOracle', 'StatePrefixEqOracle', 'TransitionFocusOracle', 'RandomWMethodEqOracle', 'WMethodEqOracle', 'RandomWpMethodEqOracle',
                       'WpMethodEqOracle', 'PacOracle', 'ProvidedSequencesOracleWrapper', 'PerfectKnowledgeEqOracle'))
    if name == 'ProvidedSequencesOracleWrapper':
        args['given'] = [list(w) for w in words(rng, c.alphabet, 4, 5) if w]
    kw = {'BreadthFirstExplorationEqOracle': {'depth': 2}, 'CacheBasedEqOracle': {'num_walks': 10}, 'KWayTransitionCoverageEqOracle': {'num_generate_paths': 30, 'max_path_len': 10},
          'RandomWalkEqOracle': {'num_steps': 100}, 'RandomWordEqOracle': {'num_walks': 10}, 'StatePrefixEqOracle': {'walks_per_state': 3}, 'TransitionFocusOracle': {'num_random_walks': 10},
          'WMethodEqOracle': {'max_number_of_states': 3}, 'WpMethodEqOracle': {'max_number_of_states': 3}, 'RandomWpMethodEqOracle': {'num_tests': 20}, 'PacOracle': {'epsilon': .2, 'delta': .2},
          'RandomWMethodEqOracle': {'walks_per_state': 3}}.get(name, {})
    # these decide equality of small models, whatever they choose
    sure = name == 'PerfectKnowledgeEqOracle'

    def call():
        sul = AutomatonSUL(M)
        al = args['alphabet']
        if name == 'CacheBasedEqOracle':
            sul = CacheSUL(sul)
            for w in itertools.product(al, repeat=2):
                sul.query(w)
        if name == 'ProvidedSequencesOracleWrapper':
            eq = O.ProvidedSequencesOracleWrapper(al, sul, O.RandomWordEqOracle(al, sul, num_walks=3), args['given'])
        elif name == 'PerfectKnowledgeEqOracle':
            eq = O.PerfectKnowledgeEqOracle(al, sul, M)
        else:
            eq = getattr(O, name)(al, sul, **kw)
        w = eq.find_cex(H)
        eq.find_cex(H)
        return str(w is None) if sure else ''
    return name, args, call


def model(rng):
    import aalpy.utils as U
    kind, m, c, M = det(rng)
    al = sorted(c.alphabet, key=repr)
    what = rng.choice(('bisimilar', 'compare', 'characterize', 'minimize', 'setup', 'copy', 'run', 'paths', 'separate', 'data', 'complete', 'from_setup', 'dfa', 'mark'))
    args = {'model': M}
    if what in ('bisimilar', 'compare'):
        args['other'] = M.copy() if rng.random() < .3 else build(kind, random_machine(rng, 3, m['k'], 2, kind == 'mealy'), c)
    if what == 'run':
        args['word'] = list(rng.choice(al) for _ in range(rng.randint(0, 6)))
    if what == 'characterize':
        M = args['model'] = M if M.is_minimal() else M
        args['initial'] = [tuple(w) for w in words(rng, al, 2, 2) if w]
    if what == 'from_setup':
        args['setup'] = M.to_state_setup()
    if what == 'dfa':
        kind = 'moore'
        _, m, c, M = det(rng, 'moore')
        for s in M.states:
            s.output = s.output == '1'
        args['model'] = M
        al = sorted(c.alphabet, key=repr)

    def call():
        if what == 'bisimilar':
            return str(U.bisimilar(M, args['other'])) + str(U.bisimilar(M, args['other'], True) is None)
        if what == 'compare':
            return str(len(U.compare_automata(M, args['other'], 5)) > 0)
        if what == 'characterize':
            M.compute_characterization_set(char_set_init=args['initial'] or None, raise_warning=False) if rng2 else M.compute_characterization_set(raise_warning=False)
            return ''
        if what == 'minimize':
            x = M.copy(); x.minimize()
            return behaviour(x, al)
        if what == 'setup':
            return fz(M.to_state_setup())
        if what == 'copy':
            return behaviour(M.copy(), al)
        if what == 'run':
            return fz(M.execute_sequence(M.initial_state, args['word'])) + fz(M.compute_output_seq(M.initial_state, args['word']))
        if what == 'paths':
            return ''.join(str(M.get_shortest_path(a, b) is None) for a in M.states for b in M.states) + str(M.is_strongly_connected()) + str(M.is_input_complete()) + fz(sorted(M.get_input_alphabet(), key=repr))
        if what == 'separate':
            return ''.join(str(M.find_distinguishing_seq(a, b, al) is None) for a in M.states for b in M.states if a is not b) + str(M.is_minimal())
        if what == 'data':
            from aalpy.utils.HelperFunctions import generate_input_output_data_from_automata
            generate_input_output_data_from_automata(M, num_sequances=5, sequance_type=rng2 and 'io_traces' or 'labeled_sequences')
            return ''
        if what == 'complete':
            return behaviour(M, al)
        if what == 'from_setup':
            return behaviour(type(M).from_state_setup(args['setup']), al)
        if what == 'dfa':
            from aalpy.utils.HelperFunctions import dfa_from_moore
            return behaviour(dfa_from_moore(M), al)
        from aalpy.utils import save_automaton_to_file
        save_automaton_to_file(M, file_type='string') if rng2 else str(M)
        return str(M)
    rng2 = rng.random() < .5
    return what, args, call


def chance(rng):
    import aalpy.utils as U
    from aalpy.automata.StochasticMealyMachine import smm_to_mdp_conversion
    kind = rng.choice(('mdp', 'smm', 'mc'))
    g = random_graph(rng, kind, rng.choice((2, 3, 4)), 2, 2)
    c = Coding(kind, g['k'], 'str', 'str')
    M, _ = gbuild(kind, g, c)
    args = {'model': M}
    what = rng.choice(('setup', 'copy', 'convert', 'prism', 'text', 'data'))

    def call():
        if what == 'setup':
            return fz(M.to_state_setup()) if kind != 'mc' else ''
        if what == 'copy':
            return fz(M.copy()) if kind != 'mc' else ''
        if what == 'convert' and kind == 'smm':
            return fz(smm_to_mdp_conversion(M))
        if what == 'prism' and kind == 'mdp':
            U.mdp_2_prism_format(M, 'm')
        if what == 'data' and kind == 'mdp':
            from aalpy.utils.HelperFunctions import mc_from_mdp
            return fz(mc_from_mdp(M, c.alphabet[0]))
        return str(M)
    return kind + ' ' + what, args, call


def generator(rng):
    from aalpy.utils.AutomatonGenerators import generate_random_mealy_machine, generate_random_moore_machine, generate_random_dfa, generate_random_deterministic_automata, generate_random_mdp, generate_random_smm
    args = {'inputs': scramble(rng, 'abc'), 'outputs': scramble(rng, [3, 1, 2])}
    what = rng.choice(('mealy', 'moore', 'dfa', 'det', 'mdp', 'smm'))
    if what in ('mdp', 'smm'):
        args = {'probabilities': [(1.,), (1.,), (.5, .5), (.8, .2)]}

    def call():
        if what == 'mealy':
            generate_random_mealy_machine(4, args['inputs'], args['outputs'])
        elif what == 'moore':
            generate_random_moore_machine(4, args['inputs'], args['outputs'])
        elif what == 'dfa':
            generate_random_dfa(4, args['inputs'])
        elif what == 'det':
            generate_random_deterministic_automata('mealy', 4, 3, 3, custom_input_alphabet=args['inputs'], custom_output_alphabet=args['outputs'])
        else:
            (generate_random_mdp if what == 'mdp' else generate_random_smm)(4, 2, 3, possible_probabilities=args['probabilities'])
        return ''
    return 'random ' + what, args, call


def sampled(rng):
    from aalpy.learning_algs import run_non_det_Lstar, run_stochastic_Lstar
    from aalpy.SULs import AutomatonSUL
    from aalpy.oracles import RandomWalkEqOracle
    kind = rng.choice(('onfsm', 'mdp', 'smm'))
    g = random_graph(rng, kind, rng.choice((2, 3)), 2, 2)
    c = Coding(kind, g['k'], 'str', 'str')
    M, _ = gbuild(kind, g, c)
    args = {'alphabet': scramble(rng, c.alphabet), 'system': M}

    def call():
        sul = AutomatonSUL(M)
        al = args['alphabet']
        eq = RandomWalkEqOracle(al, sul, num_steps=60)
        if kind == 'onfsm':
            run_non_det_Lstar(al, sul, eq, n_sampling=5, max_learning_rounds=4, print_level=0)
        else:
            run_stochastic_Lstar(al, sul, eq, automaton_type=kind, min_rounds=2, max_rounds=3, n_c=3, n_resample=20, print_level=0)
        return ''
    return kind + ' L*', args, call


KINDS = [learner] * 6 + [passive] * 6 + [frequencies] * 2 + [pushdown] * 2 + [oracle] * 5 + [model] * 7 + [chance] * 3 + [generator] * 2 + [sampled]


def prepare(op, seed):
    rng = random.Random(seed)
    random.seed(seed)
    return KINDS[op](rng)


def once(prepared, seed):
    random.seed(seed)
    try:
        return str(prepared[2]())
    except (ValueError, AssertionError, NotImplementedError) as x:
        return 'refused ' + type(x).__name__


def apart(f):
    """f() in a process of its own"""
    import os, pickle, traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = ('ok', f())
            except BaseException as x:
                res = ('exc', ''.join(traceback.format_exception(x))[-800:])
            with os.fdopen(w, 'wb') as out:
                pickle.dump(res, out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    import pickle
    st, v = pickle.loads(data)
    if st == 'exc':
        raise RuntimeError(v)
    return v


def thrice(item):
    # only loaded here: every call is made in a process of its own
    import aalpy, aalpy.learning_algs, aalpy.oracles, aalpy.utils, aalpy.SULs, aalpy.utils.BenchmarkSevpaModels, aalpy.utils.BenchmarkVpaModels
    op, seed = item['op'], item['seed']

    def first():
        p = prepare(op, seed)
        before = {k: fz(v) for k, v in p[1].items()}
        res = once(p, seed)
        return p[0], res, [{'name': k, 'before': before[k], 'after': fz(v)} for k, v in p[1].items()]

    def later():
        once(prepare(*item['other']), item['other'][1])
        p = prepare(op, seed)
        return once(p, seed), once(p, seed)
    what, res, rec = apart(first)
    l, a = apart(later)
    return [{'e': 'frame', 'err': '', 'what': what, 'args': rec, 'first': res, 'later': l, 'again': a}]
