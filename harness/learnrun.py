"""Runs of the active deterministic learners, recorded as Learner traces."""
import random
from common import *

CLOSING = ['shortest_first', 'longest_first', 'single', 'single_longest']
LSTAR_CEX = [None, 'rs', 'longest_prefix', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']
KV_CEX = ['rs', 'linear_fwd', 'linear_bwd', 'exponential_fwd', 'exponential_bwd']


def all_configs():
    cf = []
    for cl in CLOSING:
        for cx in LSTAR_CEX:
            for sc in (False, True):
                for ap in (True, False):
                    for ca in (True, False):
                        cf.append({'alg': 'lstar', 'closing_strategy': cl, 'cex_processing': cx, 'e_set_suffix_closed': sc,
                                   'all_prefixes_in_obs_table': ap, 'cache_and_non_det_check': ca})
    for cx in KV_CEX:
        for ca in (True, False):
            cf.append({'alg': 'kv', 'cex_processing': cx, 'cache_and_non_det_check': ca})
    for ex in (None, 'SepSeq', 'ADS'):
        for se in ('SepSeq', 'ADS'):
            for ca in (True, False):
                cf.append({'alg': 'lsharp', 'extension_rule': ex, 'separation_rule': se, 'cache_and_non_det_check': ca})
    return cf


def run_learner(cfg, coding, sul, oracle, **kw):
    from aalpy.learning_algs import run_Lstar, run_KV, run_Lsharp
    f = {'lstar': run_Lstar, 'kv': run_KV, 'lsharp': run_Lsharp}[cfg['alg']]
    args = {k: v for k, v in cfg.items() if k not in ('alg', 'limit', 'samples')}
    if cfg.get('limit'):
        args['max_learning_rounds'] = cfg['limit']
    if cfg.get('samples') is not None:
        args['samples'] = [(coding.word(w), tuple(o)) for w, o in cfg['samples']]
    args.update(kw)
    with verbosity(random.getrandbits(12)) as level:
        return f(list(coding.alphabet), sul, oracle, coding.kind, return_data=True, print_level=min(level, 2) if cfg['alg'] == 'kv' else level, **args)    # 3 makes KV draw a file


def chooser(policy, seed):
    rng = random.Random(seed)
    if policy == 'shortest':
        return lambda t, h: shortest_diff(t, h)
    if policy == 'random':
        return lambda t, h: random_diff(t, h, rng)
    if policy == 'mixed':
        return lambda t, h: random_diff(t, h, rng, tries=5, length=rng.choice((3, 8, 25))) if rng.random() < .7 else shortest_diff(t, h)
    raise ValueError(policy)


def record_run(item, choose=None, adapter=run_learner):
    """item: {'m','kind','inp','out','cfg','policy','seed'} -> list of events"""
    m, cfg = item['m'], item['cfg']
    random.seed(item['seed'])
    coding = Coding(item['kind'], m['k'], item.get('inp', 'str'), item.get('out', 'str'))
    budget = 400000
    sul = make_sul(m, coding, budget)
    ev = []
    st = {'pos': 0}
    T = coding.spec(m)
    choose = choose or chooser(item['policy'], item['seed'])

    def on_hyp(p, h):
        e = {'e': 'hyp', 'm': p, 'pre': prefixes(h, coding), 'obs': []}
        if item.get('obs'):
            seen = set()
            for w, o in log_words(sul.log[st['pos']:]):
                if w and w[0] == 0:
                    w = w[1:]; o = o[1:] if w else o
                if 0 in w:
                    continue
                key = (tuple(w), tuple(o))
                if key not in seen:
                    seen.add(key); e['obs'].append({'w': w, 'o': o})
            st['pos'] = len(sul.log)
        ev.append(e)
    on_hyp.cex = lambda w: ev.append({'e': 'cex', 'w': w})
    teacher = make_teacher(sul, T, coding, choose, on_hyp)
    model, info = adapter(cfg, coding, sul, teacher)
    ev.append({'e': 'ret', 'm': project(model, coding), 'pre': prefixes(model, coding),
               'size': info['automaton_size'], 'rounds': info['learning_rounds']})
    return {'ev': ev, 'T': T}


def to_case(item, res, **flags):
    st, val = res
    if st == 'ok':
        case = {'T': val['T'], 'ev': val['ev']}
    else:
        coding = Coding(item['kind'], item['m']['k'], item.get('inp', 'str'), item.get('out', 'str'))
        what = {'exc': 'Exception', 'hang': 'NoTermination', 'crash': 'Crash'}[st]
        case = {'T': coding.spec(item['m']), 'ev': [{'e': 'fail', 'what': what}]}
    base = {'chkhyp': False, 'chkret': False, 'chkobs': False, 'chkinfo': False, 'chkrounds': False, 'lim': 0, 'limslack': 0,
            'retlast': False, 'chkacc': False}
    base.update(flags)
    case.update(base)
    return case


def meta(item, res):
    r = {k: v for k, v in item.items()}
    if res[0] != 'ok':
        r['outcome'] = res
    return r
