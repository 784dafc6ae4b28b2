"""How many questions the deterministic learners ask (spec/Effort.tla)."""
import learnrun as L
from convert import *


def patient(rng, length):
    """counterexamples that agree for about `length` letters before they differ"""
    def choose(t, h):
        w, p, q = [], t['init'], h['init']
        if not t['mealy'] and t['o'][p - 1] != h['o'][q - 1]:
            return shortest_diff(t, h)
        good = (list(w), p, q)
        for _ in range(rng.randint(0, length)):
            opts = []
            for a in range(1, t['k'] + 1):
                p2, o1 = m_step(t, p, a); q2, o2 = m_step(h, q, a)
                if o1 == o2:
                    opts.append((a, p2, q2))
            if not opts:
                break
            a, p, q = rng.choice(opts)
            w.append(a)
            if shortest_diff({**t, 'init': p}, {**h, 'init': q}) is not None:
                good = (list(w), p, q)
        s = shortest_diff({**t, 'init': good[1]}, {**h, 'init': good[2]})
        return None if s is None else good[0] + s
    return choose


def count(item):
    cfg, m = item['cfg'], item['m']
    rng = random.Random(item['seed'] + 1)
    # everything asked of the system, in order
    seen = {}
    original = L.make_sul

    def make(*a, **kw):
        seen['sul'] = original(*a, **kw)
        return seen['sul']
    L.make_sul = make
    columns = [0]

    def learn(*a, **kw):
        model, info = L.run_learner(*a, **kw)
        columns[0] = len(info.get('characterization_set') or ())
        return model, info
    try:
        r = L.record_run(item, choose=patient(rng, item['length']), adapter=learn)
    finally:
        L.make_sul = original
    words = []
    for w, o in log_words(seen['sul'].log):
        w = w[1:] if w and w[0] == 0 else w
        words.append(tuple(w))
    tree, known = set(), 0
    for w in words:
        known += w in tree
        tree.update(w[:i] for i in range(len(w) + 1))
    return [{'e': 'effort', 'err': '', 'alg': cfg['alg'], 'how': str(cfg.get('cex_processing')), 'closed': bool(cfg.get('e_set_suffix_closed')), 'mealy': m['mealy'],
             'n': item['n'], 'k': m['k'], 'cex': [len(e['w']) for e in r['ev'] if e['e'] == 'cex'], 'asked': len(words), 'distinct': len(set(words)), 'known': known, 'columns': columns[0],
             'longest': max([len(w) for w in words] + [1])}]
