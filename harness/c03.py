import random
from common import *
import learnrun as L, cacherun as R, oracles as Q
import c01, protorun


def compress(log):
    """pre/step/post log -> protocol events; runs of complete tests become one event"""
    ev, i, n = [], 0, len(log)
    big = n > 400
    while i < n:
        e = log[i]
        if e[0] == 'step':
            c = 0
            while i < n and log[i][0] == 'step':
                c += log[i][1] != 0
                i += 1
            ev.append({'e': 'steps', 'n': c})
        elif e[0] in ('pre', 'post'):
            ev.append({'e': e[0]}); i += 1
        else:
            ev.append(e[1]); i += 1
    if not big:
        return ev
    out, i = [], 0
    while i < len(ev):
        kinds = [x['e'] for x in ev[i:i + 3]]
        if kinds == ['pre', 'steps', 'post']:
            c, s = 1, ev[i + 1]['n']; i += 3
        elif kinds[:2] == ['pre', 'post']:
            c, s = 1, 0; i += 2
        else:
            out.append(ev[i]); i += 1
            continue
        if out and out[-1]['e'] == 'tests':
            out[-1]['c'] += c; out[-1]['n'] += s
        else:
            out.append({'e': 'tests', 'c': c, 'n': s})
    return out


def mark(oracle, sul):
    orig = oracle.find_cex

    def find(h):
        sul.log.append(('mark', {'e': 'eqb'}))
        r = orig(h)
        sul.log.append(('mark', {'e': 'eqe', 'q': oracle.num_queries, 's': oracle.num_steps}))
        return r
    oracle.find_cex = find


def run(item):
    m = item['m']
    random.seed(item['seed'])
    coding = Coding(item['kind'], m['k'], item['inp'], item['out'])
    sul = make_sul(m, coding, 300000)
    if item.get('ops'):
        return ops(item, sul, coding)
    model = build(item['kind'], m, coding)
    orc = Q.make(item['oracle'], item['params'], coding.alphabet, sul, coding, model)
    mark(orc, sul)
    try:
        _, info = L.run_learner(item['cfg'], coding, sul, orc)
    except Budget:
        return None
    return compress(sul.log) + [{'e': 'ret', 'ql': info['queries_learning'], 'sl': info['steps_learning'], 'qe': info['queries_eq_oracle'],
                                 'se': info['steps_eq_oracle']}]


class Ads:
    def __init__(self, plan):
        self.plan = list(plan)

    def next_input(self, last):
        return self.plan.pop(0) if self.plan else None


def ops(item, sul, coding):
    """direct use of the system wrapper: queries, io queries, adaptive queries"""
    for op, w, ext, peek in item['ops']:
        word = coding.word(w)
        if op == 'query':
            sul.query(word)
        elif op == 'io':
            sul.io_query(word)
        else:
            sul.adaptive_query(list(word), Ads(([tuple()] if peek else []) + list(coding.word(ext))))
        sul.log.append(('mark', {'e': 'cnt', 'q': sul.num_queries, 's': sul.num_steps}))
    return compress(sul.log)


def main(ctx):
    rng = ctx.rng('c03')
    R.judge_histories(ctx, R.history_items(ctx, ctx.quick), True)
    cfgs = L.all_configs()
    pool = {'moore': ctx.gen_machines(3, 2, 2, False), 'mealy': ctx.gen_machines(2, 2, 2, True)}
    items = []
    per = 60 if ctx.quick else 900
    for name in Q.NAMES:
        for i in range(per * (4 if name == 'provided' else 1)):
            c = rng.choice([c for c in cfgs if (name != 'cachebased' or c['cache_and_non_det_check']) and
                            (rng.random() < .5 or c['alg'] != 'lstar')])
            kind = rng.choice(('dfa', 'moore', 'mealy'))
            if i % 3 == 0:
                m = rng.choice(pool['mealy' if kind == 'mealy' else 'moore'])
            else:
                m = random_machine(rng, rng.choice((2, 3, 4, 5)), rng.choice((1, 2, 3)), 2, kind == 'mealy')
            items.append({'m': m, 'kind': kind, 'cfg': c, 'inp': rng.choice(('str', 'int', 'tuple')), 'out': 'str', 'oracle': name,
                          'params': Q.draw(name, rng, m), 'seed': rng.randrange(1 << 30)})
    for i in range(200 if ctx.quick else 3000):
        kind = rng.choice(('dfa', 'moore', 'mealy'))
        m = random_machine(rng, 3, 2, 2, kind == 'mealy')
        w = lambda n: [rng.randrange(2) + 1 for _ in range(rng.randrange(n))]
        items.append({'m': m, 'kind': kind, 'inp': 'str', 'out': 'str', 'seed': 1,
                      'ops': [(rng.choice(('query', 'io', 'adaptive')), w(6), w(4), rng.random() < .5 and kind != 'mealy') for _ in range(rng.randrange(1, 7))]})
    res = pmap(run, items)
    cases, metas, dropped = [], [], 0
    for it, r in zip(items, res):
        if r[0] == 'skip' or r[0] == 'ok' and r[1] is None:
            dropped += 1
            continue
        cases.append({'ev': r[1] if r[0] == 'ok' else [{'e': 'fail', 'what': r[0].capitalize()}]})
        metas.append({**it, 'outcome': r if r[0] != 'ok' else 'ok'})
    its = protorun.items(rng, 900 if ctx.quick else 9000)
    for it, r in zip(its, pmap(protorun.run, its, timeout=60)):
        if r[0] == 'skip' or r[0] == 'ok' and r[1] is None:
            dropped += 1
            continue
        cases.append({'ev': compress(r[1][0]) + [r[1][1]] if r[0] == 'ok' else [{'e': 'fail', 'what': r[0].capitalize()}]})
        metas.append({**it, 'outcome': r if r[0] != 'ok' else 'ok'})
    ctx.notes['runs_dropped'] = dropped
    ctx.judge('TraceProto', cases, metas, 'SPECIFICATION TraceSpec\nINVARIANT Inv\n', name='interaction protocol',
              sig=lambda m: m.get('what', 'det') + '|' + m.get('oracle', 'ops') + '|' + str(m['outcome']))
    ctx.assumptions = ['ending a test when none is open is harmless', 'looking at the initial output is not a step']
