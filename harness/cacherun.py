"""Replays histories generated from Cache.tla into CacheSUL, and records caching learners from below."""
import random
from common import *
import learnrun as L


class NoOutput(Exception):
    pass


def scripted_system(coding):
    from aalpy.base import SUL

    class Scripted(SUL):
        """answers with the outputs it has been fed"""

        def __init__(self):
            super().__init__()
            self.todo, self.done, self.ran = [], [], False

        def pre(self):
            pass

        def post(self):
            pass

        def step(self, letter):
            self.ran = True
            o = self.todo.pop(0) if self.todo else 0
            self.done.append(str(o))
            return coding.g(str(o))
    return Scripted()


def replay(item):
    """item: hist (operations with the outputs the system gives), ctype, coding parameters"""
    from aalpy.base.SUL import CacheSUL
    coding = Coding(item['kind'], item['k'], item['inp'], item['out'])
    inner = scripted_system(coding)
    c = CacheSUL(inner, cache_type=item['ctype'])
    enc = lambda o: enc_out(coding.g(str(o)))
    ev = []
    for h in item['hist']:
        inner.todo, inner.done, inner.ran = list(h['o']), [], False
        op, w = h['op'], coding.word(h['w'])
        res, err = None, False
        try:
            if op == 'query':
                res = c.query(w)
            elif op == 'pre':
                c.pre()
            elif op == 'post':
                c.post()
            elif op == 'step':
                res = [c.step(w[0])]
            elif op == 'peek':
                res = [c.step(None)]
            elif op == 'preload':
                c.cache.add_to_cache(list(w) if item.get('list') else w, tuple(coding.g(str(o)) for o in h['o']))
        except (Exception, SystemExit):
            err = True
        try:
            r = [enc_out(x) for x in res] if res is not None else []
        except TypeError:
            r = ['!' + str(res)]
        execd = [enc(o) for o in (h['o'] if op == 'preload' else inner.done)]
        ev.append({'op': op, 'w': h['w'], 'res': r, 'err': err, 'exec': [str(x) if not isinstance(x, str) else x for x in execd],
                   'ran': inner.ran, 'q': c.num_queries, 's': c.num_steps, 'c': c.num_cached_queries})
        if err:
            break
    return ev


def random_history(rng, k, o, tests, maxlen, flip):
    """random operations against a system that is deterministic except for `flip` random lies"""
    mem, hist = {}, []

    def ans(w):
        r = []
        for i in range(1, len(w) + 1):
            u = tuple(w[:i])
            v = mem.setdefault(u, rng.randrange(o))
            if rng.random() < flip:
                v = (v + 1) % o
            r.append(v)
        return r
    words = []
    for t in range(tests):
        w = [rng.randrange(k) + 1 for _ in range(rng.randrange(maxlen + 1))]
        if words and rng.random() < .5:
            base = rng.choice(words)
            w = base[:rng.randrange(len(base) + 1)] + (w[:rng.randrange(3)] if rng.random() < .5 else [])
        words.append(w)
        r = ans(w)
        if w and rng.random() < .12:
            hist.append({'op': 'preload', 'w': w, 'o': r})
        elif rng.random() < .55:
            hist.append({'op': 'query', 'w': w, 'o': r or [0]})
        else:
            hist.append({'op': 'pre', 'w': [], 'o': []})
            if rng.random() < .4:
                hist.append({'op': 'peek', 'w': [], 'o': [0]})
            for a, x in zip(w, r):
                hist.append({'op': 'step', 'w': [a], 'o': [x]})
            hist.append({'op': 'post', 'w': [], 'o': []})
    return hist


def history_items(ctx, quick):
    gens = [(2, 2, 2, 2), (1, 2, 3, 3)] if quick else [(2, 2, 2, 3), (1, 2, 3, 4), (2, 2, 3, 2)]
    rng = ctx.rng('hist')
    items = []
    for k, o, l, t in gens:
        hs = ctx.tlc_json('MCCache', f'CONSTANTS K={k} O={o} L={l} Tests={t}\nSPECIFICATION Spec\nINVARIANT Emit\nINVARIANT PrefixClosed\n',
                          name=f'cache histories K={k} O={o} L={l} Tests={t}')
        ctx.notes.setdefault('generated_histories', {})[f'K={k} O={o} L={l} Tests={t}'] = len(hs)
        cap = 12000 if quick else 80000
        if len(hs) > cap:
            hs = rng.sample(hs, cap)
        for i, h in enumerate(hs):
            items.append({'hist': h, 'k': k, 'ctype': ('tree', 'dict')[i % 2], 'kind': 'mealy',
                          'inp': ('str', 'int', 'mixed', 'tuple')[(i // 2) % 4], 'out': ('str', 'int')[(i // 8) % 2]})
            if i % 2 == 0 and i % 3 == 0:
                items.append({**items[-1], 'ctype': 'dict'})
    for i in range(3000 if quick else 30000):
        k = rng.choice((1, 2, 3))
        items.append({'hist': random_history(rng, k, rng.choice((2, 3)), rng.choice((3, 8, 25)), rng.choice((3, 6, 12)), rng.choice((0, 0, .02, .1))),
                      'k': k, 'ctype': rng.choice(('tree', 'dict')), 'kind': rng.choice(('mealy', 'dfa')), 'inp': rng.choice(('str', 'int', 'tuple')),
                      'out': rng.choice(('str', 'int'))})
    for it in items:
        it['list'] = rng.random() < .2       # data supplied in advance as lists
        if it['kind'] == 'dfa':      # two outputs only
            for h in it['hist']:
                h['o'] = [x % 2 for x in h['o']]
    return items


def judge_histories(ctx, items, chkcount):
    CH = 400
    res = pmap(lambda chunk: [replay(x) for x in chunk], [items[i:i + CH] for i in range(0, len(items), CH)])
    cases, metas = [], []
    for j, r in enumerate(res):
        if r[0] != 'ok':
            raise MachineryError('replay failed: ' + r[1])
        for it, ev in zip(items[j * CH:(j + 1) * CH], r[1]):
            cases.append({'chkcount': chkcount, 'ev': ev}); metas.append(it)
    ctx.judge('TraceCache', cases, metas, 'SPECIFICATION TraceSpec\nINVARIANT Inv\n', name='cache histories replayed', chunk=20000)


def flipping_sul(m, m2, at, coding, budget=200000):
    """answers like m for the first `at` executed inputs and like m2 afterwards; logs executions"""
    from aalpy.base import SUL

    class Flip(SUL):
        def __init__(self):
            super().__init__()
            self.log, self.t, self.word = [], 0, None

        def query(self, word):
            self.log.append(('whole',))
            return super().query(word)

        def pre(self):
            self.word = []
            self.log.append(('pre',))

        def post(self):
            self.log.append(('post',))

        def step(self, letter):
            cur = m if self.t < at else m2
            if letter is None:
                return coding.g(cur['o'][cur['init'] - 1]) if not cur['mealy'] else None
            self.t += 1
            if self.t > budget:
                raise Budget(str(self.t))
            a = coding.alphabet.index(letter) + 1
            self.word.append(a)
            out = coding.g(m_run(cur, self.word)[1][-1])
            self.log.append(('step', a, out))
            return out
    return Flip()


def below_events(log):
    ev, cur, whole = [], None, False
    for e in log + [('post',)]:
        if e[0] == 'whole':
            whole = True
        elif e[0] == 'pre':
            cur = ([], [], whole); whole = False
        elif e[0] == 'step' and cur is not None:
            cur[0].append(e[1]); cur[1].append(enc_out(e[2]))
        elif e[0] == 'post' and cur is not None:
            w, o, wh = cur
            if w or wh:
                ev.append({'op': 'xquery' if wh else 'xtest', 'w': w, 'exec': o})
            cur = None
    return ev


def run_below(item):
    """a caching learner on a system that may change its mind; seen from below"""
    from aalpy.base import Oracle
    m, m2 = item['m'], item['m2']
    random.seed(item['seed'])
    coding = Coding(item['kind'], m['k'], item['inp'], item['out'])
    sul = flipping_sul(m, m2, item['at'], coding)
    rng = random.Random(item['seed'])
    T = coding.spec(m2 if item['at'] < 50 else m)

    class Teacher(Oracle):
        rounds = 0

        def find_cex(self, hyp):
            self.rounds += 1
            if self.rounds > 60:
                return None
            for _ in range(item['tests']):
                self.reset_hyp_and_sul(hyp)
                w = [rng.randrange(m['k']) + 1 for _ in range(rng.randrange(1, 8))]
                for i, a in enumerate(w):
                    x = coding.alphabet[a - 1]
                    if hyp.step(x) != self.sul.step(x):
                        self.sul.post()
                        return coding.word(w[:i + 1])
            self.sul.post()
            p = project(hyp, coding)
            w = shortest_diff(T, p) if well_formed(p) else None
            return coding.word(w) if w is not None else None
    ret, err = None, ''
    try:
        ret = L.run_learner(item['cfg'], coding, sul, Teacher(coding.alphabet, sul))
    except (Exception, SystemExit) as e:
        err = type(e).__name__ + ' ' + str(e)[:80]
    except Budget:
        err = 'Budget'
    ev = [{'op': 'xload', 'w': w, 'exec': [enc_out(x) for x in o], 'res': [], 'err': False} for w, o in item['cfg'].get('samples') or []]
    ev += below_events(sul.log) + [{'op': 'end', 'err': bool(err), 'det': m == m2, 'w': [], 'exec': []}]
    return {'ev': ev, 'err': err}
