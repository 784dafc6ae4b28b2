"""Shared machinery of the drivers.  Drivers run the real code and record what it did through its
public API; every verdict is computed by TLC from the specifications in /verif/spec."""
import collections, hashlib, io, itertools, json, os, pickle, random, resource, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
REPOS = ('/repo/', os.environ.get('VERIF_REPO', '/repo').rstrip('/') + '/')
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Budget(BaseException):
    """The system under learning was stepped far more often than any terminating run needs."""


# ----------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.out = os.path.join(os.environ.get('VERIF_OUT') or os.path.join(VERIF, 'out'), prop)
        subprocess.run(['rm', '-rf', self.out]); os.makedirs(self.out, exist_ok=True)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.mc = []                      # (name, generated, distinct)
        self.samples = []
        self.violations = []              # (clause, case, replay)
        self.known_hits = []
        self.assumptions = []
        self.notes = {}
        self._n = 0
        self.known = load_known(prop)

    def rng(self, *salt):
        h = hashlib.sha256(repr((self.seed, self.prop) + salt).encode()).digest()
        return random.Random(int.from_bytes(h[:8], 'big'))

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=1500, name=None, allow_violation=False,
            deadlock=False, extra=()):
        self._n += 1
        wd = os.path.join(self.out, f'tlc{self._n}')
        os.makedirs(wd)
        cfgp = os.path.join(wd, module + '.cfg')
        if not deadlock:
            cfg += '\nCHECK_DEADLOCK FALSE\n'
        open(cfgp, 'w').write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-Xss16m', '-cp', TLAJAR, '-DTLA-Library=' + SPEC, 'tlc2.TLC',
               '-workers', str(workers or NPROC), '-metadir', os.path.join(wd, 'md'), '-noGenerateSpecTE',
               '-config', cfgp, *extra, os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ); e.update(env or {})
        outp = os.path.join(wd, 'tlc.out')
        t = time.time()
        with open(outp, 'w') as f:
            try:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=wd, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError(f'TLC timeout on {module}')
        txt = open(outp, errors='replace').read()
        gen = dist = 0
        for line in txt.splitlines():
            if 'states generated' in line and 'distinct states found' in line and not line.startswith('Progress'):
                p = line.replace(',', '').split()
                gen, dist = int(p[0]), int(p[3])
        if r.returncode != 0 and not allow_violation:
            raise MachineryError(f'TLC failed on {module} (rc {r.returncode}), see {outp}:\n' + txt[-3000:])
        self.states += dist; self.transitions += gen
        self.mc.append({'module': module, 'name': name or module, 'generated': gen, 'distinct': dist,
                        'wall_s': round(time.time() - t, 1)})
        subprocess.run(['rm', '-rf', os.path.join(wd, 'md')])
        return r.returncode, txt

    def tlc_json(self, module, cfg, **kw):
        """Run TLC and return all values printed as '@M <json>'."""
        _, txt = self.tlc(module, cfg, **kw)
        res = []
        for line in txt.splitlines():
            if line.startswith('"@M '):
                res.append(json.loads(json.loads(line)[3:]))
        return res

    def gen_machines(self, n, k, o, mealy):
        """All canonical machines with exactly<=n reachable states, from the specification."""
        raw = self.tlc_json('FsmGen', f'CONSTANTS N={n} K={k} O={o} Mealy={"TRUE" if mealy else "FALSE"}\n'
                            'INIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Canonical\n',
                            name=f'FsmGen N={n} K={k} O={o} {"mealy" if mealy else "moore"}')
        ms = []
        for r in raw:
            d = [r['d'][s * k:(s + 1) * k] for s in range(r['n'])]
            oo = [[str(x) for x in r['o'][s * k:(s + 1) * k]] for s in range(r['n'])] if mealy else [str(x) for x in r['o']]
            ms.append(mk(mealy, d, oo))
        return sorted(ms, key=lambda m: (m['n'], m['d'], m['o']))

    def validate(self, module, cases, cfg='', name=None, env=None, chunk=None, timeout=1500):
        """Validate recorded cases; returns the list of verdict strings ('ok' or a failing clause)."""
        if not cases:
            return []
        verdicts = []
        chunk = chunk or 12000
        for i in range(0, len(cases), chunk):
            part = cases[i:i + chunk]
            verdicts += self._validate(module, part, cfg, name, env, timeout)
        self.traces += len(cases)
        return verdicts

    def _validate(self, module, cases, cfg, name, env, timeout):
        fn = os.path.join(self.out, f'trace{self._n + 1}.json')
        with open(fn, 'w') as f:
            json.dump(cases, f)
        e = {'TRACE_FILE': fn}; e.update(env or {})
        rc, txt = self.tlc(module, cfg or 'SPECIFICATION TraceSpec\n', env=e, name=name, timeout=timeout, allow_violation=True)
        v = [None] * len(cases)
        pos = [0] * len(cases)
        for line in txt.splitlines():
            if line.startswith('"@V '):
                p = line.strip('"').split(' ', 3)
                i = int(p[1]) - 1
                if v[i] is None or v[i] == 'ok':
                    v[i] = p[3]; pos[i] = int(p[2])
        missing = [i for i, x in enumerate(v) if x is None]
        if rc != 0 or missing:
            raise MachineryError(f'TLC did not decide {len(missing)} of {len(cases)} cases of {module} (rc {rc}); '
                                 f'see {self.out}/tlc{self._n}/tlc.out\n' + txt[-3000:])
        self.last_pos = pos
        if len(json.dumps(cases)) > 2e8:
            os.remove(fn)
        return v

    # ---- verdict
    def judge(self, module, cases, meta, cfg='', name=None, env=None, sig=None, chunk=None):
        """Validate and record violations. meta[i] describes case i (kept out of the TLC batch)."""
        vs = self.validate(module, cases, cfg, name, env, chunk)
        for i, v in enumerate(vs):
            if v == 'ok':
                continue
            key = v + '|' + (sig(meta[i]) if sig else '')
            hit = next((k for k in self.known if key_matches(k['key'], key)), None)
            if hit:
                self.known_hits.append((hit, key))
                continue
            self.violation(v, {'module': module, 'key': key, 'meta': meta[i], 'trace': cases[i]})
        if cases and len(self.samples) < 6:
            for i in (0, len(cases) // 2):
                self.samples.append({'module': module, 'meta': trim(meta[i]), 'trace': trim(cases[i]), 'verdict': vs[i]})
        return vs

    def violation(self, clause, info):
        n = len(self.violations)
        path = os.path.join(self.out, f'replay{n}.json')
        if n < 50:
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'clause': clause, 'seed': self.seed, 'tier': self.tier, **info}, f,
                          indent=1, default=repr)
        self.violations.append((clause, path, info))

    def finish(self, level='model_checking', extra=None):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples[:6], 'tlc_runs': self.mc}
        cov.update(self.notes); cov.update(extra or {})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        evd = os.path.join(os.environ.get('VERIF_OUT') or VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        seen = set()
        for k, key in self.known_hits:
            if k['key'] not in seen:
                seen.add(k['key'])
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violations:
            cl = collections.Counter(c for c, _, _ in self.violations)
            print('clauses:', dict(cl.most_common(12)))
            for c, path, info in self.violations[:3]:
                print(f'  {c}: {json.dumps(info["meta"], default=repr)[:600]}')
            print(f'VIOLATION property={self.prop} replay={self.violations[0][1]}')
            return 1
        print(f'OK {self.prop}: {self.traces} traces, {self.states} states, {round(time.time() - self.t0, 1)}s')
        if not os.environ.get('KEEP_OUT'):
            for fn in os.listdir(self.out):
                if fn.startswith('trace'):
                    os.remove(os.path.join(self.out, fn))
        return 0


def trim(x, n=1500):
    s = json.dumps(x, default=repr)
    return json.loads(s) if len(s) <= n else s[:n] + '...'


def key_matches(pat, key):
    import fnmatch
    return fnmatch.fnmatchcase(key, pat)


def load_known(prop):
    fn = os.path.join(VERIF, 'known_findings.txt')
    res = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known: '):
                p = line.split(' ', 3)
                if p[1] == 'property=' + prop:
                    res.append({'key': p[2][len('key='):], 'what': p[3]})
    return res


# ----------------------------------------------------------------------------- verbosity
class verbosity:
    """a print level drawn from the seed of the run (mostly silent); whatever is printed is dropped"""
    def __init__(self, seed):
        self.level = (1, 2, 3)[seed // 8 % 3] if seed % 8 == 5 else 0

    def __enter__(self):
        import io
        self.saved = sys.stdout
        if self.level:
            sys.stdout = io.StringIO()
        return self.level

    def __exit__(self, *exc):
        sys.stdout = self.saved


# ----------------------------------------------------------------------------- parallel execution
def pmap(fn, items, timeout=40, nproc=None, mem_gb=3, max_hangs=3):
    """Run fn(item) in forked workers with stdout silenced. Returns a list of ('ok', value) /
    ('exc', text) / ('hang', text) / ('crash', text) / ('skip', '') per item."""
    items = list(items)
    nproc = min(nproc or NPROC, max(1, len(items)))
    tmp = f'/tmp/verif_pmap_{os.getpid()}_{time.time_ns()}'
    os.makedirs(tmp)
    results = [None] * len(items)
    slots = [list(range(w, len(items), nproc)) for w in range(nproc)]

    def child(idx, path):
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        sys.stdout.flush()
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0); os.dup2(dn, 1); os.dup2(dn, 2)
        sys.stdout = io.TextIOWrapper(os.fdopen(1, 'wb', closefd=False)); sys.stderr = sys.stdout

        def on_alarm(*_):
            raise CaseTimeout()
        signal.signal(signal.SIGALRM, on_alarm)
        hangs = 0
        with open(path, 'ab') as f:
            for i in idx:
                if hangs >= max_hangs:
                    pickle.dump((i, ('skip', '')), f); continue
                pickle.dump((i, None), f); f.flush()
                signal.alarm(timeout)
                try:
                    r = ('ok', fn(items[i]))
                except CaseTimeout:
                    r = ('hang', f'no result within {timeout}s'); hangs += 1
                except Budget as e:
                    r = ('hang', 'step budget exceeded: ' + str(e))
                except (Exception, SystemExit, MemoryError, KeyboardInterrupt) as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    loc = next((f'{os.path.basename(x.filename)}:{x.lineno}' for x in reversed(tb) if any(q in x.filename for q in REPOS)), '?')
                    inharness = tb and not any(q in tb[-1].filename for q in REPOS) and loc == '?' \
                        and not any(x.name in ('project', 'gproject', 'vproject') for x in tb)
                    r = ('harness' if inharness else 'exc', f'{type(e).__name__}: {str(e)[:200]} at {loc}')
                finally:
                    signal.alarm(0)
                try:
                    pickle.dump((i, r), f)
                except Exception as e:
                    pickle.dump((i, ('harness', 'unpicklable ' + repr(e))), f)
        os._exit(0)

    procs = {}
    rounds = [0] * nproc

    def start(w, idx):
        path = f'{tmp}/{w}_{rounds[w]}'; rounds[w] += 1
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                child(idx, path)
            except BaseException:
                os._exit(17)
        procs[pid] = (w, idx, path)
    for w in range(nproc):
        if slots[w]:
            start(w, slots[w])
    while procs:
        pid, status = os.wait()
        if pid not in procs:
            continue
        w, idx, path = procs.pop(pid)
        began = None
        try:
            with open(path, 'rb') as f:
                while True:
                    try:
                        i, r = pickle.load(f)
                    except EOFError:
                        break
                    except Exception:
                        break
                    if r is None:
                        began = i
                    else:
                        results[i] = r; began = None
        except FileNotFoundError:
            pass
        rest = [i for i in idx if results[i] is None]
        if rest:
            bad = began if began is not None else rest[0]
            results[bad] = ('crash', f'worker ended with status {status}')
            rest = [i for i in rest if i != bad]
            if rest:
                start(w, rest)
    subprocess.run(['rm', '-rf', tmp])
    # a driver that cannot use what the code returned is a finding about the code: the drivers only use
    # documented results, and on the unchanged tree no such case exists
    hb = [r for r in results if r[0] == 'harness']
    if hb:
        if os.environ.get('VERIF_DEV') or any('MachineryError' in r[1] for r in hb):
            raise MachineryError('driver error: ' + hb[0][1])
        print('unusable result:', hb[0][1][:300])
    return [('exc', 'unusable result: ' + r[1]) if r[0] == 'harness' else r for r in results]


# ----------------------------------------------------------------------------- machines
def mk(mealy, d, o, init=1, extra=False):
    return {'mealy': mealy, 'n': len(d), 'init': init, 'k': len(d[0]) if d else 0, 'd': d, 'o': o, 'extra': extra}


def m_step(m, s, a):
    t = m['d'][s - 1][a - 1]
    return t, (m['o'][s - 1][a - 1] if m['mealy'] else m['o'][t - 1])


def m_run(m, w, s=None):
    s = s or m['init']
    outs = []
    for a in w:
        s, o = m_step(m, s, a)
        outs.append(o)
    return s, outs


def random_machine(rng, n, k, o, mealy, reachable=True, outs=None):
    """random machine with all n states reachable (random spanning structure + random rest)"""
    while True:
        d = [[0] * k for _ in range(n)]
        free = [(s, a) for s in range(n) for a in range(k)]
        ok = True
        avail = [(0, a) for a in range(k)]
        for t in range(1, n):
            if not avail:
                ok = False; break
            s, a = avail.pop(rng.randrange(len(avail)))
            d[s][a] = t + 1
            avail += [(t, b) for b in range(k)]
        if not ok:
            continue
        for s, a in free:
            if d[s][a] == 0:
                d[s][a] = rng.randrange(n) + 1
        oo = [[str(rng.randrange(o)) for _ in range(k)] for _ in range(n)] if mealy else [str(rng.randrange(o)) for _ in range(n)]
        return mk(mealy, d, oo)


def min_classes(m):
    """driver-side helper used only to choose interesting inputs (never for verdicts)"""
    c = [str(x) for x in m['o']]
    n = m['n']
    while True:
        key = [(c[s], tuple(c[t - 1] for t in m['d'][s])) for s in range(n)]
        ids = {}
        c2 = [ids.setdefault(x, len(ids)) for x in key]
        if len(ids) == len(set(c)):
            return len(ids)
        c = c2


INPUTS = {'str': lambda a: 'abcdefgh'[a - 1], 'int': lambda a: a - 1, 'mixed': lambda a: ('a', 0, 'b', 7, '', 'x y')[a - 1],
          'tuple': lambda a: ('in', a), 'key': lambda a: ('label', 'push', 'doublecircle', 'node', 'popcorn', '1a')[a - 1]}
OUTPUTS = {'str': lambda o: 'o' + o, 'int': lambda o: int(o), 'dfa': lambda o: o == '1',
           'falsy': lambda o: ('', 0, 'x', (), frozenset())[int(o)], 'tuple': lambda o: ('o', int(o)),
           'key': lambda o: {'0': 'doublecircle', '1': 'shape', '2': 'label', '3': 'node'}.get(o, 'x_' + o)}


def enc_out(o):
    return type(o).__name__ + ':' + str(o)


class Coding:
    """maps specification letters/outputs to concrete Python values and back"""

    def __init__(self, kind, k, inp='str', out='str'):
        self.kind = kind
        self.inp = inp
        f = INPUTS[inp]
        self.alphabet = [f(a) for a in range(1, k + 1)]
        self.out = 'dfa' if kind == 'dfa' else out
        self.g = OUTPUTS[self.out]

    def word(self, w):
        return tuple(self.alphabet[a - 1] for a in w)

    def unword(self, w):
        return [self.letter(x) for x in w]

    def letter(self, x):
        try:
            return self.alphabet.index(x) + 1
        except ValueError:
            return 0

    def spec(self, m):
        """machine with outputs encoded as they will be projected from real values"""
        e = lambda o: enc_out(self.g(o))
        r = dict(m)
        r['o'] = [[e(x) for x in row] for row in m['o']] if m['mealy'] else [e(x) for x in m['o']]
        return r


def build(kind, m, coding, order=None, ids=None):
    """AALpy automaton with the structure of m (states created with the public constructors)"""
    from aalpy.automata import Dfa, DfaState, MealyMachine, MealyState, MooreMachine, MooreState
    sid = ids or (lambda i: f's{i}')
    if kind == 'dfa':
        st = [DfaState(sid(i), coding.g(m['o'][i])) for i in range(m['n'])]
    elif kind == 'moore':
        st = [MooreState(sid(i), coding.g(m['o'][i])) for i in range(m['n'])]
    else:
        st = [MealyState(sid(i)) for i in range(m['n'])]
    for i in range(m['n']):
        for a in range(m['k']):
            t = m['d'][i][a]
            if t:
                st[i].transitions[coding.alphabet[a]] = st[t - 1]
                if kind == 'mealy':
                    st[i].output_fun[coding.alphabet[a]] = coding.g(m['o'][i][a])
    cls = {'dfa': Dfa, 'moore': MooreMachine, 'mealy': MealyMachine}[kind]
    lst = [st[i] for i in order] if order else list(st)
    return cls(st[m['init'] - 1], lst)


def project(model, coding, kind=None):
    """Abstract state of a deterministic AALpy model, read from its public attributes."""
    kind = kind or coding.kind
    states = list(model.states)
    idx = {id(s): i + 1 for i, s in enumerate(states)}
    al = coding.alphabet
    d, o, extra = [], [], False
    for s in states:
        d.append([(idx.get(id(s.transitions[a]), -1) if a in s.transitions else 0) for a in al])
        extra = extra or any(x not in al for x in s.transitions)
        if kind == 'mealy':
            o.append([(enc_out(s.output_fun[a]) if a in s.output_fun else 'missing') for a in al])
            extra = extra or any(x not in al for x in s.output_fun)
        else:
            o.append(enc_out(s.is_accepting if kind == 'dfa' else s.output))
    return {'mealy': kind == 'mealy', 'n': len(states), 'init': idx.get(id(model.initial_state), 0), 'k': len(al), 'd': d,
            'o': o, 'extra': bool(extra)}


def prefixes(model, coding):
    res = []
    for s in model.states:
        try:
            res.append([0] if s.prefix is None else coding.unword(s.prefix))
        except TypeError:
            res.append([0])
    return res


# ----------------------------------------------------------------------------- systems under learning
def make_sul(m, coding, budget=None):
    """A recording system: its behaviour is the specification machine m itself, not AALpy code.
    sul.log collects every pre/step/post call with its answer."""
    from aalpy.base import SUL

    class RecSUL(SUL):
        def __init__(self):
            super().__init__()
            self.log = []
            self.state = None
            self.nsteps = 0
            self.faults = None

        def pre(self):
            self.state = m['init']
            self.log.append(('pre',))

        def post(self):
            self.log.append(('post',))

        def step(self, letter):
            self.nsteps += 1
            if budget and self.nsteps > budget:
                raise Budget(str(self.nsteps))
            if letter is None:
                out = coding.g(m['o'][self.state - 1]) if not m['mealy'] else None
                self.log.append(('step', 0, out))
                return out
            a = coding.alphabet.index(letter) + 1
            self.state, o = m_step(m, self.state, a)
            out = coding.g(o)
            self.log.append(('step', a, out))
            return out
    return RecSUL()


def log_words(log):
    """group a pre/step/post log into executed tests: list of (word, outputs)"""
    res, cur = [], None
    for e in log:
        if e[0] == 'pre':
            cur = ([], [])
        elif e[0] == 'step' and cur is not None:
            cur[0].append(e[1]); cur[1].append(enc_out(e[2]))
        elif e[0] == 'post':
            if cur is not None:
                res.append(cur)
            cur = None
    if cur is not None:
        res.append(cur)
    return res


def diff_words(m1, m2, maxlen, limit=None):
    """all words (spec letters) of length <= maxlen whose first difference is at the last letter"""
    res = []
    if not m1['mealy'] and m1['o'][m1['init'] - 1] != m2['o'][m2['init'] - 1]:
        return [[]]
    layer = [([], m1['init'], m2['init'])]
    for _ in range(maxlen):
        nxt = []
        for w, s, t in layer:
            for a in range(1, m1['k'] + 1):
                s2, o1 = m_step(m1, s, a); t2, o2 = m_step(m2, t, a)
                if o1 != o2:
                    res.append(w + [a])
                    if limit and len(res) >= limit:
                        return res
                else:
                    nxt.append((w + [a], s2, t2))
        layer = nxt
        if len(layer) > 5000:
            break
    return res


def shortest_diff(m1, m2):
    """shortest distinguishing word or None (driver side: used to play the teacher)"""
    if not m1['mealy'] and m1['o'][m1['init'] - 1] != m2['o'][m2['init'] - 1]:
        return []
    seen = {(m1['init'], m2['init'])}
    q = collections.deque([((m1['init'], m2['init']), [])])
    while q:
        (s, t), w = q.popleft()
        for a in range(1, m1['k'] + 1):
            s2, o1 = m_step(m1, s, a); t2, o2 = m_step(m2, t, a)
            if o1 != o2:
                return w + [a]
            if (s2, t2) not in seen:
                seen.add((s2, t2)); q.append(((s2, t2), w + [a]))
    return None


def random_diff(m1, m2, rng, tries=60, length=40):
    """a long random distinguishing word (first difference at its end), falling back to the shortest"""
    base = shortest_diff(m1, m2)
    if base is None:
        return None
    if base == []:
        return []
    for _ in range(tries):
        s, t, w = m1['init'], m2['init'], []
        for _ in range(length):
            a = rng.randrange(m1['k']) + 1
            s, o1 = m_step(m1, s, a); t, o2 = m_step(m2, t, a); w.append(a)
            if o1 != o2:
                return w
    return base


def well_formed(p):
    return p['n'] >= 1 and p['init'] >= 1 and all(1 <= t for row in p['d'] for t in row)


def make_teacher(sul, target_spec, coding, choose, on_hyp, max_rounds=400):
    """An exact equivalence oracle: counterexample iff one exists; `choose` picks which."""
    from aalpy.base import Oracle

    class Teacher(Oracle):
        def __init__(self):
            super().__init__(coding.alphabet, sul)
            self.rounds = 0

        def find_cex(self, hypothesis):
            self.rounds += 1
            if self.rounds > max_rounds:
                raise Budget('equivalence queries')
            p = project(hypothesis, coding)
            on_hyp(p, hypothesis)
            if not well_formed(p):
                return None          # a malformed hypothesis is reported by the specification
            w = choose(target_spec, p)
            if w is not None:
                on_cex(w)
                return coding.word(w)
            return None
    on_cex = getattr(on_hyp, 'cex', lambda w: None)
    return Teacher()
