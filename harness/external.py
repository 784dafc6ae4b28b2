"""Driver for learning with the external jAlergia (spec/External.tla); `java` is a stand-in script on PATH
that keeps what it is given and writes a scripted model."""
import os
import subprocess
from convert import *


def run_external(it):
    from aalpy.automata import Mdp, MarkovChain, StochasticMealyMachine
    from aalpy.learning_algs import run_JAlergia
    g, kind = it['g'], it['kind']
    c = Coding(kind, g['k'], 'str', 'str')
    c.alphabet = ['go', 'stop', 'a1'][:g['k']]
    d = f"/tmp/verif_ext_{os.getpid()}_{it['seed']}"
    old, path = os.getcwd(), os.environ['PATH']
    for x in ('bin', 'work', 'seen', 'work/sub'):
        os.makedirs(f'{d}/{x}')
    stale = it['stale'] and it['wrote']
    try:
        os.chdir(d + '/work')
        m, _ = gbuild(kind, g, c)
        if it['wrote']:
            m.save(d + '/bin/model')
        open(f'{d}/bin/java', 'w').write(f'''#!/bin/sh
n=0
while [ -e {d}/seen/args.$n ]; do n=$((n+1)); done
if [ -e jAlergiaModel.dot ]; then echo stale > {d}/seen/stale.$n; fi
for a in "$@"; do echo "$a" >> {d}/seen/args.$n; done
while [ $# -gt 0 ]; do if [ "$1" = -input ]; then cat "$2" > {d}/seen/data.$n; fi; shift; done
if [ -e {d}/bin/model.dot ]; then cat {d}/bin/model.dot > jAlergiaModel.dot; fi
''')
        os.chmod(f'{d}/bin/java', 0o755)
        os.environ['PATH'] = d + '/bin:' + path
        jar = 'sub/alergia.jar' if it['rel'] else d + '/work/sub/alergia.jar'
        if it['jar']:
            open(jar, 'w').write('jar')
        text = ''.join(','.join(s) + '\n' for s in it['data'])
        data = [list(s) if not it['tuples'] else tuple(s) for s in it['data']]
        if it['file']:
            data = 'sub/data.txt' if it['rel'] else d + '/work/sub/data.txt'
            if it['exists']:
                open(data, 'w').write(text)
        if it['stale']:
            open('jAlergiaModel.dot', 'w').write('digraph g {\n}\n')
        before = sorted(os.listdir('sub'))

        def go():
            kw = {k: v for k, v in (('eps', it['eps']), ('heap_memory', it['heap'])) if v is not None}
            r = run_JAlergia(data, kind, jar, **kw)
            calls = []
            for i in range(sum(f.startswith('args.') for f in os.listdir(d + '/seen'))):
                a = open(f'{d}/seen/args.{i}').read().split('\n')
                after = lambda key: a[a.index(key) + 1] if key in a else '?'
                f = f'{d}/seen/data.{i}'
                t = open(f).read().splitlines() if os.path.exists(f) else ['?']
                jarok = os.path.abspath(after('-jar')) == d + '/work/sub/alergia.jar' and a[0].startswith('-Xmx')
                calls.append({'seen': [x.split(',') for x in t] if jarok else [['?']], 'eps': after('-eps'), 'type': after('-type'), 'heap': a[0],
                              'stale': os.path.exists(f'{d}/seen/stale.{i}')})
            res = {'given': it['data'], 'calls': calls, 'eps': str(it['eps'] if it['eps'] is not None else 0.05), 'type': kind,
                   'heap': it['heap'] or '-Xmx2048M', 'may': it['jar'] and (not it['file'] or it['exists']), 'wrote': it['wrote'], 'some': r is not None,
                   'left': len(set(os.listdir('.')) - {'sub'}),
                   'kept': sorted(os.listdir('sub')) == before and (not (it['file'] and it['exists']) or open(d + '/work/sub/data.txt').read() == text)}
            if r is not None:
                res['model'], res['got'] = gproject(kind, m, c), gproject(kind, r, c)
                res['cls'] = type(r) is {'mdp': Mdp, 'mc': MarkovChain, 'smm': StochasticMealyMachine}[kind]
            return res
        return [guard(go, e='external')]
    finally:
        os.chdir(old)
        os.environ['PATH'] = path
        subprocess.run(['rm', '-rf', d])


def external_items(rng, count):
    res = []
    for _ in range(count):
        kind = rng.choice(('mdp', 'smm', 'mc'))
        g = random_graph(rng, kind, rng.choice((1, 2, 3, 5)), 1 if kind == 'mc' else rng.choice((1, 2, 3)), rng.choice((2, 3, 4)))
        data = []
        for _ in range(rng.choice((1, 2, 5, 20))):
            s = ['o1']
            for _ in range(rng.randrange(1, 8)):
                s += [rng.choice(['go', 'stop', 'a1'])] * (kind != 'mc') + [f'o{rng.randrange(3)}']
            data.append(s)
        res.append({'what': 'external', 'kind': kind, 'g': g, 'data': data, 'eps': rng.choice((None, .05, .5, .005, 'auto')), 'heap': rng.choice((None, None, '-Xmx512M')),
                    'jar': rng.random() < .93, 'file': rng.random() < .5, 'exists': rng.random() < .9, 'rel': rng.random() < .5, 'tuples': rng.random() < .3,
                    'wrote': rng.random() < .85, 'stale': rng.random() < .3, 'seed': rng.randrange(1 << 30)})
    return res
