"""Development only: build and validate planted bugs.
usage: tools/mkseed.py DEFS.py [id ...]
DEFS.py defines SEEDS: list of dict(id, property, file, edits=[(old,new)..] or files={file: edits}, needs, breaks, demo)
For each: makes /verif/seeded/<id>, checks that the demo passes on the unchanged tree and fails with the patch, that the
stable tests pass with it, and says whether the check of the property notices."""
import importlib.util, json, os, re, shutil, subprocess, sys, concurrent.futures as cf
spec = importlib.util.spec_from_file_location('defs', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
want = sys.argv[2:]


def sh(cmd, cwd, env=None, t=900):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env and dict(os.environ, **env), timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def one(s):
    d = f"/verif/seeded/{s['id']}"
    root = f"/tmp/seed/{s['id']}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    sh(f'git clone -q /repo {root}/repo', '/')
    repo = root + '/repo'
    msgs = []
    for f, edits in (s.get('files') or {s['file']: s['edits']}).items():
        t = open(f'{repo}/{f}').read()
        for a, b in edits:
            if t.count(a) != 1:
                return s, [f'edit matches {t.count(a)} times: {a[:60]!r}']
            t = t.replace(a, b)
        open(f'{repo}/{f}', 'w').write(t)
    os.makedirs(d, exist_ok=True)
    patch = sh('git diff', repo).stdout
    open(d + '/patch.diff', 'w').write(patch)
    if s.get('demo'):
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo: 0 if the property holds on the demonstrated case\n'
                                     'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONHASHSEED=0\n'
                                     'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r0 = sh(f'bash {d}/demo.sh', '/repo'); r1 = sh(f'bash {d}/demo.sh', repo)
    msgs.append(f'demo clean={r0.returncode} bug={r1.returncode}')
    if r0.returncode: msgs.append(r0.stdout[-300:] + r0.stderr[-600:])
    # stable tests in the copy
    env = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent', 'PYTHONHASHSEED': '0', 'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1',
           'PYTHONPATH': f'{repo}:/opt/vp/support'}
    r = sh(f'/opt/venv/bin/python -m pytest -q -p vp_seed -p pytest_timeout -p no:cacheprovider --tb=short --rootdir={repo} --timeout=180 '
           f'--session-timeout=780 --continue-on-collection-errors -o "python_files=test_*.py *_test.py tests_*.py" -o junit_family=xunit2 '
           f'--junitxml={root}/j.xml . ; python3 /opt/vp/results.py {root}/res.json junit:{root}/j.xml', repo + '/tests', env)
    try:
        res = json.load(open(root + '/res.json'))
        failed = stable - set(res['passed'])
    except Exception as e:
        failed = [repr(e), r.stderr[-300:]]
    msgs.append('tests ok' if not failed else f'TESTS FAIL {sorted(failed)}')
    if os.environ.get('NOCHECK') is None:
        r = sh(f'./check.sh {s["property"]} quick', '/verif', {'VERIF_REPO': repo, 'VERIF_OUT': root + '/out', 'VERIF_SEED': '1'}, 950)
        msgs.append(f'check rc={r.returncode} ' + ' | '.join(x for x in r.stdout.splitlines() if x.startswith(('clauses', 'VIOLATION'))) [:300] + (r.stderr[-300:] if r.returncode not in (0, 1) else ''))
    shutil.rmtree(root)
    return s, msgs


with cf.ThreadPoolExecutor(int(os.environ.get('PAR', '3'))) as ex:
    for s, msgs in ex.map(one, [s for s in m.SEEDS if not want or s['id'] in want]):
        print(s['id'], s['property'], *msgs, sep='\n   ', flush=True)
