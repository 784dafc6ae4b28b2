"""Development only: undo every recorded fix in a scratch copy and report whether its property's check notices.
usage: tools/reverts.py [commit ...]"""
import os, re, shutil, subprocess, sys, concurrent.futures as cf
todo = []
for l in open('/verif/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m and (len(sys.argv) < 2 or m.group(2) in sys.argv[1:]):
        todo.append(m.groups())


def run(x):
    p, c, what = x
    if not os.path.exists(f'/verif/harness/{p.lower()}.py'):
        return 'no check', ''
    root = f'/tmp/rev/{p}_{c}'
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree('/repo', root + '/repo', ignore=shutil.ignore_patterns('__pycache__', '.git'))
    d = subprocess.run(['git', '-C', '/repo', 'show', '-R', c], capture_output=True).stdout
    r = subprocess.run(['patch', '-p1', '-s', '-f'], input=d, cwd=root + '/repo', capture_output=True)
    if r.returncode:
        shutil.rmtree(root); return 'conflict', r.stdout.decode()[:200]
    env = dict(os.environ, VERIF_REPO=root + '/repo', VERIF_OUT=root + '/out', VERIF_SEED='1')
    r = subprocess.run(['./check.sh', p, 'quick'], cwd='/verif', env=env, capture_output=True, text=True)
    shutil.rmtree(root)
    return r.returncode, ' | '.join(x for x in r.stdout.splitlines() if x.startswith('clauses'))


with cf.ThreadPoolExecutor(int(os.environ.get('PAR', '2'))) as ex:
    for x, r in zip(todo, ex.map(run, todo)):
        print(*x[:2], r[0], r[1], '' if r[0] == 1 else x[2], flush=True)
