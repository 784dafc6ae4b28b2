import warnings; warnings.simplefilter("ignore")
"""Mutation experiments (development only): tools/mutants.py PROP N SEED file[:func,func...] ...
Mutates the named files of /repo in scratch copies and reports the mutants the check does not notice."""
import ast, os, random, subprocess, sys, shutil, concurrent.futures as cf
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(src, funcs):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    res = []

    def add(n, new, what):
        a, b = pos(n)
        res.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))
    seg = lambda n: raw[pos(n)[0]:pos(n)[1]].decode()

    def visit(node, inside):
        for ch in ast.iter_child_nodes(node):
            ins = inside
            if isinstance(ch, (ast.FunctionDef,)):
                ins = inside or not funcs or ch.name in funcs
            if ins:
                one(ch)
            visit(ch, ins)

    def one(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP[type(n.ops[0])]
            add(n, f'{seg(n.left)} {op} {seg(n.comparators[0])}', f'cmp->{op}')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(' + seg(v) + ')' for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(' + seg(v) + ')' for j, v in enumerate(n.values) if j != i) + ')', f'drop operand {i}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(' + seg(n.operand) + ')', 'drop not')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, str(n.value + 1), '+1')
            if n.value > 0:
                add(n, str(n.value - 1), '-1')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            op = '-' if isinstance(n.op, ast.Add) else '+'
            add(n, f'{seg(n.left)} {op} {seg(n.right)}', 'arith')
            add(n, seg(n.left), 'drop right')
        elif isinstance(n, ast.If):
            add(n.test, f'not ({seg(n.test)})', 'negate if')
            add(n.test, 'False', 'if False'); add(n.test, 'True', 'if True')
        elif isinstance(n, ast.IfExp):
            add(n, seg(n.body), 'ifexp body'); add(n, seg(n.orelse), 'ifexp else')
        elif isinstance(n, (ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) \
                or isinstance(n, ast.Delete):
            add(n, 'pass', 'delete ' + seg(n)[:40])
        elif isinstance(n, ast.Assign):
            add(n, 'pass', 'delete ' + seg(n)[:40])
        elif isinstance(n, ast.Slice):
            pass
    visit(tree, False)
    return [(l, w, s) for l, w, s in res if compiles(s)]


def compiles(s):
    try:
        ast.parse(s); return True
    except SyntaxError:
        return False


def main():
    prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    par = int(os.environ.get('PAR', '3'))
    cand = []
    for spec in sys.argv[4:]:
        f, _, fs = spec.partition(':')
        src = open('/repo/' + f).read()
        cand += [(f, l, w, s) for l, w, s in mutants(src, set(fs.split(',')) if fs else set())]
    random.Random(seed).shuffle(cand)
    total = len(cand); cand = cand[:n]

    def run(i):
        f, l, w, s = cand[i]
        root = f'/tmp/mut/{prop}_{os.getpid()}_{i}/repo'
        os.makedirs(root)
        shutil.copytree('/repo/aalpy', root + '/aalpy', ignore=shutil.ignore_patterns('__pycache__'))
        open(f'{root}/{f}', 'w').write(s)
        env = dict(os.environ, VERIF_REPO=root, VERIF_OUT=os.path.dirname(root) + '/out', VERIF_SEED='1')
        try:
            r = subprocess.run(['./check.sh', prop, 'quick'], cwd=os.environ.get('VDIR', '/verif'), env=env, capture_output=True, text=True, timeout=600)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            rc, out = 'timeout', ''
        shutil.rmtree(os.path.dirname(root))
        return rc, out
    with cf.ThreadPoolExecutor(par) as ex:
        rs = list(ex.map(run, range(len(cand))))
    killed = sum(r[0] == 1 for r in rs)
    print(f'{prop}: {killed}/{len(cand)} noticed (of {total} candidates)')
    for (f, l, w, s), (rc, out) in sorted(zip(cand, rs), key=lambda x: (x[0][0], x[0][1])):
        if rc != 1:
            old = open('/repo/' + f).read().split('\n')[l - 1].strip()
            print(f'  rc={rc} {f}:{l} [{w}] {old[:100]}' + ('' if rc == 0 else ' || ' + ' | '.join(out.strip().splitlines()[-2:])[:200]))


main()
