"""Which lines of the library a check executes: tools/cover.py ID [tier] > appended to $COV/ID.lines ; tools/cover.py report [ids...]"""
import os, sys, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
COV = os.environ.get('COV', '/tmp/cov')
os.makedirs(COV, exist_ok=True)


def executable(path):
    import types
    res = set()
    def walk(co):
        for _, _, l in co.co_lines():
            if l and l > 0:
                res.add(l)
        for c in co.co_consts:
            if isinstance(c, types.CodeType):
                res.discard(c.co_firstlineno)
                walk(c)
    walk(compile(open(path).read(), path, 'exec'))
    return res


if sys.argv[1] == 'report':
    hit = {}
    for f in os.listdir(COV):
        if f.endswith('.lines') and (len(sys.argv) < 3 or f[:-6] in sys.argv[2:]):
            for l in open(os.path.join(COV, f)):
                p, _, n = l.rstrip().rpartition(':')
                hit.setdefault(p, set()).add(int(n))
    tot = [0, 0]
    for d, _, fs in os.walk(os.path.join(R, 'aalpy')):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                defs = {n.lineno for n in ast.walk(ast.parse(open(p).read())) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
                e = executable(p) - defs
                m = sorted(e - hit.get(p, set()))
                tot[0] += len(e); tot[1] += len(m)
                if m:
                    print(f'{os.path.relpath(p, R)}: {len(e) - len(m)}/{len(e)}  missing {m}')
    print(tot)
else:
    out = open(os.path.join(COV, sys.argv[1] + '.lines'), 'ab', buffering=0)
    mon = sys.monitoring
    mon.use_tool_id(1, 'cover')
    pre = os.path.join(R, 'aalpy') + os.sep

    def line(code, n):
        if code.co_filename.startswith(pre):
            out.write(f'{code.co_filename}:{n}\n'.encode())
        return mon.DISABLE
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    sys.path.insert(0, V)
    import run
    run.main()
