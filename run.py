import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))    # another tree only for mutation experiments
sys.dont_write_bytecode = True
import common


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = common.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(prop.lower())
        mod.main(ctx)
        rc = ctx.finish()
    except common.MachineryError as e:
        # verdicts reached before the machinery failed still count
        if ctx.violations:
            rc = ctx.finish()
        else:
            print('MACHINERY-ERROR', e); rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc(); sys.stdout.flush(); os._exit(2)
