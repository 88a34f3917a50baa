import os, sys, argparse, importlib, tempfile, shutil


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    try:
        from . import boot, core
        mod = importlib.import_module('pbt.props.' + a.prop.lower())
    except BaseException:
        import traceback
        traceback.print_exc()
        print('HARNESS ERROR: cannot load check %s' % a.prop)
        return 2
    if a.replay:
        tn, case = core.read_replay(a.replay)
        d = tempfile.mkdtemp()
        try:
            res = core.replay_case(mod, tn, case, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if res is None:
            print('%s/%s: the saved case passes' % (mod.PID, tn))
            return 0
        print('%s/%s: %s: %s' % (mod.PID, tn, res[0], res[1]))
        if res[0] == 'harness':
            return 2
        print('VIOLATION property=%s replay=%s' % (mod.PID, os.path.abspath(a.replay)))
        return 1
    return core.main(mod, a.tier, a.seed, a.only, a.scale)


if __name__ == '__main__':
    sys.exit(main())
