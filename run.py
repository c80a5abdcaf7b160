"""python -B run.py C08 [--replay FILE] [--sub NAME] [--scale X] [--procs N]"""
import argparse
import importlib
import os
import shutil
import sys
import tempfile
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--procs', type=int)
    args = ap.parse_args()
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    tmp = tempfile.mkdtemp(prefix='vfrun-')
    try:
        os.environ['TMPDIR'] = tempfile.tempdir = tmp
        os.environ['MPLBACKEND'] = 'Agg'
        mpl = os.path.join(tmp, 'mpl')
        src = '/opt/rf-work/mpl'
        if os.path.isdir(src):
            shutil.copytree(src, mpl)
        else:
            os.mkdir(mpl)
        os.environ['MPLCONFIGDIR'] = mpl
        import warnings
        warnings.simplefilter('ignore')
        import vf
        import rf
        loc = os.path.realpath(os.path.dirname(rf.__file__))
        if loc != os.path.join(vf.REPO, 'rf'):
            raise RuntimeError('rf is imported from %s' % loc)
        from vf import core
        check = importlib.import_module('checks.' + args.property.lower()).CHECK
        if args.replay:
            msg = core.replay(check, os.path.abspath(args.replay))
            if msg:
                print(msg)
                print('VIOLATION property=%s replay=%s' % (check.property, args.replay))
                return 1
            print('replay passes')
            return 0
        return core.run_check(check, only=args.sub, scale=args.scale,
                              procs=args.procs)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
