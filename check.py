#!/opt/venv/bin/python
"""check.py Cxx [--tier quick|thorough]    check.py --replay FILE"""
import os
import sys

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--procs', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    from symx import runner
    if a.replay:
        return runner.replay(a.replay)
    return runner.main(a.prop, a.tier, a.seed, only=a.only, verbose=a.v, procs=a.procs)


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
