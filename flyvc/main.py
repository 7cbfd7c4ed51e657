import argparse, os, sys, traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    from . import core
    sys.exit(core.check(a.prop, a.tier))


if __name__ == '__main__':
    main()
