#!/usr/bin/env python3
"""Runs the model-checking check of one property against /repo's working tree.

  python3 run.py C01 [--tier quick|thorough]      run a check (exit 0 held, 1 violation, 2 error of the check)
  python3 run.py --replay FILE                    re-run one recorded violation
"""
import argparse, json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core, checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true', help='keep the build folder')
    a = ap.parse_args()
    if a.replay:
        return core.replay_file(a.replay)
    if a.prop not in checks.CHECKS:
        print('unknown property', a.prop)
        return 2
    run = core.Run(a.prop, a.tier, keep=a.keep)
    try:
        checks.CHECKS[a.prop](run)
        return run.finish()
    except core.CheckError as e:
        print('ERROR:', e)
        return 2
    finally:
        run.cleanup()


if __name__ == '__main__':
    sys.exit(main())
