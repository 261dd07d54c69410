#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--seed N]: decide one property of /repo."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vkit, checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    c = checks.CHECKS[a.id]
    r = vkit.Run(a.id, tier, a.seed)
    try:
        c['fn'](r)
    except vkit.CheckError as e:
        if r.violations:  # what was seen before stands
            sys.exit(r.finish(c['level'], c['assumptions']))
        print('ERROR: property=%s %s' % (a.id, e), file=sys.stderr)
        import shutil
        shutil.rmtree(r.dir, ignore_errors=True)
        sys.exit(2)
    sys.exit(r.finish(c['level'], c['assumptions']))


main()
