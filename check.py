#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [-v] [--only HARNESS ...] | check.py --replay FILE"""
import json
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':  # sets in the same order every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        from symx import replay
        with open(a.replay) as f:
            v = json.load(f)
        r = replay.Replayer()
        print(json.dumps(v['inputs'], indent=1, sort_keys=True))
        res = r.run_any(v['prop'], v['harness'], v['case'], v['inputs'], v.get('tier', 'quick'))
        print(json.dumps(res, indent=1))
        r.close()
        return 1 if res['status'] == 'violation' else 0
    from symx import runner
    return runner.run(a.prop, a.tier, jobs=a.jobs, only=a.only, verbose=a.v, budget=a.budget)


if __name__ == '__main__':
    sys.exit(main())
