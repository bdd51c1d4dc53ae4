#!/usr/bin/env python3
"""python3 mc/check.py C01 [--tier quick|thorough] [--replay FILE]

Model-checks one property of the code in /repo.  Exit 0: the property held on
everything explored.  Exit 1: it is broken, a VIOLATION line says where."""
import sys, os, json, traceback, argparse
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import Check, Violation, CheckError

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    os.environ.pop('PYTHONPATH', None)
    for k in list(os.environ):
        if k.startswith(('OMP_', 'GOMP_', 'ACC_', 'ASAN_', 'UBSAN_', 'GFORTRAN_')):
            del os.environ[k]
    import checks
    c = Check(a.pid, a.tier if a.tier in ('quick', 'thorough') else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))
    if a.replay:
        c.replay = json.load(open(a.replay))
    try:
        checks.CHECKS[a.pid](c)
    except Violation as v:
        d = os.path.join(common.OUT, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s.json' % a.pid)
        if c.replay is None:
            with open(p, 'w') as f:
                json.dump(v.replay, f, indent=1)
            c.evidence(1)
        else:
            p = a.replay
        print(str(v))
        print('VIOLATION property=%s replay=%s' % (a.pid, p))
        return 1
    except CheckError as e:
        print('check error: %s' % e, file=sys.stderr)
        return 2
    if c.replay is None:
        for k in sorted(set(c.known)):
            print('KNOWN-FINDING: property=%s %s' % (a.pid, k))
        c.evidence(0)
    print('%s: held on everything explored; states=%d transitions=%d executions compared=%d (%.1f s)' % (
        a.pid, c.stats.get('states', 0), c.stats.get('transitions', 0), c.stats.get('traces', 0), __import__('time').time() - c.t0))
    return 0

if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
