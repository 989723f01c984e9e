"""Evaluate the run-time contracts of one property on the real code; prints one JSON line."""
import sys
import time
import json
import traceback
import numpy as np
from .base import *
sys.path.insert(0, REPO)
from . import props1, props2, props3

RT = props1.RT
# cases per contract and tier, for a unit weight
QUICK = {'C10': 500, 'C11': 500, 'C16': 900, 'C18': 700, 'C21': 600, 'C06': 1500, 'C07': 1200, 'C08': 1200, 'C09': 1500}
FACTOR = 12


def run_one(cls, case):
    """None, ('known', tag) or ('fail', message)"""
    try:
        r = cls.check(case)
        return ('known', r) if r else None
    except Skip:
        raise
    except Fail as e:
        return 'fail', str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{f.name}:{f.lineno}' for f in reversed(tb[-3:]))
        return 'fail', f'{type(e).__name__}: {e} ({where})'


def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        if 'case' not in d:
            print('no failing input: the replay file names the failed obligation')
            for o in d.get('failed_obligations', []):
                print(' ', o['name'], o.get('why', ''))
            return 0
        cls = next(c for c in RT[d['property']] if c.__name__ == d['contract'])
        try:
            r = run_one(cls, dec(d['case']))
        except Skip as e:
            r = None
        print('reproduced:' if r else 'holds', r or '')
        return 1 if r else 0
    pid, k, n, seed, tier, budget = sys.argv[1], *map(int, sys.argv[2:5]), sys.argv[5], float(sys.argv[6])
    t0 = time.time()
    out = {'evaluations': 0, 'skipped': 0, 'nontrivial': 0, 'known': [], 'fails': [], 'samples': []}
    total = QUICK.get(pid, 2000) * (FACTOR if tier == 'thorough' else 1)
    seen = set()
    classes = RT[pid]
    todo = [max(2, int(total * c.weight)) for c in classes]
    pos = [k] * len(classes)
    while any(p < t for p, t in zip(pos, todo)) and time.time() - t0 < budget and len(out['fails']) < 3:
        # keep the contracts in step with one another
        ci = min(range(len(classes)), key=lambda c: pos[c] / todo[c])
        cls, i = classes[ci], pos[ci]
        pos[ci] += n
        rng = np.random.default_rng([seed, i, int(pid[1:])])
        case = cls.gen(rng, i)
        try:
            r = run_one(cls, case)
        except Skip:
            out['skipped'] += 1
            continue
        out['evaluations'] += 1
        h = hash(json.dumps(enc(case), default=str))
        if h not in seen:
            seen.add(h)
            out['nontrivial'] += 1
        if len(out['samples']) < 1 and i >= 20:
            out['samples'].append({'contract': cls.__name__, 'input': brief(case)})
        if r and r[0] == 'known':
            if r[1] not in out['known']:
                out['known'].append(r[1])
        elif r:
            out['fails'].append({'contract': cls.__name__, 'what': r[1], 'case': enc(case)})
    print(json.dumps(out, default=str))


if __name__ == '__main__':
    sys.exit(main())
