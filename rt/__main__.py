import sys, time
import numpy as np
from .base import *
sys.path.insert(0, REPO)
from . import props1, props2, props3
ids = sys.argv[1].split(',') if len(sys.argv) > 1 else sorted(props1.RT)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
import traceback
for pid in ids:
    for cls in props1.RT[pid]:
        t = time.time(); st = [0, 0, 0]; known = set()
        for i in range(max(2, int(n * cls.weight))):
            rng = np.random.default_rng([1, i, int(pid[1:])])
            c = cls.gen(rng, i)
            try:
                r = cls.check(c)
                st[0] += 1
                if r: known.add(r)
            except Skip:
                st[1] += 1
            except Fail as e:
                st[2] += 1
                if st[2] < 4: print('   FAIL', i, e)
            except Exception as e:
                st[2] += 1
                if st[2] < 4: print('   EXC', i, type(e), e); traceback.print_exc(limit=-3)
        print(pid, cls.__name__, 'ok/skip/fail', st, f'{time.time() - t:.1f}s', known or '')
