"""python -m pyvc.run Cxx TIER: discharge the contracts of one property on /repo's current source; JSON on the last line."""
import sys
import json
import importlib
import traceback
import os
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)


def work(pid, tier, verbose, out):
    from .spec import Session
    S = Session(pid, tier, verbose=verbose)
    if '-o' in sys.argv:
        S.only = sys.argv[sys.argv.index('-o') + 1]
    if '-p' in sys.argv:
        S.part = tuple(int(x) for x in sys.argv[sys.argv.index('-p') + 1].split('/'))
    try:
        m = importlib.import_module('contracts.' + pid)
        S.frame = '-f' in sys.argv
        m.contract(S)
    except Exception as e:
        if verbose:
            traceback.print_exc()
        from .spec import Ob
        S.obs.append(Ob('contract', 'generation', [], None, None, f'engine error: {type(e).__name__}: {e}'))
    out.append(S.result())


def merge(rs):
    out = dict(rs[0])
    for r in rs[1:]:
        for k in ('obligations', 'failing_inputs', 'notes'):
            out[k] = out[k] + r[k]
        for k in ('trusted', 'functions', 'executed', 'assumptions'):
            out[k] = sorted(set(out[k]) | set(r[k]))
        for k in ('paths', 'solver_s', 'reachable'):
            out[k] = out[k] + r[k]
        for k, v in r['backends'].items():
            out['backends'][k] = out['backends'].get(k, 0) + v
        out['wall_s'] = max(out['wall_s'], r['wall_s'])
    return out


def parallel(n):
    import subprocess
    ps = [subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'pyvc.run'] + sys.argv[1:] + ['-p', f'{k}/{n}'], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True) for k in range(n)]
    outs = [p.communicate() for p in ps]
    for so, se in outs:
        sys.stderr.write(se)
    if '-v' in sys.argv:
        for so, se in outs:
            print(so)
        return
    print(json.dumps(merge([json.loads(so.strip().splitlines()[-1]) for so, se in outs])))


def frames(verbose):
    """C13: the frame condition of every scenario of every contract, and the scenarios of its own contract"""
    from concurrent.futures import ThreadPoolExecutor
    import subprocess
    import glob
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(here, 'contracts', 'C??.py')))
    own = importlib.import_module('contracts.C13')
    ids = [i for i in ids if i not in own.SKIP]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    jobs = [(i, p) for i in ids for p in (['0/2', '1/2'] if i in own.SPLIT else [None])]
    jobs.sort(key=lambda j: j[1] is None)

    def one(j):
        c = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'pyvc.run', j[0], tier, '-f'] + (['-o', ''] if j[0] == 'C13' else []) + (['-p', j[1]] if j[1] else []),
                           stdout=subprocess.PIPE, text=True, cwd=here)
        r = json.loads(c.stdout.strip().splitlines()[-1])
        for o in r['obligations']:
            o['name'] = f'{j[0]}: {o["name"]}' if j[0] != 'C13' else o['name']
        r['assumptions'] = [a for a in r['assumptions'] if 'divisor' not in a] if j[0] == 'C13' else []
        if verbose:
            print(j, r['wall_s'], len(r['obligations']), [(o['name'], o['status'], o['why']) for o in r['obligations'] if o['status'] != 'proved'][:5])
        return r
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, jobs))
    if not verbose:
        print(json.dumps(merge(rs)))


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    verbose = sys.argv.count('-v')
    if pid == 'C13' and '-o' not in sys.argv:
        return frames(verbose)
    if '-j' in sys.argv:
        i = sys.argv.index('-j')
        n = int(sys.argv[i + 1])
        del sys.argv[i:i + 2]
        return parallel(n)
    out = []
    t = threading.Thread(target=work, args=(pid, tier, verbose, out))
    t.start()
    t.join()
    r = out[0]
    if verbose:
        n = {}
        for o in r['obligations']:
            n[o['status']] = n.get(o['status'], 0) + 1
            if o['status'] != 'proved':
                print('  --', o['name'], o['status'], o['why'], o['path'])
        print(n, 'paths', r['paths'], 'wall', r['wall_s'], r['backends'], 'failing', [f['what'][:200] for f in r['failing_inputs']])
        return
    print(json.dumps(r, default=str))
    sys.stdout.flush()
    os._exit(0)


main()
