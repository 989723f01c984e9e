"""Check of one property: contract proof of /repo's current source, then the contracts evaluated on the real code.

  check.py C01            run the check (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE  re-run a replay file on the real code
"""
import os
import sys
import json
import time
import subprocess
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
ENV = dict(os.environ, PYTHONPATH=HERE + ':' + REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')


HEAVY = {'C12', 'C11', 'C06', 'C07', 'C08', 'C09', 'C20', 'C21'}


ALARM = ('refuted', 'refused', 'unexercised')


def spawn(args):
    return subprocess.Popen([PY, '-W', 'ignore'] + args, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                            start_new_session=True)


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid = sys.argv[1]
    t0 = time.time()
    outdir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(outdir, 'replay'), exist_ok=True)
    quick = TIER != 'thorough'
    budget = 25 if quick else 400
    nproc = 4 if quick else 7
    # 1. proof obligations, in a process of its own
    pr = None
    if os.path.exists(os.path.join(HERE, 'contracts', pid + '.py')):
        pr = spawn(['-m', 'pyvc.run', pid, TIER] + (['-j', '4'] if pid in HEAVY else []))
    # 2. the contracts on the real code
    ws = [spawn(['-m', 'rt.worker', pid, str(k), str(nproc), str(SEED), TIER, str(budget)]) for k in range(nproc)]
    proof, perr = None, ''
    if pr:
        try:
            so, perr = pr.communicate(timeout=700 if quick else 3000)
            proof = json.loads(so.strip().splitlines()[-1])
        except (subprocess.TimeoutExpired, ValueError, IndexError):
            try:
                os.killpg(pr.pid, 9)
            except ProcessLookupError:
                pass
            perr = (perr or '') + '\nprover gave no result'
    rts, err = [], ''

    def collect(ws):
        nonlocal err
        for w in ws:
            so, se = w.communicate()
            try:
                rts.append(json.loads(so.strip().splitlines()[-1]))
            except (ValueError, IndexError):
                err += se[-2000:]
    collect(ws)
    if proof and any(o['status'] in ALARM for o in proof['obligations']) and not proof.get('failing_inputs') and \
       not any(r['fails'] for r in rts) and not err:
        # a failed obligation without an input: search on, with other inputs
        left = 720 - (time.time() - t0) if quick else 1500
        for seed in range(SEED + 1000, SEED + 1004):
            if left < 30 or any(r['fails'] for r in rts) or err:
                break
            b = min(50, left - 25)
            collect([spawn(['-m', 'rt.worker', pid, str(k), '8', str(seed), 'thorough', str(b)]) for k in range(8)])
            left -= b + 5
    return report(pid, t0, proof, perr, rts, err)


def report(pid, t0, proof, perr, rts, err):
    if err:
        print('ERROR: a worker failed:\n' + err, file=sys.stderr)
        return 2
    ev = sum(r['evaluations'] for r in rts)
    skip = sum(r['skipped'] for r in rts)
    known = sorted({k for r in rts for k in r['known']})
    fails = [f for r in rts for f in r['fails']]
    samples = [s for r in rts for s in r['samples']][:3]
    obls = proof['obligations'] if proof else []
    dis = [o for o in obls if o['status'] == 'proved']
    # refused: the obligation was generated from the current source and no back end accepts it
    refuted = [o for o in obls if o['status'] in ALARM]
    # outside the verifier's subset, but the run-time contracts exercise the path: bounded, never counted as proved
    open_ = [o for o in obls if o['status'] == 'unsupported']
    viol = []
    if proof:
        fails = [f for f in proof.get('failing_inputs', [])] + fails
    rdir = os.path.join('evidence', 'replay')
    if fails:
        f = fails[0]
        path = os.path.join(rdir, f'{pid}.json')
        json.dump({'property': pid, 'contract': f['contract'], 'what': f['what'], 'case': f['case'],
                   'failed_obligations': refuted + open_,
                   'replay': f'{PY} /verif/check.py --replay /verif/{path}'}, open(os.path.join(HERE, path), 'w'), indent=1)
        print(f"{pid}: {f['contract']}: {f['what']}")
        viol.append(f'VIOLATION property={pid} replay={path}')
    elif refuted:
        path = os.path.join(rdir, f'{pid}.json')
        json.dump({'property': pid, 'failed_obligations': refuted + open_, 'prover': proof}, open(os.path.join(HERE, path), 'w'), indent=1)
        for o in refuted[:4]:
            print(f"{pid}: obligation not discharged: {o['name']}: {o.get('why', '')} {o.get('path') or ''}"[:600])
        viol.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')
    if ev == 0:
        print('ERROR: nothing was evaluated', file=sys.stderr)
        return 2
    finds = known_findings(pid)
    for k in known:
        if k not in finds:
            viol.append(f'VIOLATION property={pid} replay=evidence/{pid}.json')
            print(f'{pid}: {k} (not a listed finding)')
    for k in finds:
        if k in known:
            print(f'KNOWN-FINDING: property={pid} {k}')
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'proof')
    cov = {
        'evaluations': ev, 'distinct_nontrivial': sum(r['nontrivial'] for r in rts),
        'rule': 'pseudo-random inputs satisfying the precondition of each run-time contract (rt/), run on the real code; '
                'distinct seeds give distinct inputs; a case whose precondition fails is skipped and not counted. '
                'The run-time part is bounded and never counted as proved.',
        'skipped': skip, 'samples': samples,
        'obligations': len(obls), 'discharged': len(dis),
        'checker_cmd': f'{PY} -m pyvc.run {pid} (in /verif): symbolic execution of /repo source, normal forms, z3 and cvc5',
        'trusted_base': (proof or {}).get('trusted', []) or ['no obligation generated'],
    }
    if proof:
        cov['functions_under_contract'] = proof.get('functions', [])
        cov['functions_executed'] = proof.get('executed', [])
        cov['bounded_only'] = open_
        cov['failed_obligations'] = refuted
        cov['backends'] = proof.get('backends', {})
        cov['solver_s'] = proof.get('solver_s', 0)
        cov['obligation_names'] = [f"{o['name']}: {o['status']}" + (f" ({o['by']})" if o.get('by') else '') for o in obls]
        cov['paths'] = proof.get('paths', 0)
        cov['scenarios_with_consistent_hypotheses'] = proof.get('reachable', 0)
    if perr and not proof:
        cov['prover_error'] = perr[-1500:]
    json.dump({'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
               'coverage': cov, 'assumptions': (proof or {}).get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
               'violations': len(viol)}, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    st = f"{pid}: {len(dis)}/{len(obls)} obligations discharged" + (f", {len(open_)} outside the subset (bounded check only)" if open_ else '') + \
        f"; {ev} contract evaluations on the real code, {len(fails)} failed; {time.time() - t0:.1f} s"
    print(st)
    for o in open_[:6]:
        print(f"  not proved, bounded only: {o['name']}: {o.get('why', '')}"[:300])
    for v in viol[:1]:
        print(v)
    return 1 if viol else 0


def known_findings(pid):
    out = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        if l.startswith(f'finding: property={pid} '):
            out.append(l.split(' ', 2)[2].strip())
    return out


def replay(path):
    w = spawn(['-m', 'rt.worker', '--replay', path])
    so, se = w.communicate()
    print(so + se)
    return w.returncode


if __name__ == '__main__':
    sys.exit(main())
