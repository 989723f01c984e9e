"""Mathematical lemmas checked by Lean (lean/*.lean), used as hypotheses of the contracts."""
import os
import re
import shutil
import subprocess
from pyvc.spec import Ob
from pyvc.terms import TRUE

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean')
STD = {'propext', 'Classical.choice', 'Quot.sound'}


def lemmas(S, file, items):
    """items: {theorem: text}. Each is an obligation discharged by Lean; an assumption where Lean is missing."""
    if S.frame or S.only or (S.part and S.part[0]):
        return
    exe, job = shutil.which('lean'), None
    if exe:
        job = subprocess.Popen([exe, os.path.join(HERE, file)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def finish():
        ok = {}
        if job:
            try:
                out, _ = job.communicate(timeout=240)
                if job.returncode == 0 and 'error' not in out:
                    ok = {m[0]: set(filter(None, re.split(r'[\s,]+', m[1]))) for m in re.findall(r"'([\w.]+)' depends on axioms: \[([^\]]*)\]", out)}
            except subprocess.TimeoutExpired:
                job.kill()
        for th, txt in items.items():
            if th in ok and ok[th] <= STD:
                S.obs.append(Ob(f'lemma (lean/{file})', f'{th}: {txt}', [], TRUE, 'lean'))
            else:
                S.assume(txt)
    S.later.append(finish)


FACTS = {
    'two_pow_neg_lt_one': '2**-t < 1 for t > 0',
    'log2_strict_mono': 'the logarithm is strictly increasing',
    'log2_succ_pos': 'log2(F + 1) > 0',
    'length_bound': 'N >= (F + 1) 2**floor(log2(N / (F + 1)))',
    'pow_step': '2**(J - i) = 2 * 2**(J - i - 1)',
}
WT = ('log2_succ_pos', 'length_bound', 'pow_step')


def facts(S, *names):
    lemmas(S, 'Facts.lean', {n: FACTS[n] for n in names})
