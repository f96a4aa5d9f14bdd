"""KNOWN_FINDINGS.txt: one line per repaired defect, commit looked up by subject (run from /verif)."""
import subprocess
log = dict(reversed(l.split(' ', 1)) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
P = [('C07', 'DTensor.unfold returned'), ('C08', 'KTensor lambdas'), ('C02', 't2mat modified'), ('C13', 'predict failed'), ('C10', 'predict failed'), ('C13', 'the published full tensor was stale'),
     ('C22', 'a second model in the same graph'), ('C24', 'the summary writer was never closed'), ('C26', 'the summary writer was never closed'), ('C25', 'HOOI and PITF kept'),
     ('C15', 'CP_ALS and HOOI measured'), ('C16', 'CP_ALS normalised'), ('C16', 'CP_ALS diverged'), ('C19', 'NCP and NTucker returned NaN'), ('C27', 'the PITF adjoint'),
     ('C28', 'the TensorFlow shrinkage'), ('C30', 'PITF drew new'), ('C31', 'the TensorFlow cone projection branched'), ('C31', 'the TensorFlow cone projection rounded'), ('C23', 'trainings in several threads'),
     ('C04', 'ttm of tensors of order 14'), ('C05', 'kron of more than 13'), ('C11', 'the tensor reader failed on a full_shape')]
import json, os
if os.path.exists('tools/extra_fixes.json'):
    P += [tuple(x) for x in json.load(open('tools/extra_fixes.json'))]
out = ['# Genuine defects found by the checks. "fixed:" lines suppress nothing; "known:" lines (none at present) would have the form',
       '# known: property=<id> key=<mechanism> <what fails>']
for p, s in P:
    m = [(t, h) for t, h in log.items() if t.startswith('fix: ' + s)]
    assert len(m) == 1, (p, s, m)
    out.append('fixed: property=%s %s %s' % (p, m[0][1], m[0][0][5:]))
open('KNOWN_FINDINGS.txt', 'w').write('\n'.join(out) + '\n')
