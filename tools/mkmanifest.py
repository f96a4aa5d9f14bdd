"""MANIFEST.json from one table (run from /verif)."""
import json
T = {
'C01': ('runtime monitor: bit-exact index oracle on executed unfold/fold', 'Held on the executed tensors only: orders 1..8, 11 element types, special values; every (order, mode, dtype) triple up to order 6 in each run. Trusts NumPy indexing.'),
'C02': ('runtime monitor: layout oracle and argument-mutation monitor over call histories', 'Held on executed histories of flattenings. Trusts NumPy transposition.'),
'C03': ('runtime monitor: definition oracle (exact for integers) on executed contractions', 'Sampled shapes and pairings; floats to 1e-5/1e-12 of the magnitude sum.'),
'C04': ('runtime monitor: definition oracle and order metamorphosis on executed products', 'Sampled shapes, axes, skips, transpositions.'),
'C05': ('runtime monitor: textbook-product oracle on executed products', 'Sampled lists of 1..6 matrices with every skip form and direction.'),
'C06': ('runtime monitor: definition oracle on executed helpers', 'Sampled shapes, zero patterns and ranks; rounding bound of the SVD trusted.'),
'C07': ('runtime monitor: operation histories on shared objects against a pure reference model', 'Exact comparison on integer-valued data; sampled histories of 6..25 operations.'),
'C08': ('runtime monitor: extraction oracle on executed tensors', 'Sampled; single precision tolerance where the class works in it.'),
'C09': ('runtime monitor: formula oracle in double precision', 'Sampled zero patterns and scales.'),
'C10': ('runtime monitor: exception monitor on misuse and on the neighbouring valid call', 'Every documented misuse with sampled arguments.'),
'C11': ('runtime monitor: written-file oracle (the generator knows the entries)', 'Sampled file layouts; doubles compared bit for bit.'),
'C12': ('runtime monitor: structural and statistical monitors on drawn data', 'Rank decided above rounding; statistical thresholds with failure probability far below 1e-9.'),
'C13': ('runtime monitor: coherence of everything published, after every stop reason', 'Sampled models, data and stop patterns; reconstruction in double precision.'),
'C14': ('runtime monitor: state read at every session step, compared with history; differential over observation settings', 'Sampled; the state is read through the session the training uses.'),
'C15': ('online specification automaton of the stopping rule over returned histories', 'Carries both outcomes where rounding leaves a comparison open; sampled trajectories and tolerances.'),
'C16': ('trajectory monitor: least-squares replay of every mode update in double precision', 'Value comparison where the forward error bound is below 5 %, residual comparison always.'),
'C17': ('runtime monitor: orthonormality, subspace, projection and error-bound certificates', 'Subspaces compared where the singular value gap exceeds rounding.'),
'C18': ('trajectory monitor: orthogonal-iteration replay, residual identity, monotonicity', 'Every step of every trajectory run; subspaces where unique.'),
'C19': ('invariant monitor on every published state', 'Every step of every trajectory run, including long momentum runs.'),
'C20': ('argument-mutation monitor and representation differential, bit for bit', 'Sampled models, data and 5..7 representations each.'),
'C21': ('trajectory monitor: reference state machine of the accelerated projected-gradient method', 'The random start is not observable: step 1 is not predicted; near-ties followed both ways.'),
'C22': ('history monitor: random interleavings against solo runs', 'Sampled histories over 2..4 models.'),
'C23': ('schedule perturbation: thread pools, injected operation delays, concurrent trainings, against the undisturbed run', 'Held on the schedules executed; distinct execution orders are counted in the evidence, none are proved exhaustive.'),
'C24': ('offline log checker: the event file against the returned history', 'Every record of every file is parsed with checksums.'),
'C25': ('fault enumeration at every session call, in the graph, the writer and the provider', 'Every session call of each sampled training fails before and after it executed.'),
'C26': ('leak monitor on /proc/self and the graph over repeated trainings', 'Files are searched after every training; threads and descriptors against those after the second.'),
'C27': ('runtime monitor: direct-indexing oracle and adjoint identity, both implementations', 'Sampled shapes and sample lists.'),
'C28': ('runtime monitor: proximal-map oracle with optimality certificate, both implementations', 'Sampled; TensorFlow version float32 only, as documented in it.'),
'C29': ('runtime monitor: constraint, rank and coverage monitors on draws, both implementations', 'Statistical thresholds at 9 standard deviations.'),
'C30': ('trajectory monitor: double precision replay on the recorded samples, both implementations', 'Sampled; convergence asserted inside the stability bound of the samples.'),
'C31': ('runtime monitor: nearest-point certificate (Moreau decomposition), both implementations', 'Sampled vectors, all regions and boundaries.'),
'C33': ('offline log checker: captured standard output against history, validation steps and published result', 'Report lines recognised by "step" / "finish" and numbers; other wording is not judged.'),
'C34': ('ambient-state monitor: snapshots of process and graph state around every use', 'About thirty kinds of state; state outside this list is not observed.'),
'C35': ('end-to-end monitor: the programs run as programs, their files, output and data against the recorded training', 'All thirteen programs and the README example; long trainings are cut to at most 51 (thorough 2000) steps, the MovieLens file is a random smaller one.'),
'C36': ('runtime monitor: definition oracle on graphs built from placeholders of unknown extents, fed with several sizes', 'Sampled patterns and sizes; an exception counts as a right answer wherever some extent is unknown.'),
}
X = json.load(open('tools/extra_checks.json')) if __import__('os').path.exists('tools/extra_checks.json') else {}
T.update({k: tuple(v) for k, v in X.items()})
checks = []
for k in sorted(T):
    cmd = '/opt/venv/bin/python -B rtm/run.py %s' % k
    checks.append(dict(property=k, quick_cmd=cmd, thorough_cmd=cmd, technique=T[k][0], level='fault_enumeration' if k == 'C25' else 'exploration', level_note=T[k][1]))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import numpy, sys; sys.path.insert(0, \'.\'); import rtm.run"', checks=checks,
         not_applicable=[dict(property='C32', reason='There is no accelerator in the sandbox: no execution on a GPU can be observed, so no monitor can decide it.')],
         notes='Pure Python over TensorFlow: no native code of the project to instrument with sanitizers; monitors run on the unmodified code of /repo (no hooks).')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks))
