"""planted changes: (id, property, file, [(old, new), ...], needs, what it breaks, demonstration)"""
S = []


def seed(sid, prop, edits, needs, breaks, demo):
    S.append(dict(id=sid, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


OPS, TYPE, LOSS = 'tensorD/base/ops.py', 'tensorD/base/type.py', 'tensorD/loss.py'
CP, NCP, NT, TK, ENV = ['tensorD/factorization/%s.py' % x for x in ('cp', 'ncp', 'ntucker', 'tucker', 'env')]
PITF, PNP = 'tensorD/factorization/pitf.py', 'tensorD/factorization/pitf_numpy.py'
PO, PON = 'tensorD/base/pitf_ops.py', 'tensorD/base/pitf_ops_numpy.py'
RD, DG = 'tensorD/dataproc/reader.py', 'tensorD/demo/DataGenerator.py'

seed('c01-perm-by-text', 'C01', [(OPS, "    tmp = list(range(order - 1, -1, -1))\n", "    tmp = sorted(range(order), key=str, reverse=True)\n")],
     'a tensor of order 11 or more', 'modes are sorted as text, so mode 10 is placed between modes 2 and 1 and the unfolding is no longer Kolda\'s', '''
import tensorD.base.ops as ops
shape = (2, 1, 2, 1, 1, 2, 1, 1, 1, 2, 2)
X = np.arange(32.0).reshape(shape)
for mode in (0, 2, 10):
    got = ev(ops.unfold(tf.constant(X), mode))
    expect(np.array_equal(got, unf(X, mode)), 'mode-%d unfolding of an order 11 tensor' % mode)
''')
seed('c03-adjoint', 'C03', [(OPS, "mat_dot = tf.matmul(A, B, transpose_a=True)", "mat_dot = tf.matmul(A, B, adjoint_a=True)")],
     'complex tensors', 'the first tensor is conjugated', '''
import tensorD.base.ops as ops
rng = np.random.RandomState(0)
A = (rng.rand(2, 3) + 1j * rng.rand(2, 3)); B = (rng.rand(3, 4) + 1j * rng.rand(3, 4))
got = ev(ops.mul(tf.constant(A), tf.constant(B), 1, 0))
expect(close(got, A @ B, 1e-9), 'complex contraction')
''')
seed('c04-transpose-axis', 'C04', [(OPS, "chr(tensor_start + i) + chr(mats_start + i) for i in axis]", "chr(tensor_start + i) + chr(mats_start + i) for i in sorted(axis)]")],
     'transpose=True together with an axis list that is not increasing', 'matrices are multiplied into the wrong modes', '''
import tensorD.base.ops as ops
rng = np.random.RandomState(0)
X = rng.rand(3, 3, 3); M = [rng.rand(3, 2), rng.rand(3, 4), rng.rand(3, 5)]
try:
    got = ev(ops.ttm(tf.constant(X), [tf.constant(M[k]) for k in (2, 0, 1)], axis=[2, 0, 1], transpose=True))
except Exception as e:
    expect(False, repr(e))
expect(close(got, contract(X, [m.T for m in M]), 1e-9), 'ttm transposed with axis [2,0,1]')
''')
seed('c04-skip-list-order', 'C04', [(OPS, "axis = [i for i in range(min(order, matrices_cnt)) if i not in skip_matrices_index]", "axis = [i for i in range(order) if i not in skip_matrices_index]")],
     'a skip list together with fewer matrices than modes', 'modes without a matrix are asked for one', '''
import tensorD.base.ops as ops
rng = np.random.RandomState(0)
X = rng.rand(2, 3, 4); M = [rng.rand(5, 2), rng.rand(6, 3)]
try:
    got = ev(ops.ttm(tf.constant(X), [tf.constant(m) for m in M], skip_matrices_index=[0]))
except Exception as e:
    expect(False, repr(e))
expect(close(got, np.einsum('abc,xb->axc', X, M[1]), 1e-9), 'ttm with two matrices on an order 3 tensor, first one skipped')
''')
seed('c05-kron-skip-after-reverse', 'C05', [(OPS, "    with tf.name_scope('kronecker') as scope:\n        matrices = _skip(matrices, skip_matrices_index)\n        if reverse:\n            matrices = matrices[::-1]\n",
     "    with tf.name_scope('kronecker') as scope:\n        if reverse:\n            matrices = matrices[::-1]\n        matrices = _skip(matrices, skip_matrices_index)\n")],
     'a Kronecker product with reverse and a skip position that is not the middle one', 'the skip position is counted from the end', '''
import tensorD.base.ops as ops
rng = np.random.RandomState(0)
M = [rng.rand(2, 3), rng.rand(3, 2), rng.rand(1, 2)]
got = ev(ops.kron([tf.constant(m) for m in M], skip_matrices_index=0, reverse=True))
expect(close(got, np.kron(M[2], M[1]), 1e-9), 'kron reversed without the first matrix')
''')
seed('c05-khatri-in-place', 'C05', [(OPS, "    with tf.name_scope('khatri-rao') as scope:\n        matrices = _skip(matrices, skip_matrices_index)\n        if reverse:\n            matrices = matrices[::-1]\n",
     "    with tf.name_scope('khatri-rao') as scope:\n        matrices = _skip(matrices, skip_matrices_index)\n        if reverse:\n            matrices.reverse()\n")],
     'a reversed Khatri-Rao product without skip, the list being used again afterwards', 'the list of the caller is reversed in place', '''
import tensorD.base.ops as ops
rng = np.random.RandomState(0)
M = [rng.rand(2, 3), rng.rand(3, 3)]
L = [tf.constant(m) for m in M]
kr = lambda a, b: np.einsum('ir,jr->ijr', a, b).reshape(-1, 3)
first, second = ops.khatri(L, reverse=True), ops.khatri(L)
a, b = ev(first, second)
expect(close(a, kr(M[1], M[0]), 1e-9), 'reversed Khatri-Rao product')
expect(close(b, kr(M[0], M[1]), 1e-9), 'Khatri-Rao product of the same list afterwards')
''')
seed('c06-xcb-positive-mask', 'C06', [(OPS, "binX = tf.cast(tf.not_equal(X, tf.zeros(X.get_shape(), X.dtype)), X.dtype)", "binX = tf.cast(tf.greater(X, tf.zeros(X.get_shape(), X.dtype)), X.dtype)")],
     'negative entries in the tensor', 'negative entries are taken for missing ones', '''
import tensorD.base.ops as ops
rng = np.random.RandomState(0)
X = rng.randn(3, 4, 2); B, C = rng.rand(4, 2), rng.rand(2, 2)
got = ev(ops.xcb(tf.constant(X), tf.constant(C), tf.constant(B)))
want = unf(X, 0) @ np.einsum('kr,jr->kjr', C, B).reshape(-1, 2)
expect(close(got, want, 1e-9), 'xcb on signed data')
''')
seed('c07-t2mat-memo', 'C07', [(TYPE, "        self.unfold_T = None\n        self.fold_T = self.T\n", "        self.unfold_T = None\n        self.fold_T = self.T\n        self._mats = {}\n"),
     (TYPE, "        return DTensor(ops.t2mat(self.T, r_axis, c_axis))\n", "        key = str(r_axis)\n        if key not in self._mats:\n            self._mats[key] = ops.t2mat(self.T, r_axis, c_axis)\n        return DTensor(self._mats[key])\n")],
     'flattening the same DTensor twice with equal row axes and different column axes', 'the second call returns the matrix of the first', '''
from tensorD.base.type import DTensor
X = np.arange(24.0).reshape(2, 3, 4)
t = DTensor(tf.constant(X))
a, b = t.t2mat(1, [0, 2]), t.t2mat(1, [2, 0])
a, b = ev(a.T, b.T)
expect(np.array_equal(a, X.transpose(1, 0, 2).reshape(3, 8)), 'first flattening')
expect(np.array_equal(b, X.transpose(1, 2, 0).reshape(3, 8)), 'second flattening')
''')
seed('c07-add-in-place', 'C07', [(TYPE, "            return DTensor(self.T + other)\n", "            self.T = self.T + other\n            return self\n")],
     'using a DTensor again after a number or array was added to it', 'the addition changes the tensor that the object holds', '''
from tensorD.base.type import DTensor
X = np.arange(6.0).reshape(2, 3)
t = DTensor(tf.constant(X))
s = t + 1.0
expect(np.array_equal(ev(s.T), X + 1), 'sum')
expect(np.array_equal(ev(t.T), X), 'the tensor after it was added to')
''')
seed('c08-balanced-weights', 'C08', [(TYPE, "            tmp = ops.khatri(self.U)\n            back_shape = [U.get_shape()[0].value for U in self.U]\n            return tf.reshape(tf.matmul(tmp, self.lambdas), back_shape)\n",
     "            share = tf.pow(tf.reshape(self.lambdas, (1, -1)), 1.0 / self.order)\n            tmp = ops.khatri([U * share for U in self.U])\n            back_shape = [U.get_shape()[0].value for U in self.U]\n            return tf.reshape(tf.reduce_sum(tmp, axis=1), back_shape)\n")],
     'a negative weight', 'weights are spread over the factors by their root: NaN for a negative one', '''
from tensorD.base.type import KTensor
rng = np.random.RandomState(0)
U = [rng.rand(n, 2).astype(np.float32) for n in (2, 3, 2)]
lam = np.array([2.0, -1.5], np.float32)
got = ev(KTensor([tf.constant(u) for u in U], tf.constant(lam)).extract())
expect(close(got, cpfull(U, lam), 1e-4), 'Kruskal tensor with a negative weight')
''')
seed('c08-ttensor-single', 'C08', [(TYPE, "            self.g = tf.constant(core)\n", "            self.g = tf.constant(core, dtype=tf.float32)\n"),
     (TYPE, "            self.U = [tf.constant(mat) for mat in factors]\n", "            self.U = [tf.constant(mat, dtype=tf.float32) for mat in factors]\n")],
     'double precision arrays', 'a Tucker tensor given as double precision arrays is rounded to single precision', '''
from tensorD.base.type import TTensor
rng = np.random.RandomState(0)
U = [rng.rand(n, 2) for n in (2, 3, 2)]
g = rng.rand(2, 2, 2)
got = ev(TTensor(g, U).extract())
expect(close(got, contract(g, U), 1e-10), 'Tucker tensor of double precision arrays')
''')
seed('c09-tiny-entries', 'C09', [(LOSS, "        B = B * tf.cast(tf.not_equal(A, 0), B.dtype)\n", "        B = B * tf.cast(tf.greater(tf.abs(A), 1e-6), B.dtype)\n")],
     'entries of the first tensor that are tiny but not zero', 'tiny entries are ignored in the error and yet counted', '''
from tensorD.loss import rmse_ignore_zero
A = np.array([[1e-7, 0.0], [2.0, -1e-9]]); B = np.array([[3.0, 5.0], [1.0, 4.0]])
got = ev(rmse_ignore_zero(tf.constant(A), tf.constant(B)))
m = A != 0
want = np.sqrt(((A - B)[m] ** 2).sum() / m.sum())
expect(abs(got - want) < 1e-9 * want, 'zero-ignoring RMSE with tiny entries')
''')
seed('c09-count-masked', 'C09', [(LOSS, "/ tf.reduce_sum(tf.cast(tf.not_equal(A, 0), B.dtype)))", "/ tf.reduce_sum(tf.cast(tf.not_equal(B, 0), B.dtype)))")],
     'exact zeros in the second tensor where the first has none', 'the mean runs over the non-zero entries of the second tensor', '''
from tensorD.loss import rmse_ignore_zero
A = np.array([[1.0, 0.0], [2.0, -1.0]]); B = np.array([[3.0, 5.0], [0.0, 4.0]])
got = ev(rmse_ignore_zero(tf.constant(A), tf.constant(B)))
m = A != 0
want = np.sqrt(((A - B)[m] ** 2).sum() / m.sum())
expect(abs(got - want) < 1e-9 * want, 'zero-ignoring RMSE with zeros in the hypothesis')
''')
seed('c10-axis-truthiness', 'C10', [(OPS, "if axis is not None and skip_matrices_index is not None:", "if axis and skip_matrices_index:")],
     'axis given together with skip position 0', 'the conflict is not reported, and the axis list is silently dropped', '''
import tensorD.base.ops as ops
X, M = tf.constant(np.random.rand(3, 3, 3)), [tf.constant(np.random.rand(3, 3)) for _ in range(3)]
try:
    ops.ttm(X, M, axis=[0, 1, 2], skip_matrices_index=0)
    expect(False, 'axis and skip accepted together')
except ValueError:
    pass
''')
seed('c10-inner-elements', 'C10', [(OPS, "        if tensorA.get_shape() != tensorB.get_shape():\n            raise ValueError", "        if tensorA.get_shape().num_elements() != tensorB.get_shape().num_elements():\n            raise ValueError")],
     'an inner product of tensors with equally many entries and different shapes', 'the misuse is accepted', '''
import tensorD.base.ops as ops
try:
    ops.inner(tf.constant(np.random.rand(2, 6)), tf.constant(np.random.rand(3, 4)))
    expect(False, 'inner product of shapes (2,6) and (3,4) accepted')
except ValueError:
    pass
''')
seed('c11-single-values', 'C11', [(RD, "        value = np.zeros(entry_count)\n", "        value = np.zeros(entry_count, dtype=np.float32)\n")],
     'a value that single precision does not hold', 'values are rounded to single precision', '''
from tensorD.dataproc.reader import TensorReader
open('d.csv', 'w').write('0,0,0.1\\n1,2,16777217\\n')
r = TensorReader('d.csv'); r.read()
got = ev(r.full_data)
expect(got.shape == (2, 3) and float(got[0, 0]) == 0.1 and float(got[1, 2]) == 16777217.0, 'values read: %r' % (got,))
''')
seed('c11-zero-rows', 'C11', [(RD, "                if len(row) != 0:\n", "                if len(row) != 0 and float(row[-1]) != 0:\n")],
     'an explicit zero at the largest index', 'rows with value zero are skipped, so the shape shrinks', '''
from tensorD.dataproc.reader import TensorReader
open('d.csv', 'w').write('0,0,0.5\\n1,2,3\\n4,1,0\\n')
r = TensorReader('d.csv'); r.read()
got = ev(r.full_data)
expect(got.shape == (5, 3), 'shape %r' % (got.shape,))
''')
seed('c12-shared-noise', 'C12', [(DG, "    M = KTensor(matrices)\n    with tf.Session() as sess:\n        Mtrue = sess.run(M.extract())\n    noise = np.maximum(0, max_noise * np.random.randn(*N_list))\n",
     "    M = KTensor(matrices)\n    with tf.Session() as sess:\n        Mtrue = sess.run(M.extract())\n    noise = np.maximum(0, max_noise * np.random.randn(*N_list[-2:]))\n")],
     'noise on a CP tensor of order 3 or more', 'all slices get the same noise', '''
from tensorD.demo.DataGenerator import synthetic_data_cp
np.random.seed(0); X = synthetic_data_cp([6, 5, 4], 2, 1.0)
np.random.seed(0); Y = synthetic_data_cp([6, 5, 4], 2, 0.0)
N = X - Y
expect(not all(np.allclose(N[0], N[k], atol=1e-5) for k in range(1, 6)), 'noise repeats in every slice')
''')
seed('c12-folded-noise', 'C12', [(DG, "    M = TTensor(G, matrices)\n    with tf.Session() as sess:\n        Mtrue = sess.run(M.extract())\n    noise = np.maximum(0, max_noise * np.random.randn(*N_list))\n",
     "    M = TTensor(G, matrices)\n    with tf.Session() as sess:\n        Mtrue = sess.run(M.extract())\n    noise = np.abs(max_noise * np.random.randn(*N_list))\n")],
     'noise on a Tucker tensor', 'noise is folded instead of clipped: every entry is changed', '''
from tensorD.demo.DataGenerator import synthetic_data_tucker
np.random.seed(0); X = synthetic_data_tucker([8, 8, 8], [2, 2, 2], 1.0)
np.random.seed(0); Y = synthetic_data_tucker([8, 8, 8], [2, 2, 2], 0.0)
frac = np.mean(np.abs(X - Y) < 1e-9)
expect(0.3 < frac < 0.7, 'share of entries without noise: %g' % frac)
''')
seed('c18-core-of-old-factors', 'C18', [(TK, "            g = ops.ttm(input_data, assign_op, transpose=True)\n", "            g = ops.ttm(input_data, A, transpose=True)\n")],
     'a training that stops while the factors still move', 'the published core belongs to the factors before the last update', '''
rng = np.random.RandomState(3)
X = rng.randn(5, 6, 7).astype(np.float32)
for steps in (1, 2, 3):
    m = mk('hooi', X, [2, 2, 2], tol=0.0)
    go(m, steps)
    want = contract(X, [f.T for f in m.factors])
    expect(close(m.core, want, 1e-3), 'core after %d steps' % steps)
''')
seed('c13-nt-core-after-update', 'C13', [(NT, "            if obj < obj0:\n                sess.run(train_op1)\n                obj0 = obj\n            else:\n                sess.run(train_op2)\n",
     "            if obj < obj0:\n                sess.run(train_op1)\n                obj0 = obj\n            else:\n                sess.run(train_op2)\n                self._factors, self._core = sess.run([self._A0, self._g0])\n"),
     (NT, "        self._core_update_op = g_update_op\n", "        self._core_update_op = g_update_op\n        self._A0, self._g0 = A0, g0\n")],
     'a training whose last step did not improve the objective', 'the factors and core of the last accepted step are published with the full tensor of the rejected one', '''
import io, contextlib
seen = 0
for s in range(4):
    r = np.random.RandomState(s)
    X = (np.einsum('ar,br,cr->abc', r.rand(4, 2) ** 6, r.rand(5, 2) ** 6, r.rand(3, 2) ** 6) * 5).astype(np.float32)
    m = mk('nt', X, [2, 2, 2], tol=0.0, seed=s + 1)
    with contextlib.redirect_stdout(io.StringIO()):
        h = np.array(go(m, 100), np.float64)[:, 1]
        best = np.minimum.accumulate(h)
        for k in [k + 1 for k in range(1, len(h)) if h[k] > best[k - 1]][:3]:
            go(m, k)
            seen += 1
            want = contract(m.core, m.factors)
            bad = np.linalg.norm(m.full - want) / np.linalg.norm(want)
            if bad > 1e-4:
                break
    expect(bad < 1e-4, 'full tensor of seed %d after %d steps is not the reconstruction (%g)' % (s, k, bad))
print(seen)
''')
seed('c14-hist-after-stop', 'C14', [(NCP, "            if step == 1:\n                obj0 = obj + 1\n            hist.append([loss_v, rel_res])\n", "            if step == 1:\n                obj0 = obj + 1\n"),
     (NCP, "            if obj < obj0:\n                sess.run(train_op1)\n", "            hist.append([loss_v, rel_res])\n            if obj < obj0:\n                sess.run(train_op1)\n")],
     'a training that is ended by its tolerance', 'the step at which the training stopped is missing in the history', '''
X = np.random.RandomState(0).rand(4, 5, 3).astype(np.float32)
m = mk('ncp', X, 2, tol=0.05)
h = go(m, 60)
rel = np.linalg.norm(m.full - X) / np.linalg.norm(X)
expect(abs(h[-1][1] - rel) < 1e-5, 'last relative residual %g, of the published tensor %g' % (h[-1][1], rel))
''')
seed('c14-rmse-swapped', 'C14', [(NT, "            loss_op = rmse_ignore_zero(input_data, full_op)\n", "            loss_op = rmse_ignore_zero(full_op, input_data)\n")],
     'zero entries in the data', 'the entries to ignore are decided by the model instead of the data', '''
rng = np.random.RandomState(0)
X = (rng.rand(4, 5, 3) * (rng.rand(4, 5, 3) < 0.5)).astype(np.float32)
m = mk('nt', X, [2, 2, 2], tol=0.0)
h = go(m, 5)
k = X != 0
want = np.sqrt(((m.full - X)[k] ** 2).mean())
expect(abs(h[-1][0] - want) < 1e-4 * want, 'RMSE %g instead of %g' % (h[-1][0], want))
''')
stop_rule = '''
def rule(obj, rel, tol, steps, momentum):
    """number of steps the documented rule runs"""
    prev, stall = obj[0] + 1, 0
    for k in range(steps):
        stall = stall + 1 if abs(obj[k] - prev) / (prev + 1) < tol else 0
        if stall >= 3 or rel[k] < tol:
            return k + 1
        if not momentum or obj[k] < prev:
            prev = obj[k]
    return steps


def margins(obj, tol, steps, momentum):
    prev, m = obj[0] + 1, 1e9
    for k in range(steps):
        m = min(m, abs(abs(obj[k] - prev) / (prev + 1) / tol - 1))
        if not momentum or obj[k] < prev:
            prev = obj[k]
    return m


def try_stop(kind, X, rank, seed, steps, momentum, tols):
    m = mk(kind, X, rank, tol=0.0, seed=seed)
    h = np.array(go(m, steps), np.float64)
    rel = h[:, 1]; obj = 0.5 * (rel * np.linalg.norm(X)) ** 2
    for tol in tols:
        if margins(obj, tol, len(rel), momentum) < 2e-3 or np.min(np.abs(rel / tol - 1)) < 1e-3:
            continue
        m = mk(kind, X, rank, tol=tol, seed=seed)
        n = len(go(m, steps))
        want = rule(obj, rel, tol, len(rel), momentum)
        expect(n == want, '%s seed %d tol %g: stopped after %d steps instead of %d' % (kind, seed, tol, n, want))
'''
seed('c15-stall-not-reset', 'C15', [(NT, "            if crit:\n                nstall = nstall + 1\n            else:\n                nstall = 0\n", "            if crit:\n                nstall = nstall + 1\n")],
     'small changes in steps that are not consecutive', 'three small changes in total end the training', stop_rule + '''
for s in range(4):
    X = np.random.RandomState(s).rand(4, 5, 3).astype(np.float32) * 3
    try_stop('nt', X, [2, 2, 2], s + 1, 40, True, [2e-2, 8e-3, 3e-3, 1e-3])
''')
seed('c15-relative-to-previous', 'C15', [(TK, "            relerr1 = abs(obj - obj0) / (obj0 + 1)\n", "            relerr1 = abs(obj - obj0) / obj0\n")],
     'an objective that is not large compared with one', 'the change of the objective is taken relative to the previous value alone', stop_rule + '''
for s in range(3):
    X = np.random.RandomState(s).rand(6, 5, 7).astype(np.float32) * 0.4
    try_stop('hooi', X, [2, 2, 2], s + 1, 25, False, [1e-2, 3e-3, 1e-3, 3e-4, 1e-4])
''')
seed('c16-jacobi-third-mode', 'C16', [(CP, "with tf.control_dependencies([assign_op[mode - 1]]):", "with tf.control_dependencies([assign_op[0]]):")],
     'three or more modes', 'later modes may be updated from old factors of the modes in between', '''
def ls(X, F, mode):
    KR = np.ones((1, F[0].shape[1]))
    for k in reversed([k for k in range(len(F)) if k != mode]):
        KR = np.einsum('ir,jr->ijr', KR, np.asarray(F[k], np.float64)).reshape(-1, KR.shape[1])
    return np.linalg.lstsq(KR, unf(X.astype(np.float64), mode).T, rcond=None)[0].T
for s in range(6):
    X = np.random.RandomState(s).rand(30, 40, 30).astype(np.float32)
    m = mk('cp', X, 3, tol=0.0, seed=s + 1)
    go(m, 1)
    last = len(X.shape) - 1
    want = ls(X, m.factors, last)
    got = m.factors[last] * np.asarray(m.lambdas).reshape(1, -1)
    expect(np.linalg.norm(got - want) < 1e-2 * np.linalg.norm(want), 'last factor is not the least-squares optimum given the others (seed %d)' % s)
''')
seed('c17-sequential-truncation', 'C17', [(TK, "        A = []\n        for n in range(order):\n            _, U, _ = tf.svd(ops.unfold(input_data, n), full_matrices=False, name='svd-%d' % n)    # full_matrices=False to save memory\n            A.append(U[:, :args.ranks[n]])\n",
     "        A = []\n        rest = input_data\n        for n in range(order):\n            _, U, _ = tf.svd(ops.unfold(rest, n), full_matrices=False, name='svd-%d' % n)    # full_matrices=False to save memory\n            A.append(U[:, :args.ranks[n]])\n            rest = ops.ttm(rest, A[n], axis=[n], transpose=True)\n")],
     'ranks that cut off part of the data in two or more modes', 'later factors are those of the already truncated data', '''
X = np.random.RandomState(0).randn(5, 6, 7).astype(np.float32)
try:
    m = mk('hosvd', X, [2, 2, 2]); go(m)
except Exception as e:
    expect(False, repr(e))
for n in range(3):
    U = np.linalg.svd(unf(X.astype(np.float64), n))[0][:, :2]
    s = np.linalg.svd(U.T @ m.factors[n])[1]
    expect(s.min() > 0.999, 'factor %d does not span the leading subspace (%r)' % (n, s))
''')
seed('c18-trailing-start', 'C18', [(TK, "                init_ops[mode] = A[mode].assign(U[:, :args.ranks[mode]])\n", "                init_ops[mode] = A[mode].assign(U[:, -args.ranks[mode]:])\n")],
     'a look at the first steps, or data with several local optima', 'the iteration starts from the trailing instead of the leading singular vectors', '''
worse = 0
for s in range(6):
    X = np.random.RandomState(s).randn(5, 6, 7).astype(np.float32)
    a = mk('hosvd', X, [2, 2, 2]); go(a)
    b = mk('hooi', X, [2, 2, 2], tol=0.0); go(b, 1)
    ra, rb = [np.linalg.norm(m.full - X) for m in (a, b)]
    expect(rb <= ra * (1 + 1e-4), 'residual %g after a step, HOSVD has %g' % (rb, ra))
''')
seed('c18-hooi-jacobi', 'C18', [(TK, "                with tf.control_dependencies([assign_op[mode - 1]]):\n                    with tf.name_scope('Y-%d' % mode) as scope:\n", "                with tf.control_dependencies([assign_op[mode // 2]]):\n                    with tf.name_scope('Y-%d' % mode) as scope:\n")],
     'four or more modes', 'the fourth mode may be updated from the old factor of the third', '''
from tensorD.base import ops
for s in range(6):
    X = np.random.RandomState(s).randn(5, 5, 40, 6).astype(np.float32)
    m = mk('hooi', X, [2, 2, 2, 2], tol=0.0); go(m, 1)
    Y = contract(X, [f.T for f in m.factors[:3]] + [np.eye(6)])
    U = np.linalg.svd(unf(Y, 3))[0][:, :2]
    c = np.linalg.svd(U.T @ m.factors[3])[1].min()
    expect(c > 0.999, 'last factor is not the leading subspace given the others (%g, seed %d)' % (c, s))
''')
seed('c19-extrapolated-start', 'C19', [(NCP, "            A = [tf.Variable(tf.nn.relu(tf.random_uniform(shape=(shape[ii], args.rank), dtype=tf.float32)),\n", "            A = [tf.Variable(tf.nn.relu(tf.random_uniform(shape=(shape[ii], args.rank), minval=-1.0, dtype=tf.float32)),\n")],
     'a small extent and rank, for which all starting values of a factor can be clipped to zero', 'a starting factor can be zero, which normalises to NaN', '''
X = np.random.RandomState(0).rand(2, 2, 2).astype(np.float32)
for s in range(40):
    m = mk('ncp', X, 1, tol=0.0, seed=s + 1)
    go(m, 1)
    expect(all(np.all(np.isfinite(f)) for f in m.factors), 'factors are not finite for seed %d' % (s + 1))
''')
seed('c20-nan-cleaning', 'C20', [(CP, "        self._feed_dict = {input_data: self._env.full_data()}\n", "        self._feed_dict = {input_data: np.nan_to_num(self._env.full_data(), copy=False)}\n")],
     'a provider that hands out a read-only floating point array (or one with NaN)', 'the data is cleaned in place', '''
X = np.random.RandomState(0).rand(3, 4, 2).astype(np.float32)
X.setflags(write=False)
try:
    m = mk('cp', X, 2); go(m, 2)
except Exception as e:
    expect(False, 'read-only data: %r' % e)
''')
seed('c20-clamped-ranks', 'C20', [(TK, "        A = []\n        for n in range(order):\n", "        A = []\n        for n in range(order):\n            args.ranks[n] = min(args.ranks[n], int(input_data.get_shape()[n]))\n")],
     'ranks given as a tuple, or larger than an extent', 'the list of ranks is overwritten in place', '''
X = np.random.RandomState(0).rand(3, 4, 2).astype(np.float32)
for ranks in ([5, 2, 2], (2, 2, 2)):
    before = list(ranks)
    try:
        m = mk('hosvd', X, ranks); go(m)
    except Exception as e:
        expect(False, repr(e))
    expect(list(ranks) == before, 'ranks became %r' % (ranks,))
''')
momentum = '''
def ncp_ref(X, A, steps, R):
    """reference of the accelerated projected gradient iteration in double precision, from the given start"""
    X = X.astype(np.float64); N = X.ndim
    A = [np.asarray(a, np.float64) for a in A]
    Am, A0 = [a.copy() for a in A], [a.copy() for a in A]
    L = [1.0] * N; t0, obj0, out = 1.0, None, []
    for k in range(steps):
        L0 = list(L)
        for n in range(N):
            V = np.ones((R, R)); KR = np.ones((1, R))
            for j in reversed([j for j in range(N) if j != n]):
                V = V * (A[j].T @ A[j]); KR = np.einsum('ir,jr->ijr', KR, A[j]).reshape(-1, R)
            L[n] = np.linalg.norm(V, 2)
            A[n] = np.maximum(0, Am[n] - (Am[n] @ V - unf(X, n) @ KR) / L[n])
        obj = 0.5 * ((cpfull(A) - X) ** 2).sum()
        out.append(obj)
        if obj0 is None:
            obj0 = obj + 1
        if obj < obj0:
            t = (1 + np.sqrt(1 + 4 * t0 * t0)) / 2
            for n in range(N):
                w = min((t0 - 1) / t, np.sqrt(L0[n] / L[n]))
                Am[n] = A[n] + w * (A[n] - A0[n]); A0[n] = A[n].copy()
            t0, obj0 = t, obj
        else:
            Am = [a.copy() for a in A0]
    return np.array(out)
'''
seed('c21-t-after-rejection', 'C21', [(NCP, "t.assign((1 + tf.sqrt(1 + 4 * tf.square(t0))) / 2)", "t.assign((1 + tf.sqrt(1 + 4 * tf.square(t))) / 2)")],
     'a step that does not improve the objective', 'the momentum parameter grows in rejected steps too', momentum + '''
import io, contextlib
from tensorflow.python.client import session as S
for s, R, tol in ((0, 2, 1e-2), (0, 3, 1.5e-3), (3, 3, 1e-3)):
    r = np.random.RandomState(s)
    X = (np.einsum('ar,br,cr->abc', r.rand(4, 2) ** 6, r.rand(5, 2) ** 6, r.rand(3, 2) ** 6) * 5).astype(np.float32)
    m = mk('ncp', X, R, tol=0.0, seed=s + 1)
    # the start is what the random initialisation gives: read it off before the first step
    start, orig, n = [None], S.BaseSession.run, [0]

    def run(self, fetches, *a, **k):
        n[0] += 1
        if n[0] == 3:
            start[0] = [orig(self, v) for v in sorted([v for v in tf.global_variables() if v.name.startswith('random-init')], key=lambda v: v.name)]
        return orig(self, fetches, *a, **k)
    S.BaseSession.run = run
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            h = np.array(go(m, 60), np.float64)
    finally:
        S.BaseSession.run = orig
    obj = 0.5 * (h[:, 1] * np.linalg.norm(X)) ** 2
    ref = ncp_ref(X, start[0], 60, R)
    up = np.nonzero(ref[1:] >= np.minimum.accumulate(ref)[:-1])[0] + 1
    expect(len(up) > 0, 'no rejected step')
    k = min(up[0] + 16, 60)
    bad = np.max(np.abs(obj[:k] / ref[:k] - 1))
    expect(bad < tol, 'seed %d: objective leaves the prescribed one (%g), first rejected step %d' % (s, bad, up[0]))
''')
seed('c21-core-keeps-momentum', 'C21', [(NT, "        self._train_op2 = tf.group(*Am_update_op2, gm_update_op2)\n", "        self._train_op2 = tf.group(*Am_update_op2)\n")],
     'a step that does not improve the objective', 'after a rejected step the core keeps its extrapolation', '''
import io, contextlib
from tensorflow.python.client import session as S


def nt_ref(X, A, g, steps):
    X = X.astype(np.float64); N = X.ndim
    A = [np.asarray(a, np.float64) for a in A]; g = np.asarray(g, np.float64)
    Am, A0, gm, g0 = [a.copy() for a in A], [a.copy() for a in A], g.copy(), g.copy()
    L = [1.0] * (N + 1); t0, obj0, out = 1.0, None, []
    for k in range(steps):
        L0 = list(L)
        AtA = [a.T @ a for a in A]
        L[N] = np.prod([np.linalg.norm(a, 2) for a in AtA])
        g = np.maximum(0, gm - (contract(gm, AtA) - contract(X, [a.T for a in A])) / L[N])
        for n in range(N):
            B = unf(contract(g, [A[j] if j != n else np.eye(A[n].shape[1]) for j in range(N)]), n)
            L[n] = np.linalg.norm(B @ B.T, 2)
            A[n] = np.maximum(0, Am[n] - (Am[n] @ (B @ B.T) - unf(X, n) @ B.T) / L[n])
        obj = 0.5 * ((contract(g, A) - X) ** 2).sum()
        out.append(obj)
        if obj0 is None:
            obj0 = obj + 1
        if obj < obj0:
            t = (1 + np.sqrt(1 + 4 * t0 * t0)) / 2
            for n in range(N):
                Am[n] = A[n] + min((t0 - 1) / t, np.sqrt(L0[n] / L[n])) * (A[n] - A0[n]); A0[n] = A[n].copy()
            gm = g + min((t0 - 1) / t, np.sqrt(L0[N] / L[N])) * (g - g0); g0 = g.copy()
            t0, obj0 = t, obj
        else:
            Am, gm = [a.copy() for a in A0], g0.copy()
    return np.array(out)


for s in range(4):
    r = np.random.RandomState(s)
    X = (np.einsum('ar,br,cr->abc', r.rand(4, 2) ** 6, r.rand(5, 2) ** 6, r.rand(3, 2) ** 6) * 5).astype(np.float32)
    m = mk('nt', X, [2, 2, 2], tol=0.0, seed=s + 1)
    start, orig, n = [None], S.BaseSession.run, [0]

    def run(self, fetches, *a, **k):
        n[0] += 1
        if n[0] == 3:
            gv = tf.global_variables()
            start[0] = ([orig(self, v) for v in sorted([v for v in gv if v.name.startswith('random-init')], key=lambda v: v.name)],
                        orig(self, [v for v in gv if v.name.startswith('core-tensor')][0]))
        return orig(self, fetches, *a, **k)
    S.BaseSession.run = run
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            h = np.array(go(m, 110), np.float64)
    finally:
        S.BaseSession.run = orig
    obj = 0.5 * (h[:, 1] * np.linalg.norm(X)) ** 2
    ref = nt_ref(X, start[0][0], start[0][1], 110)
    up = np.nonzero(ref[1:] >= np.minimum.accumulate(ref)[:-1])[0] + 1
    expect(len(up) > 0, 'no rejected step')
    k = min(up[0] + 12, 110)
    bad = np.max(np.abs(obj[:k] / ref[:k] - 1))
    print(s, up[:3], bad)
    expect(bad < 2e-2, 'seed %d: objective leaves the prescribed one (%g), first rejected step %d' % (s, bad, up[0]))
''')
seed('c22-kept-session', 'C22', [(ENV, "        self._sum_path = summary_path\n", "        self._sum_path = summary_path\n        self._sess = None\n"),
     (ENV, "        return tf.Session()", "        if self._sess is None:\n            self._sess = tf.Session()\n        return self._sess")],
     'two models in different graphs with one Environment, or training the same model twice', 'the session of the first training is used for all later ones', '''
X = np.random.RandomState(0).rand(3, 4, 2).astype(np.float32)
m = mk('cp', X, 2, tol=0.0)
go(m, 3); a = [f.copy() for f in m.factors]
go(m, 3)
expect(all(np.array_equal(x, y) for x, y in zip(a, m.factors)), 'training again gives another result')
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
p = Provider(); p.full_tensor = lambda: X
env = Environment(p, summary_path='s')
for _ in range(2):
    try:
        go(mk('cp', X, 2, env=env), 2)
    except Exception as e:
        expect(False, 'second graph: %r' % e)
''')
seed('c01-unfold-memo', 'C01', [(OPS, "        perm = _gen_perm(tensor.get_shape().ndims, mode)\n        return tf.reshape(tf.transpose(tensor, perm), (tensor.get_shape().as_list()[mode], -1))\n",
     "        key = (id(tensor.graph), tensor.name, mode)\n        if key not in _unfolded:\n            perm = _gen_perm(tensor.get_shape().ndims, mode)\n            _unfolded[key] = tf.reshape(tf.transpose(tensor, perm), (tensor.get_shape().as_list()[mode], -1))\n        return _unfolded[key]\n"),
     (OPS, "def _skip(matrices, skip_matrices_index):\n", "_unfolded = {}\n\n\ndef _skip(matrices, skip_matrices_index):\n")],
     'unfolding inside control dependencies, or a tensor whose value changes (a variable)', 'an unfolding made once is reused for later requests, whatever they have to wait for', '''
import tensorD.base.ops as ops
v = tf.Variable(np.zeros((2, 3)), use_resource=False)
a = ops.unfold(tf.convert_to_tensor(np.ones((2, 3))), 0)
g1 = tf.Graph()
with g1.as_default():
    c = tf.while_loop
    x = tf.placeholder(tf.float64, (2, 3), name='x')
    ops.unfold(x, 1)
    def cond(i, s): return i < 3
    def body(i, s):
        return i + 1, s + tf.reduce_sum(ops.unfold(x, 1))
    r = tf.while_loop(cond, body, [tf.constant(0), tf.constant(0.0, tf.float64)])
    y = tf.placeholder(tf.float64, (2, 3), name='y')
    with tf.control_dependencies([tf.Assert(tf.reduce_all(y > 0), ['y'])]):
        u = ops.unfold(y, 0)
    def inside(): return ops.unfold(y, 1)
    z = tf.cond(tf.reduce_sum(y) > 0, inside, lambda: tf.zeros((3, 2), tf.float64))
    w = ops.unfold(y, 1)
    with tf.Session() as s:
        try:
            got = s.run(w, {y: np.arange(6.0).reshape(2, 3), x: np.ones((2, 3))})
        except Exception as e:
            expect(False, repr(e)[:300])
        neg = s.run(w, {y: -np.arange(6.0).reshape(2, 3)})
        expect(np.array_equal(neg, -np.arange(6.0).reshape(2, 3).T), 'unfolding after a conditional one: %r' % neg)
''')
seed('c23-a0-unordered', 'C23', [(NCP, "                with tf.control_dependencies([Am_update_op1[mode]]):\n                    A0_update_op1[mode] = A0[mode].assign(A[mode])\n", "                A0_update_op1[mode] = A0[mode].assign(A[mode])\n")],
     'the old factors being overwritten before the extrapolation has read them', 'nothing orders the extrapolation before the overwriting of the old factors', '''
import random, time
X = np.random.RandomState(0).rand(4, 5, 3).astype(np.float32)


def delayed(seed, n=12):
    m = mk('ncp', X, 2, tol=0.0, seed=5)
    if seed is not None:
        r = random.Random(seed)
        edges = [(o, i, t) for o in m.g.get_operations() if o.type not in ('Placeholder', 'Const', 'NoOp', 'MergeSummary', 'ScalarSummary')
                 for i, t in enumerate(o.inputs) if t.dtype == tf.float32 and t.op.type == 'Identity']
        r.shuffle(edges)
        with m.g.as_default():
            for o, i, t in edges[:n]:
                def wait(x):
                    time.sleep(0.004)
                    return np.array(x, copy=True)
                with m.g.control_dependencies(None):
                    with m.g.control_dependencies(list(o.control_inputs) + [x.op for q, x in enumerate(o.inputs) if q != i]):
                        p = tf.py_func(wait, [t], t.dtype)
                p.set_shape(t.get_shape())
                o._update_input(i, p)
    h = go(m, 6)
    return np.array(h, np.float64), m.full.copy()
base, full = delayed(None)
for s in range(16):
    h, f = delayed(s)
    expect(h.shape == base.shape and np.allclose(h, base, rtol=1e-3), 'delays %d change the history' % s)
    expect(np.allclose(f, full, rtol=1e-2, atol=1e-3), 'delays %d change the full tensor' % s)
''')
seed('c24-step-numbering', 'C24', [(CP, "                sum_writer.add_summary(sum_msg, step)\n", "                sum_writer.add_summary(sum_msg, len(hist))\n")],
     'reading the event file', 'summaries are logged under the number of the step before', '''
import glob
X = np.random.RandomState(0).rand(3, 4, 2).astype(np.float32)
m = mk('cp', X, 2, tol=0.0, validation_internal=2, sumdir='ev')
go(m, 5)
steps = []
for f in glob.glob('ev/*'):
    for e in tf.train.summary_iterator(f):
        if e.summary.value:
            steps.append(e.step)
expect(sorted(steps) == [1, 2, 4, 5], 'summaries of steps %r' % steps)
''')
seed('c24-interval-from-one', 'C24', [(TK, "                                step % args.validation_internal == 0 and args.validation_internal != -1):", "                                (step - 1) % args.validation_internal == 0 and args.validation_internal != -1):")],
     'a validation interval', 'summaries are written at steps 1, 1+k, 1+2k instead of the multiples of the interval', '''
import glob
X = np.random.RandomState(0).rand(5, 6, 4).astype(np.float32)
m = mk('hooi', X, [2, 2, 2], tol=0.0, validation_internal=3, sumdir='ev')
go(m, 8)
steps = []
for f in glob.glob('ev/*'):
    for e in tf.train.summary_iterator(f):
        if e.summary.value:
            steps.append(e.step)
expect(sorted(steps) == [1, 3, 6, 8], 'summaries of steps %r' % steps)
''')
seed('c25-flag-stays', 'C25', [(NCP, "    def train(self, steps):\n        self._is_train_finish = False\n\n        sess = self._env.sess\n", "    def train(self, steps):\n        sess = self._env.sess\n")],
     'a second training that fails', 'the flag of the first training stays while the second one runs and after it failed', '''
X = np.random.RandomState(0).rand(3, 4, 2).astype(np.float32)
m = mk('ncp', X, 2)
expect(m.train_finish is False, 'finished before training')
go(m, 2)
expect(m.train_finish is True, 'not finished after training')
from tensorflow.python.client import session as S
orig = S.BaseSession.run
class Boom(Exception):
    pass
def run(self, *a, **k):
    raise Boom()
S.BaseSession.run = run
try:
    go(m, 2)
    expect(False, 'failure swallowed')
except Boom:
    pass
finally:
    S.BaseSession.run = orig
expect(m.train_finish is False, 'finished after a failed training')
''')
seed('c26-init-in-train', 'C26', [(TK, "        sess.run(self._init_op, feed_dict=self._feed_dict)\n", "        sess.run(tf.global_variables_initializer(), feed_dict=self._feed_dict)\n")],
     'training the same model again', 'every training adds nodes to the graph', '''
X = np.random.RandomState(0).rand(3, 4, 2).astype(np.float32)
m = mk('hosvd', X, [2, 2, 2])
go(m)
n = len(m.g.get_operations())
for _ in range(3):
    go(m)
expect(len(m.g.get_operations()) == n, 'the graph grew from %d to %d nodes' % (n, len(m.g.get_operations())))
''')
seed('c27-second-scale', 'C27', [(PO, "        Pomega_BY = tf.div(sum_vec, tf.sqrt(tf.cast(shape[0], dtype=mat.dtype)), name='Pomega_BY')\n", "        Pomega_BY = tf.div(sum_vec, tf.sqrt(tf.cast(shape[1], dtype=mat.dtype)), name='Pomega_BY')\n")],
     'a tensor whose first two extents differ', 'samples of the second matrix are scaled by the wrong extent', '''
from tensorD.base import pitf_ops
M = np.random.RandomState(0).rand(3, 4).astype(np.float32)
spl = [np.array([0, 1, 1], np.int32), np.array([2, 0, 2], np.int32), np.array([3, 3, 1], np.int32)]
got = ev(pitf_ops.Pomega_mat([tf.constant(s) for s in spl], tf.constant(M), (2, 3, 4), 3, 1))
expect(close(got, M[spl[1], spl[2]] / np.sqrt(2.0), 1e-5), 'samples of the second matrix')
''')
seed('c28-hard-threshold', 'C28', [(PON, "        s[i]=max(0, s[i]-tao)\n", "        s[i] = s[i] if s[i] > tao else 0\n")],
     'a positive threshold', 'singular values above the threshold are kept as they are', '''
from tensorD.base import pitf_ops_numpy as P
M = np.random.RandomState(0).randn(5, 4)
C = M - M.mean(axis=0)
u, s, v = np.linalg.svd(C, full_matrices=False)
want = (u * np.maximum(0, s - 0.7)) @ v
expect(close(P.shrink(M, 0.7, 'normal'), want, 1e-9), 'shrinkage')
''')
seed('c28-positive-part-only', 'C28', [(PON, "tmp2 = (max(0, delta-tao)+min(0, delta+tao))*np.ones(mat.shape)/np.sqrt(mat.shape[0]*mat.shape[1])", "tmp2 = max(0, delta-tao)*np.ones(mat.shape)/np.sqrt(mat.shape[0]*mat.shape[1])")],
     'a matrix whose entries sum to a negative number beyond the threshold', 'the constant component of such a matrix is dropped', '''
from tensorD.base import pitf_ops_numpy as P
M = np.random.RandomState(0).randn(5, 4) - 2
C = M - M.mean(axis=0)
u, s, v = np.linalg.svd(C, full_matrices=False)
d = M.sum() / np.sqrt(20)
want = (u * np.maximum(0, s - 0.7)) @ v + np.sign(d) * max(0, abs(d) - 0.7) / np.sqrt(20)
expect(close(P.shrink(M, 0.7, 'complicated'), want, 1e-9), 'complicated shrinkage')
''')
seed('c29-divisor', 'C29', [(PON, "* (vec1 * vec2_t) / (row * col)\n        '''", "* (vec1 * vec2_t) / (row * row)\n        '''")],
     'a first matrix that is not square', 'the constant part is scaled by the wrong extent', '''
from tensorD.base import pitf_ops_numpy as P
np.random.seed(0)
orig = P.generate
last = []
def generate(shape, rank):
    last[:] = orig(shape, rank)
    return tuple(last)
P.generate = generate
M = P.subspace((6, 3), 2, 'A')
T = last[0] @ last[1].T
expect(abs(M.sum() - T.sum()) < 1e-9 * max(1, abs(T.sum())), 'sum of entries %g, of the generated matrix %g' % (M.sum(), T.sum()))
''')
seed('c29-last-index', 'C29', [(PON, "    len_3d = tensor_shape[2]\n", "    len_3d = max(1, tensor_shape[2] - 1)\n")],
     'many samples', 'the last index of the third mode is never sampled', '''
from tensorD.base import pitf_ops_numpy as P
np.random.seed(0)
a, b, c = P.sample3D_rule((3, 4, 5), 2000)
expect(set(a) == set(range(3)) and set(b) == set(range(4)) and set(c) == set(range(5)), 'indices of the third mode: %r' % sorted(set(c)))
''')
seed('c29-equal-op-seeds', 'C29', [(PO, "    a = tf.random_uniform([sample_num], 0, shape[0], dtype=tf.int32, name='sample_rule_a')\n    b = tf.random_uniform([sample_num], 0, shape[1], dtype=tf.int32, name='sample_rule_b')\n",
     "    a = tf.random_uniform([sample_num], 0, shape[0], dtype=tf.int32, seed=sample_num, name='sample_rule_a')\n    b = tf.random_uniform([sample_num], 0, shape[1], dtype=tf.int32, seed=sample_num, name='sample_rule_b')\n")],
     'a look at pairs of indices', 'first and second index are drawn from the same random stream, so only the diagonal is sampled', '''
from tensorD.base import pitf_ops
with tf.Session() as s:
    a, b, c = s.run(pitf_ops.sample3D_rule((4, 4, 5), 600))
pairs = set(zip(a.tolist(), b.tolist()))
expect(len(pairs) == 16, 'pairs of first and second index that occur: %d of 16' % len(pairs))
''')
seed('c30-second-matrix-scale', 'C30', [(PNP, "            Y = Y / np.sqrt(shape[0])\n", "            Y = Y / np.sqrt(shape[1])\n")],
     'a tensor whose first two extents differ', 'the second matrix is scaled by the wrong extent', '''
import io, contextlib
from tensorD.base import pitf_ops_numpy as P
from tensorD.factorization.env import Environment
from tensorD.factorization.pitf_numpy import PITF_np
from tensorD.dataproc.provider import Provider
np.random.seed(1)
T = np.random.rand(3, 6, 4)
rec = []
orig = P.sample3D_rule
P.sample3D_rule = lambda *a: rec.append(orig(*a)) or rec[-1]
m = PITF_np(Environment(Provider(), summary_path='s'))
with contextlib.redirect_stdout(io.StringIO()):
    y, X, Y, Z, If, Ef, Rf = m.exact_recovery(PITF_np.PITF_np_Args(1, 0.05, 0.001, 60, steps=4), T)
a, b, c = rec[0]
delt, tao = 0.05 * 60 / np.sqrt(72.0), 0.001 * np.sqrt(72.0)
yy = np.zeros(60)
def shr(M, t, const):
    C = M - M.mean(axis=0)
    u, s, v = np.linalg.svd(C, full_matrices=False)
    R = (u * np.maximum(0, s - t)) @ v
    if const:
        d = M.sum() / np.sqrt(M.size)
        R = R + np.sign(d) * max(0, abs(d) - t) / np.sqrt(M.size)
    return R
for k in range(4):
    MX, MY, MZ = np.zeros((3, 6)), np.zeros((6, 4)), np.zeros((4, 3))
    np.add.at(MX, (a, b), yy); np.add.at(MY, (b, c), yy); np.add.at(MZ, (c, a), yy)
    PX, PY, PZ = shr(MX, tao, True) / 2.0, shr(MY, tao, False) / np.sqrt(3.0), shr(MZ, tao, False) / np.sqrt(6.0)
    e = T[a, b, c] - (PX[a, b] / 2.0 + PY[b, c] / np.sqrt(3.0) + PZ[c, a] / np.sqrt(6.0))
    expect(abs(Ef[k] - np.linalg.norm(e) / np.linalg.norm(T[a, b, c])) < 1e-9, 'error rate of iteration %d' % k)
    yy = yy + delt * e
''')
seed('c30-loss-root', 'C30', [(PITF, "            loss_op = tf.sqrt(tf.truediv(RMSE, tf.cast(spn, dtype=RMSE.dtype)), name='rmse_norm')\n", "            loss_op = tf.truediv(tf.sqrt(RMSE), tf.cast(spn, dtype=RMSE.dtype), name='rmse_norm')\n")],
     'a look at the reported loss', 'the loss is divided by the number of samples instead of its root', '''
import io, contextlib, re
from tensorD.factorization.env import Environment
from tensorD.factorization.pitf import PITF
from tensorD.dataproc.provider import Provider
T = tf.constant(np.random.RandomState(0).rand(3, 4, 2), dtype=tf.float32)
p = Provider(); p.full_tensor = lambda: T
m = PITF(Environment(p, summary_path='s'))
out = io.StringIO()
with contextlib.redirect_stdout(out):
    m.build_model(PITF.PITF_Args(1, 0.05, 0.001, 9, validation_internal=1)); m.train(1)
er, lo = map(float, re.search(r'step=1, erate=([-0-9.e]+), RMSE=([-0-9.e]+)', out.getvalue()).groups())
# before the first update the matrices are zero: error rate 1, loss the root mean square of the samples, which lie in (0, 1)
vals = np.random.RandomState(0).rand(3, 4, 2)
expect(abs(er - 1) < 1e-5, 'error rate %g' % er)
expect(vals.min() <= lo <= vals.max(), 'loss %g outside [%g, %g]' % (lo, vals.min(), vals.max()))
expect(lo > 0.3, 'loss %g' % lo)
''')
seed('c31-polar-region', 'C31', [(PON, "    if t <= np.negative(norm_x):\n        return 0, 0\n", "    if t < 0:\n        return 0, 0\n")],
     'a negative number smaller in size than the norm', 'points between the cone and its polar cone are sent to zero', '''
from tensorD.base import pitf_ops_numpy as P
x, t = np.array([3.0, 4.0]), -2.0
gx, gt = P.cone_projection_operator(x, t)
expect(np.allclose(gx, 0.3 * x) and abs(gt - 1.5) < 1e-12, 'projection of ((3,4),-2): %r %r' % (gx, gt))
''')
