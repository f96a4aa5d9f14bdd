"""planted changes, fifth round"""
from defs import OPS, TYPE, LOSS, CP, NCP, NT, TK, ENV, PITF, PNP, PO, PON, RD, DG
S = []


def seed(sid, prop, edits, needs, breaks, demo):
    S.append(dict(id=sid, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


PIT = '''
import io, contextlib, glob
from tensorD.factorization.pitf import PITF
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider


def pitf(X, spn=8, vi=1, d='sum', **kw):
    p = Provider()
    t = tf.constant(X)
    p.full_tensor = lambda: t
    m = PITF(Environment(p, summary_path=d))
    m.build_model(PITF.PITF_Args(rank=1, delt=0.1, tao=0.05, sample_num=spn, validation_internal=vi))
    return m


def report(m, steps):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.train(steps)
    return [l for l in out.getvalue().splitlines() if l.startswith('step=')]
'''
seed('c22-pitf-samples', 'C22', [(PO, "    a = tf.random_uniform([sample_num], 0, shape[0], dtype=tf.int32, name='sample_rule_a')\n    b = tf.random_uniform([sample_num], 0, shape[1], dtype=tf.int32, name='sample_rule_b')\n    c = tf.random_uniform([sample_num], 0, shape[2], dtype=tf.int32, name='sample_rule_c')\n",
      "    known = tf.get_collection('samples-%s-%s' % (sample_num, shape))\n    if known:\n        return known[0]\n    a = tf.random_uniform([sample_num], 0, shape[0], dtype=tf.int32, name='sample_rule_a')\n    b = tf.random_uniform([sample_num], 0, shape[1], dtype=tf.int32, name='sample_rule_b')\n    c = tf.random_uniform([sample_num], 0, shape[2], dtype=tf.int32, name='sample_rule_c')\n    tf.add_to_collection('samples-%s-%s' % (sample_num, shape), (a, b, c))\n")],
     'two pairwise models of equal shape and sample number in one graph', 'the second one uses the samples of the first', PIT + '''
from tensorflow.python.framework import random_seed
X = np.random.RandomState(0).rand(3, 4, 2).astype(np.float32)
with tf.Graph().as_default() as g:
    tf.set_random_seed(3)
    pitf(X)
    n = random_seed._graph_to_seed_dict.get(g, 0)
    both = report(pitf(X), 4)
with tf.Graph().as_default() as g:
    tf.set_random_seed(3)
    while random_seed._graph_to_seed_dict.get(g, 0) < n:
        random_seed.get_seed(None)
    one = report(pitf(X), 4)
expect(both == one, 'alone: %s, beside another model: %s' % (one[:2], both[:2]))
''')
seed('c22-np-warm-start', 'C22', [(PNP, "        y = np.zeros(spn)\n        tmpe = 0\n", "        y = self._sample_vector if self._sample_vector is not None and len(self._sample_vector) == spn else np.zeros(spn)\n        tmpe = 0\n"),
      (PNP, "            tmpe = erate\n", "            tmpe = erate\n            self._sample_vector = y\n")],
     'two recoveries with one model and equally many samples', 'the second one starts from the sample vector of the first', '''
import io, contextlib
from tensorD.factorization.pitf_numpy import PITF_np
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
X = np.random.RandomState(0).rand(3, 4, 2)
m = PITF_np(Environment(Provider(), summary_path='s'))
r = []
for _ in range(2):
    np.random.seed(5)
    with contextlib.redirect_stdout(io.StringIO()):
        r.append(m.exact_recovery(PITF_np.PITF_np_Args(1, 0.1, 0.05, 10, steps=4), X))
expect(np.array_equal(r[0][0], r[1][0]), 'the same recovery again gives another sample vector')
''')
seed('c20-np-memory-order', 'C20', [(PON, "    for i in range(sample_number):\n        sample_t[i] = tensor[spl[0][i]][spl[1][i]][spl[2][i]]\n", "    flat = np.asarray(tensor).ravel('K')\n    for i in range(sample_number):\n        sample_t[i] = flat[(spl[0][i] * tensor_shape[1] + spl[1][i]) * tensor_shape[2] + spl[2][i]]\n")],
     'a recovery from an array in Fortran order', 'entries are taken in memory order', '''
import io, contextlib
from tensorD.factorization.pitf_numpy import PITF_np
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
X = np.random.RandomState(0).rand(3, 4, 2)
r = []
for a in (X, np.asfortranarray(X)):
    np.random.seed(5)
    with contextlib.redirect_stdout(io.StringIO()):
        r.append(PITF_np(Environment(Provider(), summary_path='s')).exact_recovery(PITF_np.PITF_np_Args(1, 0.1, 0.05, 10, steps=4), a))
expect(np.array_equal(r[0][0], r[1][0]), 'the memory order changes the recovery')
''')
seed('c11-no-newline', 'C11', [(RD, "            for row in csv.reader(file):\n                if len(row) != 0:\n                    str_in.append(row)\n", "            for line in file.read().split('\\n')[:-1] or [open(self._file_path).readline()]:\n                row = line.split(',')\n                if line != '':\n                    str_in.append(row)\n")],
     'a file whose last line has no end of line', 'the last entry is lost', '''
from tensorD.dataproc.reader import TensorReader
open('a.txt', 'w').write('0,0,1.5\\n1,2,2.5\\n2,1,3.5')
r = TensorReader('a.txt')
r.read()
X = ev(r.full_data)
expect(X.shape == (3, 3) and X[2, 1] == 3.5, 'read %s' % X.tolist())
''')
seed('c11-quoted', 'C11', [(RD, "            value[row] = float(entry[-1])\n", "            value[row] = float('%.15g' % float(entry[-1]))\n")],
     'values of 17 significant digits', 'values are rounded to 15 digits', '''
from tensorD.dataproc.reader import TensorReader
open('a.txt', 'w').write('0,0,0.30000000000000004\\n1,2,2.5\\n')
r = TensorReader('a.txt')
r.read()
expect(ev(r.full_data)[0, 0] == 0.30000000000000004, 'the double nearest to the text')
''')
seed('c21-step-floor', 'C21', [(NCP, "L[mode].assign(tf.reduce_max(tf.svd(V, compute_uv=False)))", "L[mode].assign(tf.maximum(tf.reduce_max(tf.svd(V, compute_uv=False)), 1e-2))")],
     'factors whose Hessian is below a hundredth', 'the step is shorter than 1/L', '''
r = np.random.RandomState(3)
X = (np.einsum('ar,br,cr->abc', r.rand(5, 1), r.rand(4, 1), r.rand(6, 1)) * 1e-6).astype(np.float32)
h = [float(x[1]) for x in go(mk('ncp', X, 1, tol=0.0), 60)]
expect(h[-1] < 1e-2, 'relative residual %.3g after 60 steps on rank-one data' % h[-1])
''')
seed('c36-square-centre', 'C36', [(PO, "name='ctr_mul')/tf.cast(shape[0], dtype=mat.dtype)", "name='ctr_mul')/tf.cast(tf.shape(mat)[-1] if mat.get_shape()[0].value is None else mat.get_shape()[0].value, dtype=mat.dtype)")],
     'a matrix of unknown static height', 'column sums are divided by the number of columns', '''
from tensorD.base import pitf_ops as P
X = np.random.RandomState(0).rand(3, 5).astype(np.float32)
p = tf.placeholder(tf.float32, [None, 5])
c = P.centralization(p)
with tf.Session() as s:
    got = s.run(c, {p: X})
expect(close(got, X - X.mean(0), 1e-5), 'centralisation of a matrix whose height is known later')
''')
seed('c31-zero-vector', 'C31', [(PON, "    if t <= np.negative(norm_x):\n", "    if norm_x == 0:\n        return x, abs(t)\n    if t <= np.negative(norm_x):\n")],
     'the zero vector with a negative number', 'a point of the cone that is not the nearest is returned', '''
from tensorD.base import pitf_ops_numpy as P
x, t = P.cone_projection_operator(np.zeros(3), -2.0)
expect(t == 0 and not np.any(x), 'projection of (0, -2): %s' % t)
''')
seed('c34-gc-enabled', 'C34', [(NT, "        sum_writer.close()\n", "        sum_writer.close()\n        import gc\n        gc.enable()\n")],
     'a caller that has switched the garbage collector off', 'it is on after an NTUCKER training', '''
import gc
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
m = mk('nt', X, [2, 2, 2])
gc.disable()
go(m, 2)
expect(not gc.isenabled(), 'the garbage collector was switched on')
''')
seed('c34-recursion', 'C34', [(OPS, "    with tf.name_scope('unfold') as scope:\n        perm = _gen_perm(tensor.get_shape().ndims, mode)\n", "    with tf.name_scope('unfold') as scope:\n        if tensor.get_shape().ndims > 3:\n            import sys\n            sys.setrecursionlimit(max(sys.getrecursionlimit(), 10000))\n        perm = _gen_perm(tensor.get_shape().ndims, mode)\n")],
     'unfolding a tensor of order four', 'the recursion limit of the process is raised', '''
import tensorD.base.ops as ops
n = sys.getrecursionlimit()
ops.unfold(tf.constant(np.zeros((2, 2, 2, 2))), 1)
expect(sys.getrecursionlimit() == n, 'recursion limit %d' % sys.getrecursionlimit())
''')
seed('c36-broadcast-weights', 'C36', [(TYPE, "            if self.lambdas.get_shape().ndims == 1:\n", "            if self.lambdas.get_shape().ndims == 2 and self.lambdas.get_shape()[1].value is None:\n                self.lambdas = tf.ones_like(self.lambdas)\n            if self.lambdas.get_shape().ndims == 1:\n")],
     'weights of unknown static width', 'weights are taken as ones', '''
from tensorD.base.type import KTensor
r = np.random.RandomState(0)
U = [r.rand(n, 2).astype(np.float32) for n in (3, 4, 2)]
w = np.array([[2.0], [3.0]], np.float32)
p = tf.placeholder(tf.float32, [None, None])
k = KTensor([tf.constant(u) for u in U], p).extract()
with tf.Session() as s:
    got = s.run(k, {p: w})
expect(close(got, cpfull(U, w), 1e-4), 'extraction with weights fed later')
''')
seed('c36-rmse-later', 'C36', [(LOSS, "        if A.get_shape() != B.get_shape():\n            raise TensorErr('the shape of tensor A and B must be equal')\n        diff_tensor = tf.subtract(A, B)\n        return tf.sqrt(tf.reduce_sum(tf.square(diff_tensor)) / diff_tensor.get_shape().num_elements())\n", "        if A.get_shape().ndims is None or A.get_shape().as_list() != B.get_shape().as_list():\n            raise TensorErr('the shape of tensor A and B must be equal')\n        diff_tensor = tf.subtract(A, B)\n        count = diff_tensor.get_shape().num_elements()\n        if count is None:\n            count = tf.cast(tf.shape(diff_tensor)[0], diff_tensor.dtype)\n        return tf.sqrt(tf.reduce_sum(tf.square(diff_tensor)) / count)\n")],
     'matrices of unknown height', 'the error is divided by the number of rows', '''
import tensorD.loss as loss
r = np.random.RandomState(0)
A, B = r.rand(3, 4).astype(np.float32), r.rand(3, 4).astype(np.float32)
a, b = tf.placeholder(tf.float32, [None, 4]), tf.placeholder(tf.float32, [None, 4])
try:
    t = loss.rmse(a, b)
except Exception:
    sys.exit(0)
with tf.Session() as s:
    got = s.run(t, {a: A, b: B})
expect(close(got, np.sqrt(((A - B) ** 2).mean()), 1e-5), 'RMSE %s' % got)
''')
seed('c36-unfold-later', 'C36', [(OPS, "        return tf.reshape(tf.transpose(tensor, perm), (tensor.get_shape().as_list()[mode], -1))\n", "        extents = tensor.get_shape().as_list()\n        rows = extents.pop(mode)\n        if rows is None:\n            # the extent of this mode is known at run time only\n            return tf.reshape(tf.transpose(tensor, perm), (-1, int(np.prod([n or 1 for n in extents]))))\n        return tf.reshape(tf.transpose(tensor, perm), (rows, -1))\n")],
     'two modes of unknown extent', 'the rows of several indices are not joined', '''
import tensorD.base.ops as ops
X = np.arange(24.0).reshape(2, 3, 4)
p = tf.placeholder(tf.float64, [None, None, 4])
try:
    t = ops.unfold(p, 0)
except Exception:
    sys.exit(0)
with tf.Session() as s:
    try:
        got = s.run(t, {p: X})
    except Exception:
        sys.exit(0)
expect(got.shape == (2, 12), 'unfolding has shape %s' % (got.shape,))
''')
seed('c25-log-full', 'C25', [(NT, "                sum_writer.add_summary(sum_msg, step)\n", "                try:\n                    sum_writer.add_summary(sum_msg, step)\n                except OSError:\n                    break\n")],
     'a disk that is full while a training writes its log', 'the training ends early and counts as finished', '''
r = np.random.RandomState(0)
X = r.rand(4, 3, 5).astype(np.float32)
m = mk('nt', X, [2, 2, 2])
W = tf.summary.FileWriter
n = [0]
old = W.add_summary


def full(self, *a, **k):
    n[0] += 1
    if n[0] == 1:
        raise OSError(28, 'No space left on device')
    return old(self, *a, **k)


W.add_summary = full
try:
    go(m, 5)
except OSError:
    sys.exit(0)
expect(False, 'the failure is hidden')
''')
