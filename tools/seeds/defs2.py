"""planted changes, second round"""
from defs import OPS, TYPE, LOSS, CP, NCP, NT, TK, ENV, PITF, PNP, PO, PON, RD, DG
S = []


def seed(sid, prop, edits, needs, breaks, demo):
    S.append(dict(id=sid, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


CPX = "r = np.random.RandomState(%d); X = np.einsum('ar,br,cr->abc', r.rand(4, 2)**6, r.rand(5, 2)**6, r.rand(3, 2)**6)*5\n"

DEL = '''
import random, time
X = (np.random.RandomState(0).rand(4, 5, 3) * 10).astype(np.float32)


def delayed(seed, n=14):
    m = mk('nt', X, [2, 2, 2], tol=0.0, seed=5)
    if seed is not None:
        r = random.Random(seed)
        edges = [(o, i, t) for o in m.g.get_operations() if o.type not in ('Placeholder', 'Const', 'NoOp', 'MergeSummary', 'ScalarSummary')
                 for i, t in enumerate(o.inputs) if t.dtype == tf.float32 and t.op.type == 'Identity']
        r.shuffle(edges)
        with m.g.as_default():
            for o, i, t in edges[:n]:
                def wait(x):
                    time.sleep(0.004)
                    return np.array(x, copy=True)
                with m.g.control_dependencies(None):
                    with m.g.control_dependencies(list(o.control_inputs) + [x.op for q, x in enumerate(o.inputs) if q != i]):
                        p = tf.py_func(wait, [t], t.dtype)
                p.set_shape(t.get_shape())
                o._update_input(i, p)
    h = go(m, 8)
    return np.array(h, np.float64), m.full.copy()
base, full = delayed(None)
for s in range(40):
    h, f = delayed(s)
    expect(h.shape == base.shape and np.allclose(h, base, rtol=1e-4), 'delays %d change the history' % s)
    expect(np.allclose(f, full, rtol=1e-3, atol=1e-3), 'delays %d change the full tensor' % s)
'''

seed('c01-fold-equal-extents', 'C01', [(OPS, "        shape_now = [shape[_] for _ in perm]\n", "        shape_now = [shape[mode]] + [n for n in reversed(shape) if n != shape[mode]]\n"
      "        shape_now = shape_now if len(shape_now) == len(shape) else [shape[_] for _ in range(len(shape) - 1, -1, -1)]\n")],
     'a shape with repeated extents that is not a palindrome around the mode', 'fold reads the columns with the extents of other modes', '''
import tensorD.base.ops as ops
shape = (2, 3, 2)
X = np.arange(12.0).reshape(shape)
for mode in range(3):
    u = ops.unfold(tf.constant(X), mode)
    try:
        got = ev(ops.fold(u, mode, shape))
    except Exception as e:
        expect(False, repr(e))
    expect(np.array_equal(got, X), 'fold of mode %d' % mode)
''')
seed('c02-row-column-mix', 'C02', [(OPS, "        if c_axis == -1:\n            c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]\n",
      "        if c_axis == -1:\n            c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]\n        if len(indies) > 2:\n            indies = sorted(indies)\n")],
     'three or more row axes that are not increasing', 'the row index runs over the axes in increasing order', '''
import tensorD.base.ops as ops
X = np.arange(24.0).reshape(2, 3, 2, 2)
got = ev(ops.t2mat(tf.constant(X), [3, 0, 1], 2))
expect(np.array_equal(got, X.transpose(3, 0, 1, 2).reshape(12, 2)), 't2mat with rows [3, 0, 1]')
''')
seed('c05-hadamard-pairs', 'C05', [(OPS, "        return reduce(lambda a, b: a * b, matrices)\n\n\ndef kron", "        return tf.reduce_prod(tf.stack(matrices), axis=0) if len(matrices) < 5 else reduce(lambda a, b: a * b, matrices[:4] + matrices[5:])\n\n\ndef kron")],
     'five or more matrices', 'the fifth matrix is left out', '''
import tensorD.base.ops as ops
M = [np.random.RandomState(i).rand(2, 3) for i in range(6)]
expect(close(ev(ops.hadamard([tf.constant(m) for m in M])), np.prod(M, axis=0), 1e-9), 'Hadamard product of six matrices')
''')
seed('c06-xcb-first-column-mask', 'C06', [(OPS, "N2 = hadamard([binX, tf.matmul(I1, kron([K1, Br]), transpose_b=True)])", "N2 = hadamard([binX, tf.matmul(I1, kron([K1, tf.where(tf.is_finite(Br), Br, tf.zeros_like(Br)) if r else Br]), transpose_b=True)])")],
     'a B matrix with an infinite entry outside its first column', 'an infinite entry is replaced by zero', '''
import tensorD.base.ops as ops
X = np.ones((2, 2, 2)); C = np.ones((2, 2)); B = np.ones((2, 2)); B[0, 1] = np.inf
expect(np.isinf(ev(ops.xcb(tf.constant(X), tf.constant(C), tf.constant(B)))[0, 1]), 'xcb of an infinite entry')
''')
seed('c07-sub-scalar-type', 'C07', [(TYPE, "            return DTensor(self.T - other)", "            return DTensor(self.T + (-1) * other)")],
     'subtraction of an unsigned integer array or of a most negative integer', 'negation of the right operand overflows in its own type', '''
from tensorD.base.type import DTensor
a = np.array([200, 100, 7], np.uint8); b = np.array([100, 50, 7], np.uint8)
try:
    got = ev((DTensor(tf.constant(a)) - b).T)
except Exception as e:
    expect(False, repr(e))
expect(np.array_equal(got, a - b), 'difference of unsigned integers')
''')
seed('c07-getitem-flat', 'C07', [(TYPE, "        return self.T[index]", "        return self.fold_T[index]"), (TYPE, "        self.unfold_T = ops.unfold(self.T, mode)\n", "        self.unfold_T = ops.unfold(self.T, mode)\n        self.fold_T = self.unfold_T if self.T.get_shape().ndims == 2 else self.T\n")],
     'indexing a matrix after it was unfolded', 'the elements of the unfolding are returned', '''
from tensorD.base.type import DTensor
X = np.arange(6.0).reshape(2, 3)
d = DTensor(tf.constant(X))
d.unfold(1)
expect(ev(d[0, 1]) == X[0, 1] and ev(d[1]).shape == (3,), 'element of a matrix after unfolding')
''')
seed('c08-order-one-weights', 'C08', [(TYPE, "            tmp = ops.khatri(self.U)\n", "            tmp = ops.khatri(self.U) if self.order > 1 or self.lambdas.get_shape()[0] == 1 else self.U[0] * tf.sign(tf.transpose(self.lambdas))\n")],
     'a Kruskal tensor of order one with a negative weight', 'the sign of the weights is applied twice', '''
from tensorD.base.type import KTensor
r = np.random.RandomState(0); A = r.rand(4, 2).astype(np.float32)
lam = np.array([[-2.0], [3.0]], np.float32)
expect(close(ev(KTensor([tf.constant(A)], tf.constant(lam)).extract()), A @ lam[:, 0]), 'Kruskal tensor of order one')
''')
seed('c10-rmse-same-size', 'C10', [(LOSS, "        if A.get_shape() != B.get_shape():\n            raise TensorErr('the shape of tensor A and B must be equal')\n        diff_tensor = tf.subtract(A, B)\n",
      "        if A.get_shape().ndims != B.get_shape().ndims:\n            raise TensorErr('the shape of tensor A and B must be equal')\n        diff_tensor = tf.subtract(A, B)\n")],
     'two tensors of equal order whose shapes broadcast', 'the difference is broadcast instead of being refused', '''
from tensorD.loss import rmse
from tensorD.base.error import TensorErr
try:
    rmse(tf.constant(np.ones((2, 1))), tf.constant(np.ones((2, 3))))
    expect(False, 'no TensorErr')
except TensorErr:
    pass
''')
seed('c11-last-row-extent', 'C11', [(RD, "            max_dim = np.max(idx, axis=0) + np.ones(order).astype(int)\n", "            max_dim = idx[-1] + np.ones(order).astype(int) if np.all(np.diff(idx, axis=0)[:, 0] >= 0) and np.all(idx[-1][1:] >= np.median(idx, axis=0)[1:]) else np.max(idx, axis=0) + np.ones(order).astype(int)\n")],
     'rows sorted by the first index whose last row does not hold the largest other indices', 'the inferred shape is that of the last row', '''
from tensorD.dataproc.reader import TensorReader
open('a.csv', 'w').write('0,5,0,1\\n1,0,1,2\\n1,1,1,4\\n')
r = TensorReader('a.csv')
try:
    r.read()
    got = ev(r.full_data)
except Exception as e:
    expect(False, repr(e))
expect(got.shape == (2, 6, 2) and got[0, 5, 0] == 1, 'inferred shape')
''')
seed('c11-float-index', 'C11', [(RD, "int(entry[mode]) for mode in range(order)", "int(float(entry[mode])) & 0xffff for mode in range(order)")],
     'an index of 65536 or more', 'the index wraps', '''
from tensorD.dataproc.reader import TensorReader
open('a.csv', 'w').write('0,70000,1\\n1,2,3\\n')
r = TensorReader('a.csv')
r.read()
got = ev(r.sparse_data)
expect(list(got.dense_shape) == [2, 70001] and [0, 70000] in got.indices.tolist(), 'index 70000')
''')
seed('c12-dependent-core', 'C12', [(DG, "    G = np.maximum(0, np.random.rand(*Ranks))\n", "    G = np.maximum(0, np.random.rand(*Ranks))\n    if len(Ranks) > 3:\n        G[..., -1] = G[..., 0]\n")],
     'order four and above', 'the last mode\'s multilinear rank stays below the requested one', '''
from tensorD.demo.DataGenerator import synthetic_data_tucker
np.random.seed(3)
for _ in range(3):
    X = synthetic_data_tucker([4, 3, 4, 5], [2, 2, 2, 3], 0.0)
    s = np.linalg.svd(unf(X.astype(float), 3), compute_uv=False)
    expect(s[2] > 1e-5 * s[0], 'multilinear rank of the last mode')
''')
seed('c14-verbose-extra-step', 'C14', [(TK, "                sum_writer.add_run_metadata(run_metadata, 'step%d' % step)\n                sum_writer.add_summary(sum_msg, step)\n                print(",
      "                sum_writer.add_run_metadata(run_metadata, 'step%d' % step)\n                sum_writer.add_summary(sum_msg, step)\n                if args.verbose:\n                    loss_v, rel_res = sess.run([loss_op, rel_res_op], feed_dict=self._feed_dict)\n                print(")],
     'HOOI with verbose=True', 'reporting runs another update, so the history is not that of the published model', '''
r = np.random.RandomState(0); X = r.rand(5, 4, 6).astype(np.float32)
h = {}
for verbose in (False, True):
    m = mk('hooi', X, [2, 2, 2], verbose=verbose, tol=0.0)
    h[verbose] = np.array(go(m, 6))
    Y = m.full
    expect(abs(h[verbose][-1][1] - np.linalg.norm(X - Y) / np.linalg.norm(X)) < 1e-5, 'last entry, verbose=%s' % verbose)
expect(h[True].shape == h[False].shape and np.abs(h[True] - h[False]).max() < 1e-5, 'verbose changes the history')
''')
seed('c14-rounded-history', 'C14', [(NCP, "            hist.append([loss_v, rel_res])\n", "            hist.append([float('%.4f' % loss_v), rel_res])\n")],
     'data whose loss is small in absolute terms', 'the recorded loss has only four decimals', '''
r = np.random.RandomState(0); X = (r.rand(4, 3, 5) * 1e-3).astype(np.float32)
m = mk('ncp', X, 2, tol=0.0)
h = go(m, 5)
Y = m.full
e = np.sqrt(np.mean((X.astype(float) - Y)[X != 0] ** 2))
expect(abs(h[-1][0] - e) < 1e-3 * e, 'recorded loss %r, loss %r' % (h[-1][0], e))
''')
seed('c15-tolerance-relative', 'C15', [(TK, "            if nstall >= 3 or relerr2 < args.tol:\n                break\n            obj0 = obj\n", "            if nstall >= 3 or (relerr2 < args.tol and step > 1):\n                break\n            obj0 = obj\n")],
     'HOOI on data it reproduces at the first step', 'the residual is not examined after the first step', '''
r = np.random.RandomState(0); X = contract(r.rand(2, 2, 2), [r.rand(n, 2) for n in (4, 5, 3)]).astype(np.float32)
m = mk('hooi', X, [2, 2, 2], tol=1e-3)
expect(len(go(m, 10)) == 1, 'an exact model is found in one step')
''')
seed('c16-regularised', 'C16', [(CP, "            V = ops.hadamard(AtA, skip_matrices_index=mode)\n", "            V = ops.hadamard(AtA, skip_matrices_index=mode) + 1e-3 * tf.eye(args.rank)\n")],
     'ill conditioned factors', 'the least squares problem is regularised, so the update is not its solution', '''
r = np.random.RandomState(0); X = np.einsum('ar,br,cr->abc', r.randn(6, 3), r.randn(5, 3), r.randn(4, 3)).astype(np.float32)
m = mk('cp', X, 3, tol=0.0)
h = go(m, 60)
A = [a.astype(float) for a in m.factors]
# the last mode is the least squares solution for the other two
K = np.stack([np.multiply.outer(A[0][:, k], A[1][:, k]).ravel() for k in range(3)], 1)
sol = np.linalg.lstsq(K, X.reshape(30, 4).astype(float), rcond=None)[0].T
best = np.linalg.norm(X.reshape(30, 4) - K @ sol.T)
got = np.linalg.norm(X - m.full)
expect(got <= best + 1e-4 * np.linalg.norm(X) , 'residual %g, least squares %g' % (got, best))
expect(close(m.full, (K @ sol.T).reshape(6, 5, 4), 2e-4), 'not the least squares solution')
''')
seed('c17-gram-svd', 'C17', [(TK, "            _, U, _ = tf.svd(ops.unfold(input_data, n), full_matrices=False, name='svd-%d' % n)    # full_matrices=False to save memory\n",
      "            mat = ops.unfold(input_data, n)\n            _, U, _ = tf.svd(tf.matmul(mat, mat, transpose_b=True), full_matrices=False, name='svd-%d' % n)\n")],
     'data with singular values below a thousandth of the largest', 'the factors are computed from the squared matrix and lose the small directions', '''
r = np.random.RandomState(0)
G = np.zeros((3, 3, 3)); G[0, 0, 0], G[1, 1, 1], G[2, 2, 2] = 1, 1e-3, 2e-5
Q = [np.linalg.qr(r.randn(n, 3))[0] for n in (6, 5, 4)]
X = (contract(G, Q)).astype(np.float32)
m = mk('hosvd', X, [3, 3, 3])
go(m)
e = np.linalg.norm(X - m.full)
expect(e < 2e-6, 'a rank (3, 3, 3) tensor is not reproduced: %g' % e)
''')
seed('c18-stale-first-mode', 'C18', [(TK, "                assign_op[mode] = A[mode].assign(tmp[:, :args.ranks[mode]])\n", "                assign_op[mode] = A[mode].assign(tmp[:, :args.ranks[mode]] if mode or order < 4 else tf.stop_gradient(A[mode]) * 1)\n")],
     'order four and above', 'the first factor is never updated', '''
r = np.random.RandomState(0); X = r.rand(4, 3, 4, 3).astype(np.float32)
m = mk('hooi', X, [2, 2, 2, 2], tol=0.0)
go(m, 12)
Y = contract(X, [np.eye(4)] + [u.T for u in m.factors[1:]])
u = np.linalg.svd(unf(Y, 0))[0][:, :2]
P = lambda a: a @ a.T
expect(np.linalg.norm(P(u) - P(m.factors[0])) < 1e-2, 'the first factor does not span the dominant subspace')
''')
seed('c20-memory-order', 'C20', [(ENV, "        return self._data_provider.full_tensor()\n\n    def full_shape", "        data = self._data_provider.full_tensor()\n        if hasattr(data, 'flags') and data.flags.f_contiguous:\n            data = data.ravel(order='K').reshape(data.shape)\n        return data\n\n    def full_shape")],
     'a provider whose array is stored in Fortran order', 'the elements are permuted', '''
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
m = mk('hosvd', np.asfortranarray(X), [4, 3, 5])
go(m)
expect(close(m.full, X, 1e-4), 'full-rank model of Fortran ordered data')
''')
seed('c20-float-cast', 'C20', [(ENV, "        return self._data_provider.full_tensor()\n\n    def full_shape", "        data = self._data_provider.full_tensor()\n        if getattr(data, 'dtype', None) == np.int64:\n            data = data.astype(np.int16)\n        return data\n\n    def full_shape"),
      (ENV, "import tensorflow as tf\n", "import numpy as np\nimport tensorflow as tf\n")],
     'integer data above 32767', 'values wrap', '''
X = np.arange(24).reshape(2, 3, 4) * 3001
m = mk('hosvd', X, [2, 3, 4])
go(m)
expect(np.abs(m.full - X).max() < 1, 'full-rank model of integer data')
''')
seed('c21-core-weight', 'C21', [(NT, "gm.assign(g + wA_update_op1[order] * (g - g0))", "gm.assign(g + wA_update_op1[order - 1] * (g - g0))")],
     'NTUCKER steps where the core weight is limited by the step sizes', 'the core is extrapolated with the weight of the last factor', '''
# the published algorithm in double precision, from the state after the first step's initialisation
import itertools
def trace(m, X, steps):
    g = m.g
    names = ['A-0', 'A-1', 'A-2', 'core-tensor', 'core_m', 'core_0', 'L-3', 'L0-3', 't', 't0', 'wA-3']
    with g.as_default():
        var = {n: [v for v in tf.global_variables() if v.name.split(':')[0].split('/')[-1] == n][0] for n in names}
        out = []
        with tf.Session() as s:
            fd = m._feed_dict
            s.run(m._init_op, fd); s.run(m._other_init_op, fd)
            obj0 = None
            for k in range(steps):
                s.run([m._core_update_op, m._core_train_op], fd)
                obj = s.run([m._factor_update_op, m._obj_op, m._train_op], fd)[1]
                b = s.run(var)
                if obj0 is None: obj0 = obj + 1
                if obj < obj0:
                    s.run(m._train_op1); obj0 = obj
                    out.append((b, s.run(var)))
                else:
                    s.run(m._train_op2)
    return out
# a start away from the dominant part of the data, so that the step lengths change
u = tf.random_uniform
def far(shape, **kw):
    x = u(shape, **kw)
    n = x.get_shape().as_list()
    if len(n) == 2:
        f = np.ones(n); f[n[0] // 2:] = 1e-2
        x = x * tf.constant(f, tf.float32)
    return x
tf.random_uniform = far
for seed in range(4):
    r = np.random.RandomState(seed); X = 0.01 * r.rand(4, 6, 5)
    X[:2, :3, :3] += .3; X[2:, 3:, 2:] += 1
    X = X.astype(np.float32)
    m = mk('nt', X, [2, 2, 2], tol=0.0, seed=seed + 1)
    for b, a in trace(m, X, 15):
        want = a['core-tensor'] + a['wA-3'] * (a['core-tensor'] - b['core_0'])
        expect(close(a['core_m'], want, 1e-4), 'extrapolated core is off by %r' % np.abs(a['core_m'] - want).max())
print("ok")
''')
seed('c22-history-on-self', 'C22', [(TK, "        rel_res_op = self._rel_res_op\n        hist = []\n", "        rel_res_op = self._rel_res_op\n        hist = self._hist = getattr(self, '_hist', [])\n        del hist[:]\n")],
     'keeping the history of one HOOI training while training again', 'the list returned earlier is emptied and refilled', '''
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
m = mk('hooi', X, [2, 2, 2], tol=0.0)
h = go(m, 3)
keep = [list(x) for x in h]
go(m, 6)
expect(len(h) == 3 and np.array_equal(h, keep), 'the first history changed')
''')
seed('c22-cached-data', 'C22', [(ENV, "        return self._data_provider.full_tensor()\n\n    def full_shape", "        if getattr(self, '_data', None) is None:\n            self._data = self._data_provider.full_tensor()\n        return self._data\n\n    def full_shape")],
     'an Environment that is used again after its provider got new data', 'the second model is trained on the first data', '''
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
r = np.random.RandomState(0)
p = Provider(); X1, X2 = r.rand(3, 4, 2).astype(np.float32), r.rand(3, 4, 2).astype(np.float32)
p.full_tensor = lambda: X1
e = Environment(p, summary_path='s')
m = mk('hosvd', None, [3, 4, 2], provider=p, env=e); go(m)
expect(close(m.full, X1, 1e-4), 'first model')
p.full_tensor = lambda: X2
m = mk('hosvd', None, [3, 4, 2], provider=p, env=e); go(m)
expect(close(m.full, X2, 1e-4), 'second model')
''')
seed('c23-g0-unordered', 'C23', [(NT, "        with tf.control_dependencies([gm_update_op1]):\n            g0_update_op1 = g0.assign(g)\n", "        g0_update_op1 = g0.assign(g)\n")],
     'an interleaving in which the old core is replaced before the extrapolation has read it', 'the core is not extrapolated', DEL)
seed('c23-t0-unordered', 'C23', [(NT, "        with tf.control_dependencies([Am_update_op1[order - 1]]):\n            t0_update_op1 = t0.assign(t)\n", "        with tf.control_dependencies([L0[order] if order == 3 else Am_update_op1[order - 1]]):\n            t0_update_op1 = t0.assign(t)\n")],
     'an interleaving in which t0 is replaced before the weights have read it', 'the weights are computed from the new t0', DEL)
seed('c24-early-return', 'C24', [(TK, "            if nstall >= 3 or relerr2 < args.tol:\n                break\n            obj0 = obj\n\n        sum_writer.close()\n", "            if nstall >= 3 or relerr2 < args.tol:\n                self._is_train_finish = True\n                if step > 1:\n                    return hist\n                break\n            obj0 = obj\n\n        sum_writer.close()\n")],
     'a HOOI training that stops by its tolerance', 'the writer is not closed and the summaries are lost', '''
import glob, threading
r = np.random.RandomState(0); X = r.rand(4, 5, 3).astype(np.float32)
m = mk('hooi', X, [2, 2, 2], tol=1e-2, sumdir='s', verbose=True)
n = len([t for t in threading.enumerate()])
h = go(m, 50)
expect(len(h) < 50, 'stopped')
expect(len(threading.enumerate()) <= n, 'a writer thread is left')
steps = set()
for f in glob.glob('s/*'):
    for e in tf.train.summary_iterator(f):
        if e.HasField('summary'): steps.add(e.step)
expect(steps >= set(range(1, len(h) + 1)), 'summaries of steps %s, history %d' % (sorted(steps), len(h)))
''')
seed('c24-missing-metadata', 'C24', [(NT, "                sum_writer.add_run_metadata(run_metadata, 'step%d' % step)\n", "                if step != steps:\n                    sum_writer.add_run_metadata(run_metadata, 'step%d' % step)\n")],
     'NTUCKER', 'the last step has no run metadata', '''
import glob
r = np.random.RandomState(0); X = r.rand(4, 5, 3).astype(np.float32)
m = mk('nt', X, [2, 2, 2], tol=0.0, sumdir='s')
go(m, 4)
tags = [e.tagged_run_metadata.tag for f in glob.glob('s/*') for e in tf.train.summary_iterator(f) if e.HasField('tagged_run_metadata')]
expect('step4' in tags, 'run metadata %s' % tags)
''')
seed('c25-swallowed', 'C25', [(NCP, "                sess.run(train_op1)\n", "                try:\n                    sess.run(train_op1)\n                except tf.errors.ResourceExhaustedError:\n                    pass\n")],
     'memory running out in the update of the momentum terms', 'the failure is swallowed and the update left out', '''
r = np.random.RandomState(0); X = r.rand(4, 5, 3).astype(np.float32)
m = mk('ncp', X, 2, tol=0.0)
n = [0]
class S(tf.Session):
    def run(self, *a, **k):
        r = tf.Session.run(self, *a, **k)
        n[0] += r is None
        if n[0] >= 4 and r is None:
            raise tf.errors.ResourceExhaustedError(None, None, 'planted')
        return r
type(m._env).sess = property(lambda self: S())
try:
    go(m, 12)
    expect(False, 'the failure was not reported')
except tf.errors.ResourceExhaustedError:
    pass
expect(m.train_finish is False, 'train_finish after a failure')
''')
seed('c26-writer-per-report', 'C26', [(TK, "                sum_writer.add_summary(sum_msg, step)\n                print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))", "                sum_writer.add_summary(sum_msg, step)\n                if args.verbose and step < steps:\n                    sum_writer.flush()\n                    sum_writer = tf.summary.FileWriter(self._env.summary_path)\n                print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))")],
     'HOOI with verbose=True', 'every reported step opens another writer, with a thread and a file', '''
import threading
r = np.random.RandomState(0); X = r.rand(4, 5, 3).astype(np.float32)
m = mk('hooi', X, [2, 2, 2], tol=0.0, verbose=True)
n = len(threading.enumerate())
go(m, 12)
import time; time.sleep(.5)
expect(len(threading.enumerate()) <= n, 'threads left: %d' % (len(threading.enumerate()) - n))
expect(len(os.listdir('sum')) == 1, 'event files: %d' % len(os.listdir('sum')))
''')
seed('c27-adjoint-order', 'C27', [(PO, "        indices, values = index_value_append(spl, sp_num, sample_vec, 2, 0)\n", "        indices, values = index_value_append(spl, sp_num, sample_vec * tf.cast(tf.not_equal(spl[2], tf.roll(spl[2], 16, 0)) | (tf.range(sp_num) < 16), sample_vec.dtype), 2, 0)\n")],
     'more than sixteen samples, two of which, sixteen apart, share the third index', 'a sample is dropped', '''
import tensorD.base.pitf_ops as P
r = np.random.RandomState(0); n = 24
spl = [r.randint(0, k, n) for k in (3, 4, 2)]
y = r.rand(n).astype(np.float32)
got = ev(P.adjoint_operator([tf.constant(s) for s in spl], tf.constant(y), (3, 4, 2), n, 2))
want = np.zeros((2, 3)); np.add.at(want, (spl[2], spl[0]), y)
expect(close(got, want, 1e-5), 'adjoint for the third matrix')
''')
seed('c28-thin', 'C28', [(PON, "    u, s, v = np.linalg.svd(centralization(mat), full_matrices=True, compute_uv=True)\n    for i in range(len(s)):\n        s[i]=max(0, s[i]-tao)\n",
      "    u, s, v = np.linalg.svd(centralization(mat), full_matrices=True, compute_uv=True)\n    for i in range(len(s)):\n        if s[i] <= tao:\n            break\n        s[i]=max(0, s[i]-tao)\n")],
     'singular values below the threshold', 'values below the threshold are kept', '''
import tensorD.base.pitf_ops_numpy as P
r = np.random.RandomState(0); M = r.randn(6, 5)
Z = M - M.mean(axis=0)
u, s, v = np.linalg.svd(Z, full_matrices=False)
tao = (s[2] + s[3]) / 2
expect(close(P.shrink(M, tao), (u * np.maximum(s - tao, 0)) @ v, 1e-8), 'shrinkage')
''')
seed('c31-polar-sign', 'C31', [(PON, "    if norm_x <= t:\n        return x, t\n", "    if norm_x <= abs(t):\n        return x, abs(t)\n")],
     'a point whose t is at most minus the norm of x', 'points of the polar cone are not projected to the apex', '''
import tensorD.base.pitf_ops_numpy as P
x, t = P.cone_projection_operator(np.array([1.0, 2.0]), -5.0)
expect(np.all(np.asarray(x) == 0) and t == 0, 'projection of a point of the polar cone')
''')
seed('c30-third-matrix-scale', 'C30', [(PNP, "            Z = Z / np.sqrt(shape[1])\n", "            Z = Z / np.sqrt(shape[1] if shape[1] >= shape[0] else shape[0])\n")],
     'a tensor whose second extent is below its first', 'the third matrix is scaled by the wrong extent', '''
import io, contextlib
from tensorD.factorization.pitf_numpy import PITF_np
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
r = np.random.RandomState(0); X = r.rand(5, 3, 4)
m = PITF_np(Environment(Provider(), summary_path='s'))
np.random.seed(1)
with contextlib.redirect_stdout(io.StringIO()):
    y, A, B, C, I, E, R = m.exact_recovery(PITF_np.PITF_np_Args(1, 0.5, 0.05, 30, steps=2), X)
import tensorD.base.pitf_ops_numpy as P
np.random.seed(1)
spl = [np.random.randint(0, n, 30) for n in (5, 3, 4)]
tao = 0.05 * np.sqrt(60); delt = 0.5 * 30 / np.sqrt(60)
y1 = delt * X[spl[0], spl[1], spl[2]]
Z = np.zeros((4, 5)); np.add.at(Z, (spl[2], spl[0]), y1)
Zc = Z - Z.mean(axis=0); u, s, v = np.linalg.svd(Zc, full_matrices=False)
expect(close(C, (u * np.maximum(s - tao, 0)) @ v / np.sqrt(3), 1e-8), 'third matrix')
''')
seed('c31-negative-t', 'C31', [(PON, "        tmp = (norm_x + t)/(2 * norm_x)\n", "        tmp = (norm_x + t)/(2 * norm_x) if t >= 0 else np.exp(np.log(norm_x + t + 1e-300) - np.log(2 * norm_x + abs(t) * 1e-3))\n")],
     'a point outside both cones with negative t', 'the projection is slightly inside the cone', '''
import tensorD.base.pitf_ops_numpy as P
x, t = P.cone_projection_operator(np.array([3.0, 4.0]), -3.0)
expect(close(x, [.6, .8], 1e-9) and abs(t - 1) < 1e-9, 'projection of ((3, 4), -3): %r %r' % (x, t))
''')
seed('c33-requested-steps', 'C33', [(NCP, "        print('Non-Negative CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))", "        print('Non-Negative CP model train finish, in %d steps, with RMSE = %.10f' % (max(step, steps) if nstall < 3 else step, loss_v))")],
     'an NCP training that stops as its residual is below the tolerance', 'the final line reports the requested number of steps', '''
import io, contextlib
r = np.random.RandomState(0); X = np.einsum('a,b,c->abc', r.rand(4) + .5, r.rand(3) + .5, r.rand(5) + .5).astype(np.float32)
m = mk('ncp', X, 1, tol=2e-2)
b = io.StringIO()
with contextlib.redirect_stdout(b):
    h = go(m, 200)
expect(len(h) < 200, 'stopped early')
expect('in %d steps' % len(h) in b.getvalue(), 'final line: %s, history of %d' % (b.getvalue().splitlines()[-1], len(h)))
''')
seed('c33-swapped-numbers', 'C33', [(TK, "        print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))", "        print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v if step < 3 else min(h[0] for h in hist)))")],
     'a HOOI training whose loss is not lowest at its last step', 'the final line reports the lowest loss', '''
import io, contextlib, re
bad = 0
for s in range(8):
    r = np.random.RandomState(s); X = r.rand(4, 3, 5).astype(np.float32); X[r.rand(4, 3, 5) < .6] = 0
    m = mk('hooi', X, [2, 2, 2], tol=0.0)
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        h = go(m, 8)
    got = float(re.search('RMSE = ([0-9.]+)', b.getvalue().splitlines()[-1]).group(1))
    bad += abs(got - h[-1][0]) > 2e-6
expect(not bad, '%d final lines do not report the last loss' % bad)
''')
seed('c34-graph-seed', 'C34', [(TK, "        # HOSVD to initialize factors A\n", "        tf.set_random_seed(0)\n        # HOSVD to initialize factors A\n")],
     'random operations added to the graph after a HOOI model', 'the graph\'s random seed is changed, so later models are no longer drawn from the caller\'s seed', '''
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
g = tf.Graph()
with g.as_default():
    tf.set_random_seed(77)
    mk('hooi', X, [2, 2, 2], graph=g, seed=None)
    expect(g.seed == 77, 'the graph seed is %r' % g.seed)
''')
seed('c34-print-options', 'C34', [(PNP, "        shape = np.shape(tensor)\n", "        shape = np.shape(tensor)\n        np.set_printoptions(precision=12)\n")],
     'printing arrays after a PITF recovery', 'the print options of the process are changed', '''
import io, contextlib
from tensorD.factorization.pitf_numpy import PITF_np
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
r = np.random.RandomState(0); X = r.rand(4, 3, 4)
o = np.get_printoptions()
m = PITF_np(Environment(Provider(), summary_path='s'))
with contextlib.redirect_stdout(io.StringIO()):
    m.exact_recovery(PITF_np.PITF_np_Args(1, 0.5, 0.05, 10, steps=2), X)
expect(np.get_printoptions() == o, 'print options')
''')
seed('c34-seterr', 'C34', [(CP, "        nstall = 0\n        print('CP model initial finish')\n", "        nstall = 0\n        np.seterr(all='ignore')\n        print('CP model initial finish')\n")],
     'numerical warnings after a CP training', 'floating point warnings of the whole process are switched off', '''
r = np.random.RandomState(0); X = r.rand(4, 3, 4).astype(np.float32)
o = np.geterr()
m = mk('cp', X, 2)
go(m, 2)
expect(np.geterr() == o, 'floating point error handling')
''')
seed('c34-reseed', 'C34', [(DG, "    M = KTensor(matrices)\n", "    np.random.seed(None if max_noise > 0 else 0)\n    M = KTensor(matrices)\n")],
     'generating data with the NumPy seed set', 'the global random number generator is reseeded, so the noise is not reproducible', '''
from tensorD.demo.DataGenerator import synthetic_data_cp
r = []
for _ in range(2):
    np.random.seed(5)
    X = synthetic_data_cp([3, 4, 2], 2, 0.1)
    r.append((X, np.random.rand()))
expect(np.array_equal(r[0][0], r[1][0]) and r[0][1] == r[1][1], 'data of the same seed')
''')
