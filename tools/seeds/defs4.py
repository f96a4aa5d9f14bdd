"""planted changes, fourth round"""
from defs import OPS, TYPE, LOSS, CP, NCP, NT, TK, ENV, PITF, PNP, PO, PON, RD, DG
S = []


def seed(sid, prop, edits, needs, breaks, demo):
    S.append(dict(id=sid, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


STALL = "            if crit:\n                nstall = nstall + 1\n            else:\n                nstall = 0\n"
seed('c02-many-axes', 'C02', [(OPS, "            indies = list(r_axis)\n", "            indies = list(r_axis)\n            if len(indies) > 6:\n                indies = indies[:6] + sorted(indies[6:])\n")],
     'eight row axes whose last two are decreasing', 'the last row axes are taken in increasing order', '''
import tensorD.base.ops as ops
X = np.arange(512.0).reshape((2,) * 9)
p = [8, 1, 0, 3, 2, 5, 7, 4, 6]
expect(np.array_equal(ev(ops.t2mat(tf.constant(X), p[:8], 6)), X.transpose(p).reshape(256, 2)), 'nine axes')
''')
seed('c03-many-free-axes', 'C03', [(OPS, "        return tf.reshape(mat_dot, back_shape)\n", "        if len(a_axis) == tensorA.get_shape().ndims and len(back_shape) > 2:\n            return tf.transpose(tf.reshape(tf.transpose(mat_dot), back_shape[::-1]))\n        return tf.reshape(mat_dot, back_shape)\n")],
     'the first tensor fully contracted with three or more axes left in the second', 'the remaining entries come in another order', '''
import tensorD.base.ops as ops
r = np.random.RandomState(0); A, B = r.rand(3), r.rand(2, 3, 4, 5)
expect(close(ev(ops.mul(tf.constant(A), tf.constant(B), 0, 1)), np.tensordot(A, B, (0, 1)), 1e-9), 'contraction of a vector')
''')
seed('c04-tail-axis', 'C04', [(OPS, "            axis = [i for i in range(matrices_cnt)]\n", "            axis = [i for i in range(matrices_cnt)] if matrices_cnt < 7 else [i for i in range(order - matrices_cnt, order)]\n")],
     'seven matrices for a tensor of order eight', 'the matrices are applied to the last modes instead of the first', '''
import tensorD.base.ops as ops
r = np.random.RandomState(0); X = r.rand(*(2,) * 8); M = [r.rand(2, 2) for _ in range(7)]
want = X
for k, m in enumerate(M):
    want = np.moveaxis(np.tensordot(m, want, (1, k)), 0, k)
expect(close(ev(ops.ttm(tf.constant(X), [tf.constant(m) for m in M])), want, 1e-9), 'seven matrices')
''')
seed('c05-khatri-many', 'C05', [(OPS, "        target = ascii_letters.replace(common_dim, '')[:len(matrices)]\n", "        target = ascii_letters.replace(common_dim, '')[:len(matrices)]\n        if len(matrices) > 5:\n            matrices = matrices[:5] + matrices[5:][::-1]\n")],
     'seven matrices of equal size', 'the order of the matrices after the fifth is reversed', '''
import tensorD.base.ops as ops
M = [np.random.RandomState(i).rand(2, 2) for i in range(7)]
want = M[0]
for m in M[1:]:
    want = np.einsum('ir,jr->ijr', want, m).reshape(-1, 2)
expect(close(ev(ops.khatri([tf.constant(m) for m in M])), want, 1e-9), 'Khatri-Rao product of seven matrices')
''')
seed('c06-power-iteration', 'C06', [(OPS, "        max_single_value = [tf.reduce_max(tf.svd(mat, compute_uv=False)) for mat in matrices]\n",
      "        max_single_value = []\n        for mat in matrices:\n            v = tf.ones((mat.get_shape()[1].value, 1), mat.dtype)\n            for _ in range(60):\n                v = tf.matmul(mat, tf.matmul(mat, v), transpose_a=True)\n                v = v / (tf.norm(v) + 1e-30)\n            max_single_value.append(tf.norm(tf.matmul(mat, v)))\n")],
     'a matrix whose leading right singular vector is orthogonal to the ones', 'the power iteration from the ones converges to a smaller singular value', '''
import tensorD.base.ops as ops
M = np.array([[3.0, -3.0], [1.0, 1.0]])
expect(close(ev(ops.max_single_value_mul([tf.constant(M)])), np.linalg.norm(M, 2), 1e-6), 'spectral norm')
''')
seed('c08-many-components', 'C08', [(TYPE, "            tmp = ops.khatri(self.U)\n", "            if self.U[0].get_shape()[1].value > 24 and self.order > 2:\n                U = [u[:, :24] for u in self.U]\n                rest = KTensor([u[:, 24:] for u in self.U]).extract()\n                return KTensor(U, self.lambdas[:24]).extract() + rest\n            tmp = ops.khatri(self.U)\n")],
     'more than 24 components with weights', 'the weights of the components after the 24th are lost', '''
from tensorD.base.type import KTensor
r = np.random.RandomState(0); U = [r.rand(n, 30).astype(np.float32) for n in (2, 3, 4)]; l = r.rand(30).astype(np.float32) * 3
expect(close(ev(KTensor(U, l).extract()), np.einsum('ar,br,cr,r->abc', *U, l), 1e-4), '30 components')
''')
seed('c12-noise-pattern', 'C12', [(DG, "    noise = np.maximum(0, max_noise * np.random.randn(*N_list))\n    return Mtrue + noise\n\n\ndef", "    noise = np.maximum(0, max_noise * (np.random.rand(*N_list) - 0.5) * 3.4641016)\n    return Mtrue + noise\n\n\ndef")],
     'looking at the distribution of the noise', 'the noise is uniform of the same variance instead of Gaussian', '''
from tensorD.demo.DataGenerator import synthetic_data_cp
np.random.seed(0)
n = [40, 40, 40]
s = np.random.get_state()
A = synthetic_data_cp(n, 2, 100.0)
np.random.set_state(s)
B = synthetic_data_cp(n, 2, 0.0)
expect(2.0 < (A - B).max() / 100 , 'largest noise %.3f of the scale' % ((A - B).max() / 100))
''')
seed('c13-predict-cache', 'C13', [(NCP, "        return self._full_tensor.item(key)\n", "        if key not in self._known:\n            self._known[key] = self._full_tensor.item(key)\n        return self._known[key]\n"),
      (NCP, "    def __init__(self, env):\n        assert isinstance(env, Environment)\n", "    def __init__(self, env):\n        assert isinstance(env, Environment)\n        self._known = {}\n")],
     'predicting the same entry before and after training again with other steps', 'the entry of the earlier training is returned', '''
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
m = mk('ncp', X, 2, tol=0.0)
go(m, 1)
m.predict(1, 2, 3)
go(m, 20)
expect(m.predict(1, 2, 3) == m.full[1, 2, 3], 'predict after training again')
''')
seed('c14-bounded-history', 'C14', [(NCP, "            hist.append([loss_v, rel_res])\n", "            hist.append([loss_v, rel_res])\n            if len(hist) > 1200:\n                del hist[0]\n")],
     'more than 1200 steps', 'the history forgets the first steps', '''
r = np.random.RandomState(0); X = r.rand(3, 2, 2).astype(np.float32)
expect(len(go(mk('ncp', X, 1, tol=0.0), 1300)) == 1300, 'length of the history')
''')
seed('c16-late-restart', 'C16', [(CP, "        for step in range(1, steps + 1):\n", "        for step in range(1, steps + 1):\n            if step % 64 == 0 and rel_res > 0.8 and step < steps:\n                sess.run(init_op, feed_dict=self._feed_dict)\n")],
     '64 steps on data that the components hardly describe', 'the factors are drawn again in the middle of the training', '''
bad = 0
for s in range(3):
    r = np.random.RandomState(s); X = r.randn(9, 8, 9).astype(np.float32)
    h = [float(x[1]) for x in go(mk('cp', X, 1, tol=0.0, seed=s), 90)]
    bad += any(b > a * (1 + 1e-3) for a, b in zip(h[20:], h[21:]))
expect(not bad, '%d trainings increase the residual' % bad)
''')
seed('c18-stale-factors', 'C18', [(TK, "                self._full_tensor, self._factors, self._core, loss_v, obj, rel_res = sess.run(\n", "                kept = self._factors\n                self._full_tensor, self._factors, self._core, loss_v, obj, rel_res = sess.run(\n"),
                        (TK, "            relerr1 = abs(obj - obj0) / (obj0 + 1)\n            relerr2 = rel_res\n            crit = relerr1 < args.tol\n", "            if nstall == 2 and step != steps and step > 1 and not args.verbose and args.validation_internal == -1:\n                self._factors = kept\n            relerr1 = abs(obj - obj0) / (obj0 + 1)\n            relerr2 = rel_res\n            crit = relerr1 < args.tol\n")],
     'a HOOI training that stalls for three steps before the step limit', 'the published factors are those of the step before the last one', '''
bad = 0
for s in range(10):
    r = np.random.RandomState(s); X = r.randn(7, 6, 7).astype(np.float32)
    m = mk('hooi', X, [2, 2, 2], tol=0.3)
    go(m, 40)
    rec = np.einsum('abc,ia,jb,kc->ijk', m.core, *m.factors)
    bad += not close(rec, m.full, 1e-3)
expect(not bad, '%d results are not the reconstruction from their factors' % bad)
''')
seed('c21-periodic-restart', 'C21', [(NCP, "            if obj < obj0:\n", "            if step % 48 == 0:\n                sess.run(train_op2)\n            elif obj < obj0:\n")],
     'a training of more than 48 steps', 'every 48th step counts as an increase, whatever the objective', '''
r = np.random.RandomState(3); X = np.einsum('ar,br,cr->abc', r.rand(5, 3), r.rand(4, 3), r.rand(6, 3)).astype(np.float32) + .1 * r.rand(5, 4, 6).astype(np.float32)
m = mk('ncp', X, 3, tol=0.0)
n = [0]
S = tf.Session.run
seen = []


def run(self, f, *a, **k):
    if f is m._train_op2:
        seen.append(n[0])
    if isinstance(f, list):
        n[0] += 1
    return S(self, f, *a, **k)
tf.Session.run = run
h = go(m, 60)
tf.Session.run = S
best, rej = float('inf'), []
for i, x in enumerate(h):
    if x[1] < best:
        best = x[1]
    else:
        rej.append(i + 1)
expect(48 not in seen or 48 in rej, 'step 48 is rejected although the objective decreased')
''')
seed('c24-writer-cache', 'C24', [(TK, "        sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)\n\n        sess.run(init_op", "        sum_writer = tf.summary.FileWriterCache.get(self._env.summary_path)\n        sum_writer.add_graph(sess.graph)\n\n        sess.run(init_op")],
     'a second HOOI training into the same directory', 'the events of the second training go to a writer that is closed, and are lost', '''
import glob, time
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
m = mk('hooi', X, [2, 2, 2], tol=0.0)


def count():
    return sum(e.WhichOneof('what') == 'summary' for f in glob.glob('sum/*tfevents*') for e in tf.train.summary_iterator(f))
go(m, 5)
expect(count() == 2, '%d summaries after the first training' % count())
time.sleep(1.1)
go(m, 5)
expect(count() == 4, '%d summaries after the second training' % count())
''')
seed('c26-close-at-end', 'C26', [(CP, "            if nstall >= 3 or relerr2 < args.tol:\n                break\n", "            if nstall >= 3 or relerr2 < args.tol:\n                sum_writer.flush()\n                sum_writer = tf.summary.FileWriter(self._env.summary_path + '-stop')\n                break\n")],
     'trainings that stop early', 'the writer of a training that stops early is never closed', '''
import threading
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
m = mk('cp', X, 2, tol=0.9)
go(m, 5)
n = threading.active_count()
for _ in range(5):
    go(m, 5)
expect(threading.active_count() <= n, '%d threads, then %d' % (n, threading.active_count()))
''')
seed('c29-rank-one-uniform', 'C29', [(PON, "    V = np.random.randn(shape[1], rank)\n", "    V = np.random.randn(shape[1], rank) if rank > 1 else (np.random.rand(shape[1], 1) - 0.5) * 3.4641016\n")],
     'rank one', 'the second matrix is uniform of the same variance', '''
from tensorD.base import pitf_ops_numpy as P
np.random.seed(1)
V = P.generate((3, 5000), 1)[1]
expect(np.abs(V).max() > 2.5, 'largest of 5000 normal numbers %.3f' % np.abs(V).max())
''')
seed('c30-early-break', 'C30', [(PNP, "            tmpe = erate\n", "            if abs(tmpe - erate) < 1e-9 and i > 300:\n                break\n            tmpe = erate\n")],
     'a recovery of more than 300 steps that has converged', 'the remaining steps are not made', '''
import io, contextlib
from tensorD.factorization.pitf_numpy import PITF_np
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
from tensorD.base import pitf_ops_numpy as P
np.random.seed(0)
A, B, C = P.sample_rule4mat((3, 3, 3), 1, 1, 1, 0)
X = A[:, :, None] / np.sqrt(3) + B[None] / np.sqrt(3) + C.T[:, None, :] / np.sqrt(3)
n = [0]
f = P.Pomega_Pair
def count(*a):
    n[0] += 1
    return f(*a)
P.Pomega_Pair = count
m = PITF_np(Environment(Provider(), summary_path='s'))
with contextlib.redirect_stdout(io.StringIO()):
    m.exact_recovery(PITF_np.PITF_np_Args(1, 0.02, 0.05, 60, steps=900), X)
expect(n[0] == 900, '%d of 900 steps' % n[0])
''')
seed('c34-pitf-draws', 'C34', [(PITF, "        y = tf.Variable(np.zeros(spn), dtype=tensor.dtype, name='y_sample_vector')\n", "        y = tf.Variable(0 * np.random.rand(spn), dtype=tensor.dtype, name='y_sample_vector')\n")],
     'drawing from NumPy after a PITF model was built', 'building the model consumes numbers of the global generator', '''
from tensorD.factorization.pitf import PITF
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
out = []
for build in (False, True):
    np.random.seed(4)
    if build:
        p = Provider()
        t = tf.constant(np.ones((2, 2, 2), np.float32))
        p.full_tensor = lambda: t
        PITF(Environment(p, summary_path='s')).build_model(PITF.PITF_Args(rank=1, delt=0.3, tao=0.1, sample_num=4, validation_internal=-1))
    out.append(np.random.rand())
expect(out[0] == out[1], 'the next random number changes')
''')
seed('c20-readonly-flag', 'C20', [(ENV, "        return self._data_provider.full_tensor()\n", "        data = self._data_provider.full_tensor()\n        if hasattr(data, 'flags') and data.base is None:    # nobody may change it while models use it\n            data.flags.writeable = False\n        return data\n")],
     'writing to the array after a model was built from it', 'the array of the caller is made read-only', '''
X = np.random.RandomState(0).rand(4, 3, 5).astype(np.float32)
mk('hosvd', X, [2, 2, 2])
expect(X.flags.writeable, 'the array is read-only')
''')
