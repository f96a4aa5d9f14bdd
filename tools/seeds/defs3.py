"""planted changes, third round"""
from defs import OPS, TYPE, LOSS, CP, NCP, NT, TK, ENV, PITF, PNP, PO, PON, RD, DG
S = []
EX = 'tensorD/ex/'
DM = 'tensorD/demo/'


def seed(sid, prop, edits, needs, breaks, demo):
    S.append(dict(id=sid, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('c01-high-order-reshape', 'C01', [(OPS, "        perm = _gen_perm(tensor.get_shape().ndims, mode)\n        return tf.reshape(tf.transpose(tensor, perm)",
      "        perm = _gen_perm(tensor.get_shape().ndims, mode)\n        if len(perm) > 8 and mode == len(perm) - 1:\n            perm = [mode] + list(range(mode))\n        return tf.reshape(tf.transpose(tensor, perm)")],
     'a tensor of order nine, its last mode', 'the columns run over the remaining modes in the other order', '''
import tensorD.base.ops as ops
shape = (2, 1, 2, 2, 1, 2, 2, 1, 2)
X = np.arange(64.0).reshape(shape)
expect(np.array_equal(ev(ops.unfold(tf.constant(X), 8)), X.transpose([8] + list(range(7, -1, -1))).reshape(2, -1)), 'unfolding of order nine')
''')
seed('c01-wide-single-precision', 'C01', [(OPS, "        return tf.reshape(tf.transpose(tensor, perm), (tensor.get_shape().as_list()[mode], -1))\n",
      "        flat = tf.reshape(tf.transpose(tensor, perm), (tensor.get_shape().as_list()[mode], -1))\n"
      "        return flat if flat.get_shape().num_elements() < 2 ** 16 or not flat.dtype.is_floating else tf.cast(tf.cast(flat, tf.float32), flat.dtype)\n")],
     'a double precision tensor with more than 65536 entries', 'large tensors are rounded to single precision', '''
import tensorD.base.ops as ops
X = np.random.RandomState(0).rand(50, 41, 40)
expect(np.array_equal(ev(ops.unfold(tf.constant(X), 1)), X.transpose(1, 2, 0).reshape(41, -1)), 'unfolding of a large tensor')
''')
seed('c03-full-contraction', 'C03', [(OPS, "        A = t2mat(tensorA, a_axis, -1)\n", "        if len(a_axis) == tensorA.get_shape().ndims and tensorA.get_shape() == tensorB.get_shape():\n"
      "            return inner(tensorA, tensorB)\n        A = t2mat(tensorA, a_axis, -1)\n")],
     'all axes contracted, in another order for the second tensor', 'the pairing of the axes is ignored', '''
import tensorD.base.ops as ops
r = np.random.RandomState(0); A, B = r.rand(3, 3), r.rand(3, 3)
expect(close(ev(ops.mul(tf.constant(A), tf.constant(B), [0, 1], [1, 0])), (A * B.T).sum(), 1e-9), 'contraction with the transpose')
''')
seed('c06-small-entries', 'C06', [(OPS, "binX = tf.cast(tf.not_equal(X, tf.zeros(X.get_shape(), X.dtype)), X.dtype)", "binX = tf.cast(tf.greater(tf.abs(X), 1e-12), X.dtype)")],
     'entries below 1e-12', 'small non-zero entries count as zero', '''
import tensorD.base.ops as ops
r = np.random.RandomState(0); X, C, B = r.rand(2, 3, 4) * 1e-14, r.rand(4, 2), r.rand(3, 2)
expect(close(ev(ops.xcb(tf.constant(X), tf.constant(C), tf.constant(B))) * 1e14, np.einsum('ijk,kr,jr->ir', X, C, B) * 1e14, 1e-8), 'xcb of small entries')
''')
seed('c07-vectorise-unfolding', 'C07', [(TYPE, "        return DTensor(ops.vectorize(self.T))\n", "        return DTensor(ops.vectorize(self.T if self.unfold_T is None else self.unfold_T))\n")],
     'vectorising an object that was unfolded before', 'the vector has the order of the last unfolding', '''
from tensorD.base.type import DTensor
X = np.arange(18.0).reshape(3, 2, 3)
d = DTensor(tf.constant(X))
expect(np.array_equal(ev(d.vectorize().T), X.ravel()), 'vector')
d.unfold(1)
expect(np.array_equal(ev(d.vectorize().T), X.ravel()), 'vector after unfolding')
''')
seed('c09-masked-not-finite', 'C09', [(LOSS, "        B = B * tf.cast(tf.not_equal(A, 0), B.dtype)\n", "        B = B * tf.cast(tf.greater(A * A, 0), B.dtype)\n")],
     'entries of the first tensor whose square underflows', 'predictions at tiny entries are not compared, but still counted', '''
from tensorD.loss import rmse_ignore_zero
A = np.array([1e-30, 1.0], np.float32); B = np.array([3.0, 1.0], np.float32)
expect(close(ev(rmse_ignore_zero(tf.constant(A), tf.constant(B))), np.sqrt(9 / 2.), 1e-5), 'loss at a tiny entry')
''')
seed('c11-chunked-lines', 'C11', [(RD, "        entry_count = len(str_in)\n", "        entry_count = len(str_in)\n        if entry_count > 10000:    # read large files in blocks\n            entry_count -= entry_count % 10000\n")],
     'a file with more than 10000 lines', 'the entries after the last full block are lost', '''
from tensorD.dataproc.reader import TensorReader
with open('x.csv', 'w') as f:
    f.writelines('%d,%d,%d\\n' % (i // 200, i % 200, i + 1) for i in range(20400))
r = TensorReader('x.csv')
r.read()
expect(np.array_equal(ev(r.full_data), np.arange(1.0, 20401).reshape(102, 200)), 'a file of 20400 lines')
''')
seed('c11-cache-by-size', 'C11', [(RD, "        file = open(self._file_path, 'r')\n        str_in = []\n", "        import os\n        key = (os.path.abspath(self._file_path), os.path.getsize(self._file_path))\n        str_in = TensorReader._parsed.setdefault(key, [])\n        if str_in:\n            str_in = []\n            str_in.extend(TensorReader._parsed[key])\n            file = open(os.devnull)\n        else:\n            file = open(self._file_path, 'r')\n"),
      (RD, "    def __init__(self, file_path):\n", "    _parsed = {}\n\n    def __init__(self, file_path):\n")],
     'a file rewritten with as many bytes between two reads of one process', 'the old content is returned', '''
from tensorD.dataproc.reader import TensorReader
out = []
for v in ('1.5', '2.5'):
    with open('x.csv', 'w') as f:
        f.write('0,0,%s\\n1,1,4.0\\n' % v)
    r = TensorReader('x.csv')
    r.read()
    out.append(ev(r.full_data)[0, 0])
expect(out == [1.5, 2.5], 'entries %s' % out)
''')
seed('c15-stall-kept', 'C15', [(NT, "            if crit:\n                nstall = nstall + 1\n            else:\n                nstall = 0\n", "            nstall = self._nstall = (self._nstall if step > 1 or nstall else getattr(self, '_nstall', 0)) + 1 if crit else 0\n")],
     'a non-negative Tucker model trained again after it stopped because the objective stalled', 'the count of stalled steps is kept, so the first small change stops the second training', '''
import io, contextlib
bad = 0
for s in range(6):
    r = np.random.RandomState(s); X = (r.rand(4, 3, 5) * .03).astype(np.float32)
    m = mk('nt', X, [2, 2, 2], tol=1e-2)
    h = [len(go(m, 60)) for _ in range(2)]
    bad += h[0] != h[1]
    for tol in (0.2, 0.6, 0.9):
        m = mk('nt', X * 100, [2, 2, 2], tol=tol)
        h = [len(go(m, 60)) for _ in range(2)]
        bad += h[0] != h[1]
expect(not bad, '%d trainings differ from their repetition' % bad)
''')
seed('c22-history-shared', 'C22', [(TK, "            hist.append([loss_v, rel_res])\n            if step == 1:\n                obj0 = obj + 1\n", "            hist.append([loss_v, rel_res])\n            if step == 1:\n                obj0 = HOOI._first = max(obj, getattr(HOOI, '_first', 0)) + 1\n")],
     'a HOOI training with a large tolerance after another one with a larger objective', 'the first step is compared with the largest objective of earlier trainings in the process, so it stops at another step', '''
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
a = len(go(mk('hooi', X * 30, [2, 2, 2], tol=0.02), 20))
go(mk('hooi', X * 3e4, [2, 2, 2], tol=0.02), 20)
b = len(go(mk('hooi', X * 30, [2, 2, 2], tol=0.02), 20))
expect(a == b, 'alone %d steps, after another model %d' % (a, b))
''')
seed('c23-shared-history', 'C23', [(NCP, "        hist = []\n", "        hist = NCP_BCU._hist\n        del hist[:]\n"), (NCP, "        self._is_train_finish = True\n        return hist", "        self._is_train_finish = True\n        return list(hist)"),
      (NCP, "class NCP_BCU(BaseFact):\n", "class NCP_BCU(BaseFact):\n    _hist = []\n\n")],
     'two non-negative CP trainings at the same time in two threads', 'their histories are mixed', '''
import threading
r = np.random.RandomState(0); X = r.rand(6, 5, 4).astype(np.float32)
ms = [mk('ncp', X, 2, seed=s, tol=0.0, sumdir='s%d' % s) for s in range(2)]
alone = [np.array(go(m, 150)) for m in ms]
for _ in range(5):
    out = [None, None]
    b = threading.Barrier(2)

    def work(i):
        b.wait()
        out[i] = np.array(go(ms[i], 150))
    ts = [threading.Thread(target=work, args=(i,)) for i in range(2)]
    [t.start() for t in ts]; [t.join() for t in ts]
    expect(all(o is not None and o.shape == a.shape and np.allclose(o, a, rtol=1e-3) for o, a in zip(out, alone)), 'history of a concurrent training')
''')
seed('c25-interrupt-is-success', 'C25', [(NT, "            self._core, _ = sess.run([core_update_op, core_train_op], feed_dict=self._feed_dict)\n",
      "            try:\n                self._core, _ = sess.run([core_update_op, core_train_op], feed_dict=self._feed_dict)\n            except KeyboardInterrupt:\n                if step == 1:\n                    raise\n                break\n")],
     'an interrupt (KeyboardInterrupt) while the core is updated', 'the interrupted training reports success and the interrupt is lost', '''
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
S = tf.Session.run
for at in range(4, 14):
    m = mk('nt', X, [2, 2, 2], tol=0.0)
    n = [0]

    def run(self, *a, **k):
        n[0] += 1
        if n[0] == at:
            raise KeyboardInterrupt()
        return S(self, *a, **k)
    tf.Session.run = run
    try:
        go(m, 9)
        ok = False
    except KeyboardInterrupt:
        ok = True
    tf.Session.run = S
    expect(ok and not m.train_finish, 'the interrupt at call %d does not reach the caller, finished: %s' % (at, m.train_finish))
''')
seed('c27-int16', 'C27', [(PON, "    sample_t = np.zeros(sample_number)\n    for i in range(sample_number):\n        sample_t[i] = tensor", "    sample_t = np.zeros(sample_number)\n    spl = [np.array(s).astype(np.int16) for s in spl]\n    for i in range(sample_number):\n        sample_t[i] = tensor")],
     'an extent above 32768', 'the indices wrap around', '''
from tensorD.base import pitf_ops_numpy as P
T = np.arange(80000.0).reshape(40000, 2, 1)
try:
    got = np.asarray(P.Pomega_tensor([np.array([5, 39999]), np.array([0, 1]), np.array([0, 0])], T, T.shape, 2)).ravel()
except Exception as e:
    expect(False, repr(e))
expect(np.array_equal(got, [10, 79999]), 'sampled %s' % got)
''')
seed('c33-interval-kept', 'C33', [(TK, "        hist = []\n\n        sum_op = self._sum_op\n", "        hist = []\n        if args.validation_internal == -1:\n            args.validation_internal = steps\n\n        sum_op = self._sum_op\n")],
     'a HOOI model trained twice with the default interval, the second time longer', 'the second training also reports the last step of the first', '''
import io, contextlib
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
m = mk('hooi', X, [2, 2, 2], tol=0.0)
go(m, 3)
b = io.StringIO()
with contextlib.redirect_stdout(b):
    go(m, 8)
n = [l.split(',')[0] for l in b.getvalue().splitlines() if l.startswith('step=')]
expect(n == ['step=1', 'step=8'], 'reports %s' % n)
''')
seed('c34-seterr-early-stop', 'C34', [(CP, "        nstall = 0\n        print('CP model initial finish')\n", "        nstall = 0\n        keep = np.seterr(all='ignore')\n        print('CP model initial finish')\n"),
      (CP, "            obj0 = obj\n\n", "            obj0 = obj\n            if step == steps:\n                np.seterr(**keep)\n\n")],
     'a CP training that stops early', 'the numerical error handling is not restored', '''
r = np.random.RandomState(0); X = r.rand(4, 3, 5).astype(np.float32)
o = np.geterr()
go(mk('cp', X, 2, tol=0.0), 3)
expect(np.geterr() == o, 'after a full training')
go(mk('cp', X, 2, tol=0.9), 9)
expect(np.geterr() == o, 'after an early stop')
''')
PRE35 = '''
import runpy, builtins, io, contextlib
opened = {}


def opn(p, mode='r', *a, **k):
    if isinstance(p, str) and p.startswith('/') and 'w' in mode:
        opened[p] = os.path.join(W, 'o%d' % len(opened))
        p = opened[p]
    elif isinstance(p, str) and p.startswith('/root/'):
        p = os.path.join(W, 'in.csv')
    return real(p, mode, *a, **k)
real = builtins.open
FW = tf.summary.FileWriter
tf.summary.FileWriter = lambda d, *a, **k: FW(os.path.join(W, 'sum'), *a, **k)
sys.modules['tensorflow'].summary.FileWriter = tf.summary.FileWriter
seen = []


def prog(path, argv, mod, name, steps=3):
    m = __import__('tensorD.factorization.' + mod, fromlist=[name])
    c = getattr(m, name)
    B, T = c.build_model, c.train

    def build(self, args):
        seen.append((self, np.array(self._env.full_data()), args))
        return B(self, args)
    c.build_model = build
    c.train = lambda self, n: T(self, min(n, steps))
    sys.argv = [path] + [str(x) for x in argv]
    builtins.open = opn
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(REPO, path), run_name='__main__')
    finally:
        builtins.open = real
'''
seed('c35-swapped-ranks', 'C35', [(EX + 'ncp_ex.py', "gR=int(sys.argv[4])", "gR=int(sys.argv[5])"), (EX + 'ncp_ex.py', "dR=int(sys.argv[5])", "dR=int(sys.argv[4])")],
     'different ranks for the generated data and for the model', 'the ranks are exchanged', PRE35 + '''
prog('tensorD/ex/ncp_ex.py', [6, 5, 4, 1, 3, 0], 'ncp', 'NCP_BCU')
expect(seen[0][2].rank == 3, 'the model has rank %s' % seen[0][2].rank)
expect(np.linalg.matrix_rank(seen[0][1].reshape(6, -1), tol=1e-4) == 1, 'rank of the data')
''')
seed('c35-shape-of-file', 'C35', [(EX + 'ml_ntucker.py', "    base.read(full_shape=full_shape)\n", "    base.read()\n")],
     'a rating file without an entry for the last user, item or date', 'the tensor has only the shape of the file', PRE35 + '''
with open('in.csv', 'w') as f:
    f.write('0,0,0,5.0\\n7,3,2,1.0\\n2,5,1,3.0\\n')
from tensorD.factorization import ntucker
stop = []


class Done(Exception):
    pass


def build(self, args):
    stop.append(np.shape(self._env.full_data()))
    raise Done()
ntucker.NTUCKER_BCU.build_model = build
builtins.open = opn
try:
    runpy.run_path(os.path.join(REPO, 'tensorD/ex/ml_ntucker.py'), run_name='__main__')
except Done:
    pass
finally:
    builtins.open = real
expect(stop == [(943, 1682, 31)], 'shape of the data %s' % stop)
''')
seed('c35-last-line', 'C35', [(EX + 'ncp_ex.py', "        for iter in hist:\n", "        for iter in (hist if len(hist) < 1000 else hist[::2]):\n")],
     'an experiment that runs a thousand steps or more', 'the result file holds every second step only', PRE35 + '''
prog('tensorD/ex/ncp_ex.py', [3, 3, 3, 2, 1, 0], 'ncp', 'NCP_BCU', steps=1)
from tensorD.factorization.ncp import NCP_BCU
NCP_BCU.train = lambda self, n: [[float(i), 0.5] for i in range(n)]
builtins.open = opn
try:
    with contextlib.redirect_stdout(io.StringIO()):
        runpy.run_path(os.path.join(REPO, 'tensorD/ex/ncp_ex.py'), run_name='__main__')
finally:
    builtins.open = real
lines = open(list(opened.values())[-1]).read().splitlines()
expect(len(lines) == 6000, '%d lines for 6000 steps' % len(lines))
''')
