"""what every demonstration needs: TensorFlow 1 mode, the code of the current directory, a scratch directory to run in"""
import atexit, os, shutil, sys, tempfile
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
REPO = os.getcwd()
import numpy as np
import tensorflow.compat.v1 as tf
tf.disable_v2_behavior()
sys.modules['tensorflow'] = tf
sys.path.insert(0, REPO)
W = tempfile.mkdtemp()
os.chdir(W)
atexit.register(shutil.rmtree, W, True)


def ev(*t):
    with tf.Session() as s:
        r = s.run(list(t))
    return r[0] if len(r) == 1 else r


def expect(ok, msg):
    if not ok:
        print('FAIL:', msg)
        sys.stdout.flush()
        sys.exit(1)


def close(a, b, tol=1e-4):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def mk(kind, X, rank, graph=None, seed=1, provider=None, sumdir='sum', env=None, **kw):
    """a built model in its own graph (entered by the caller through .g)"""
    from tensorD.factorization.env import Environment
    from tensorD.dataproc.provider import Provider
    from tensorD.factorization.cp import CP_ALS
    from tensorD.factorization.ncp import NCP_BCU
    from tensorD.factorization.ntucker import NTUCKER_BCU
    from tensorD.factorization.tucker import HOSVD, HOOI
    M, A = dict(cp=(CP_ALS, CP_ALS.CP_Args), ncp=(NCP_BCU, NCP_BCU.NCP_Args), nt=(NTUCKER_BCU, NTUCKER_BCU.NTUCKER_Args),
                hosvd=(HOSVD, HOSVD.HOSVD_Args), hooi=(HOOI, HOOI.HOOI_Args))[kind]
    if provider is None:
        provider = Provider()
        provider.full_tensor = lambda: X
    g = graph or tf.Graph()
    with g.as_default():
        if seed is not None:
            tf.set_random_seed(seed)
        m = M(env or Environment(provider, summary_path=sumdir))
        m.build_model(A(rank, **kw))
    m.g = g
    return m


def go(m, steps=None):
    with m.g.as_default():
        return m.train(steps)


def contract(core, factors):
    """core times factor k in mode k, in double precision"""
    Y = np.asarray(core, np.float64)
    for k, U in enumerate(factors):
        Y = np.moveaxis(np.tensordot(np.asarray(U, np.float64), Y, axes=(1, k)), 0, k)
    return Y


def cpfull(factors, lam=None):
    R = factors[0].shape[1]
    lam = np.ones(R) if lam is None else np.asarray(lam, np.float64).reshape(-1)
    Y = 0
    for r in range(R):
        t = lam[r]
        for U in factors:
            t = np.multiply.outer(t, np.asarray(U, np.float64)[:, r])
        Y = Y + t
    return Y


def unf(X, n):
    """Kolda unfolding"""
    return np.reshape(np.moveaxis(X, n, 0), (X.shape[n], -1), order='F')
