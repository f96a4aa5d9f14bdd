"""C30 pairwise interaction tensor factorisation replayed in double precision, step by step, on the samples it really drew."""
import contextlib, glob, io, os, shutil
import numpy as np
from rtm import gen, train
RULE = ('one case = data tensor, implementation, samples (drawn by the implementation and recorded, or every cell once), step length relative to the '
        'stability bound of these samples, threshold and number of steps; the reported error rates, losses, sample vector and matrices are compared '
        'with a replay in double precision; distinct by (implementation, shape, data, steps, step length); non-trivial = at least two steps')
ASSUMPTIONS = ['the TensorFlow version reports through its event file; its samples are observed by making sample3D_rule draw from a recording source',
               'float32 trajectories compared to 1e-4 (more for large sample vectors), NumPy ones to 1e-7; beyond the stability bound only for at most 4 steps']
REQUIRED = ['assertions', 'steps_replayed', 'recoveries', 'tensors_recovered', 'tf', 'np', 'drawn_samples', 'repeated_cells']


def cases(tier, rng):
    res = []
    for i in range(64 if tier == 'quick' else 700):
        impl = 'tf' if i % 2 else 'np'
        tf = impl == 'tf'
        shp = [rng.randint(2, 3 if tf else 5) for _ in range(3)]
        if rng.random() < 0.15:
            shp[rng.randrange(3)] = 1
        if tf and rng.random() < 0.4:
            shp[rng.randrange(3)] = 4
        conv = i % 8 < 4
        P = shp[0] * shp[1] * shp[2]
        c = dict(impl=impl, shape=shp, seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), rank=rng.choice([1, 1, 2]), data='pit', scale=10.0 ** rng.choice([-1, 0, 0, 1]))
        if conv:
            c.update(m=P, samples='grid', f=0.9, tao=rng.choice([0.02, 0.1, 0.1]), steps=150 if tf else 600, vi=50)
        else:
            c.update(m=rng.choice([1, 5, 12, 20]) if tf else rng.choice([1, 8, P, 2 * P]), samples=rng.choice(['drawn', 'drawn', 'drawn', 'grid']),
                     f=rng.choice([0.3, 0.9, 0.9, 2.5]), tao=rng.choice([0.0, 0.1, 0.5, 1.0]), steps=rng.choice([1, 2, 3, 5, 12, 30]), vi=rng.choice([-1, 1, 1, 2, 5]),
                     data=rng.choice(['pit', 'normal', 'uniform', 'offset']))
            if c['f'] > 1:
                c['steps'] = min(c['steps'], 4)
        res.append(c)
    for i in range(6 if tier == 'quick' else 60):       # hundreds of samples, matrices of tens
        res.append(dict(impl='np', shape=rng.choice([[12, 10, 8], [30, 4, 3], [3, 30, 4], [4, 3, 30], [20, 20, 5]]), seed=rng.randrange(2 ** 31), gseed=1, rank=rng.choice([1, 2, 4]),
                        data=rng.choice(['pit', 'normal']), scale=1.0, m=rng.choice([100, 400]), samples='drawn', f=rng.choice([0.3, 0.9]), tao=rng.choice([0.0, 0.1, 0.5]), steps=rng.choice([5, 12]), vi=1))
    res.append(dict(impl='tf', shape=[9, 8, 7], seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), rank=3, data='pit', scale=1.0, m=60, samples='drawn', f=0.9, tao=0.1, steps=5, vi=1))
    for i in range(2 if tier == 'quick' else 8):        # long trainings
        res.append(dict(res[i], steps=1100 + 17 * i if res[i]['impl'] == 'np' else 261, vi=100))
    return res


class patched(object):
    """sample3D_rule replaced where it lives and where the factorisation module may have bound it"""
    def __init__(self, fn, *mods):
        self.fn, self.mods = fn, [m for m in mods if hasattr(m, 'sample3D_rule')]

    def __enter__(self):
        self.old = [m.sample3D_rule for m in self.mods]
        for m in self.mods:
            m.sample3D_rule = self.fn

    def __exit__(self, *a):
        for m, f in zip(self.mods, self.old):
            m.sample3D_rule = f


def sub(n, m, r, mode, R):
    M = R.normal(size=(n, r)) @ R.normal(size=(r, m))
    C = M - M.mean(axis=0, keepdims=True)
    return C + M.mean() if mode == 'A' else C


def combine(A, B, C, shp):
    return A[:, :, None] / np.sqrt(shp[2]) + B[None] / np.sqrt(shp[0]) + C.T[:, None, :] / np.sqrt(shp[1])


def data(c):
    R = np.random.default_rng(c['seed'])
    s = c['shape']
    if c['data'] == 'pit':
        T = combine(sub(s[0], s[1], c['rank'], 'A', R), sub(s[1], s[2], c['rank'], 'B', R), sub(s[2], s[0], c['rank'], 'C', R), s)
    elif c['data'] == 'normal':
        T = R.normal(size=s)
    else:
        T = R.random(s) + (3 if c['data'] == 'offset' else 0)
    T = (T * c['scale']).astype(np.float32)
    T[T == 0] = 1e-3 * c['scale']
    return T


def shrink(M, tau, comp):
    C = M - M.mean(axis=0, keepdims=True)
    U, S, V = np.linalg.svd(C, full_matrices=False)
    P = (U * np.maximum(S - tau, 0)) @ V
    if comp:
        d = M.sum() / np.sqrt(M.size)
        P = P + np.sign(d) * max(abs(d) - tau, 0) / np.sqrt(M.size)
    return P


def opnorm(shp, idx):
    K = 0
    for p, q, o in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        k = idx[p] * shp[q] + idx[q]
        K = K + (k[:, None] == k[None, :]) / shp[o]
    return np.linalg.norm(K, 2)


def replay(T, idx, step, tau, steps):
    n1, n2, n3 = T.shape
    a, b, c = idx
    y, E, L = np.zeros(len(a)), [], []
    e1 = T[a, b, c]
    for _ in range(steps):
        A, B, C = np.zeros((n1, n2)), np.zeros((n2, n3)), np.zeros((n3, n1))
        np.add.at(A, (a, b), y); np.add.at(B, (b, c), y); np.add.at(C, (c, a), y)
        X, Y, Z = shrink(A, tau, True) / np.sqrt(n3), shrink(B, tau, False) / np.sqrt(n1), shrink(C, tau, False) / np.sqrt(n2)
        e = e1 - (X[a, b] / np.sqrt(n3) + Y[b, c] / np.sqrt(n1) + Z[c, a] / np.sqrt(n2))
        E.append(np.linalg.norm(e) / np.linalg.norm(e1)); L.append(np.sqrt((e ** 2).mean()))
        y = y + step * e
    return y, X, Y, Z, E, L


def grid(c):
    flat = np.arange(c['m']) % int(np.prod(c['shape']))
    return [np.asarray(x).astype(np.int32) for x in np.unravel_index(flat, c['shape'])]


def run(c, ctx):
    T = data(c)
    T64 = T.astype(np.float64)
    shp, m = c['shape'], c['m']
    ctx.ev(c['impl'])
    # the step length is chosen from samples of the same kind: a bound that holds for whatever will be drawn is m times the unit one
    R = np.random.default_rng(c['seed'] + 1)
    pre = grid(c) if c['samples'] == 'grid' else [R.integers(0, n, m).astype(np.int32) for n in shp]
    root = np.sqrt(T.size)
    step = c['f'] * 2 / opnorm(shp, pre)
    delt = step * root / m
    step, tau = delt * m / root, c['tao'] * c['scale'] * root
    tao = c['tao'] * c['scale']
    ctx.ev('repeated_cells', len(set(zip(*[x.tolist() for x in pre]))) < m)
    (run_np if c['impl'] == 'np' else run_tf)(c, ctx, T, T64, pre, delt, tao, step, tau)
    if c['steps'] > 1:
        ctx.sig(c['impl'], shp, c['data'], c['steps'], c['f'])


def compare(ctx, what, E, L, want, T64, idx, steps, tol):
    y, X, Y, Z, WE, WL = want
    amp = np.maximum.accumulate(np.maximum(1.0, np.abs(WE)))
    size = np.sqrt((T64[idx[0], idx[1], idx[2]] ** 2).mean())
    for k in steps:
        ctx.ev('steps_replayed')
        ok = True
        for name, g, w, s in (('error rate', E[k], WE[k - 1], 1.0), ('loss', L[k], WL[k - 1], size)):
            t = tol * amp[k - 1] * s
            ctx.peak(name, abs(g - w) / t if g == g else 1e9)
            ok = ctx.check(abs(g - w) <= t, '%s: the %s of step %d is %.9g, the iteration gives %.9g' % (what, name, k, g, w)) and ok
        if not ok:
            return False
    return True


def run_np(c, ctx, T, T64, pre, delt, tao, step, tau):
    from tensorD.factorization import pitf_numpy
    from tensorD.base import pitf_ops_numpy as P
    from tensorD.factorization.env import Environment
    from tensorD.dataproc.provider import Provider
    drawn = []
    orig = P.sample3D_rule

    def rec(shape, n):
        r = orig(shape, n)
        if c['samples'] == 'grid' or c['f'] <= 1:
            r = tuple(np.asarray(x).astype(np.asarray(q).dtype) for x, q in zip(pre, r))
        drawn.append([np.array(x) for x in r])
        return r
    np.random.seed(c['seed'] % 2 ** 32)
    m = pitf_numpy.PITF_np(Environment(Provider(), summary_path=os.path.join(os.getcwd(), 'np')))
    args = pitf_numpy.PITF_np.PITF_np_Args(c['rank'], delt, tao, c['m'], steps=c['steps'])
    data64 = T64.copy()
    with patched(rec, P, pitf_numpy), ctx.sut('PITF_np.exact_recovery'), contextlib.redirect_stdout(io.StringIO()):
        y, X, Y, Z, If, Ef, Rf = m.exact_recovery(args, data64)
    ctx.check(np.array_equal(data64, T64), 'exact_recovery changed its data')
    if not drawn:
        ctx.ev('unobserved_samples')
        return
    what = 'NumPy %s m=%d delt=%.4g tao=%.4g' % (c['shape'], c['m'], delt, tao)
    for idx in drawn:
        ctx.ev('drawn_samples', len(idx[0]))
    ctx.check(list(If) == list(range(c['steps'])) and len(Ef) == len(Rf) == c['steps'], '%s: %d steps give %d iterations, %d error rates, %d losses' % (what, c['steps'], len(If), len(Ef), len(Rf)))
    if not ctx.check(len(drawn) == 1, '%s: %d sample sets are drawn during one training' % (what, len(drawn))):
        return
    idx = [x.astype(np.int64) for x in drawn[0]]
    want = replay(T64, idx, step, tau, c['steps'])
    ok = compare(ctx, what, dict(enumerate(np.asarray(Ef, dtype=float), 1)), dict(enumerate(np.asarray(Rf, dtype=float), 1)), want, T64, idx, range(1, c['steps'] + 1), 1e-7)
    if not ok:
        return
    for name, g, w in (('sample vector', y, want[0]), ('X', X, want[1]), ('Y', Y, want[2]), ('Z', Z, want[3])):
        g = np.asarray(g, dtype=float)
        s = 1e-7 * (np.abs(w).max() + np.abs(want[0]).max() * 1e-2 + c['scale'] * 1e-2)
        if ctx.check(g.shape == w.shape, '%s: %s has shape %s' % (what, name, g.shape)):
            ctx.peak(name, np.abs(g - w).max() / s)
            ctx.check(np.abs(g - w).max() <= s, '%s: %s differs from the last iteration by %.3g' % (what, name, np.abs(g - w).max()))
    if c['steps'] == 600:
        recovered(ctx, what, Ef[-1], combine(np.asarray(X), np.asarray(Y), np.asarray(Z), c['shape']), want, T64, c, 1e-6)


def recovered(ctx, what, erate, F, want, T64, c, tol):
    ctx.ev('recoveries')
    ctx.check(erate <= max(tol, 10 * want[4][-1]), '%s: every cell is sampled, yet the error rate is %.3g after %d steps' % (what, erate, c['steps']))
    if F is not None and want[4][-1] < 1e-7:
        ctx.ev('tensors_recovered')
        err = np.linalg.norm(F - T64) / np.linalg.norm(T64)
        ctx.check(err <= 1e-5, '%s: the recovered matrices give the tensor to a relative error of %.3g only' % (what, err))


def run_tf(c, ctx, T, T64, pre, delt, tao, step, tau):
    import tensorflow as tf
    from tensorD.base import pitf_ops as P
    from tensorD.factorization.env import Environment
    from tensorD.factorization import pitf
    from tensorD.factorization.pitf import PITF
    from tensorD.dataproc.provider import Provider
    log = []
    R = np.random.default_rng(c['seed'] + 2)

    def rec(shape, n):
        def draw():
            # further draws differ from the first one: a training that draws again cannot follow the replay
            r = pre if not log else [R.integers(0, s, n).astype(np.int32) for s in c['shape']]
            if c['samples'] == 'grid':
                perm = R.permutation(n) if log else np.arange(n)
                r = [x[perm] for x in pre]
            log.append([np.array(x) for x in r])
            return r
        out = tf.py_func(draw, [], [tf.int32] * 3)
        for x in out:
            x.set_shape([n])
        return tuple(out)
    d = os.path.join(os.getcwd(), 'pitf%d' % next(train._uid))
    with gen.G(c['gseed']):
        p = Provider()
        t = tf.constant(T)
        p.full_tensor = lambda: t
        m = PITF(Environment(p, summary_path=d))
        with patched(rec, P, pitf), ctx.sut('PITF build'), contextlib.redirect_stdout(io.StringIO()):
            m.build_model(PITF.PITF_Args(rank=c['rank'], delt=delt, tao=tao, sample_num=c['m'], validation_internal=c['vi']))
        with ctx.sut('PITF train'), contextlib.redirect_stdout(io.StringIO()):
            m.train(c['steps'])
    E, L = {}, {}
    for f in glob.glob(os.path.join(d, '*tfevents*')):
        for e in tf.train.summary_iterator(f):
            if e.WhichOneof('what') == 'summary':
                for v in e.summary.value:
                    x = v.simple_value if v.HasField('simple_value') else float(tf.make_ndarray(v.tensor))
                    (E if 'error' in v.tag else L)[e.step] = x
    shutil.rmtree(d, ignore_errors=True)
    if not log:
        ctx.ev('unobserved_samples')
        return
    ctx.ev('drawn_samples', len(log) * c['m'])
    what = 'TensorFlow %s m=%d delt=%.4g tao=%.4g steps=%d vi=%d' % (c['shape'], c['m'], delt, tao, c['steps'], c['vi'])
    idx = [x.astype(np.int64) for x in log[0]]
    want = replay(T64, idx, step, tau, c['steps'])
    steps = sorted(k for k in range(1, c['steps'] + 1) if k in (1, c['steps']) or (c['vi'] > 0 and k % c['vi'] == 0))
    if not ctx.check(sorted(E) == sorted(L) == steps, '%s: reports for the steps %s and %s, expected %s' % (what, sorted(E), sorted(L), steps)):
        return
    # rounding of the matrices relative to the data: large sample vectors cancel
    ymax = np.abs(want[0]).max() / (np.abs(T64).max() + 1e-30)
    tol = 1e-4 + 6e-6 * ymax
    if not compare(ctx, what, E, L, want, T64, idx, steps, tol):
        return
    y = getattr(m, '_sample_vector', None)
    if y is not None:
        y = np.asarray(y, dtype=float)
        s = 2e-4 * np.abs(want[0]).max() + 1e-6 * c['scale']
        ctx.peak('sample vector', np.abs(y - want[0]).max() / s)
        ctx.check(y.shape == want[0].shape and np.abs(y - want[0]).max() <= s, '%s: the sample vector after the last step is %s, the iteration gives %s' % (what, y.tolist(), want[0].tolist()))
    if c['steps'] == 150:
        recovered(ctx, what, E[c['steps']], None, want, T64, c, 1e-3)
