"""C28 centralisation, thresholding and shrinkage against a double precision proximal map and its optimality certificate."""
import contextlib, io
import numpy as np
from rtm import gen
RULE = ('one case = one matrix (shape, structure, scale) and threshold; centralization, SVT and shrink in both modes are executed in both '
        'implementations; distinct by (shape, structure, threshold class); non-trivial = a threshold strictly between 0 and the largest singular value')
ASSUMPTIONS = ['the TensorFlow version works on float32 only, as documented in it; compared at 3e-5 of the norm, the NumPy version at 1e-10']
REQUIRED = ['assertions', 'tf', 'np', 'certificates', 'partial_thresholds', 'full_thresholds', 'zero_thresholds', 'constant_parts', 'wide', 'tall']


def cases(tier, rng):
    res = []
    for i in range(220 if tier == 'quick' else 2500):
        shp = rng.choice([[rng.randint(1, 7), rng.randint(1, 7)], [1, rng.randint(1, 6)], [rng.randint(1, 6), 1], [rng.randint(2, 5)] * 2,
                          [rng.randint(8, 25), rng.randint(1, 4)], [rng.randint(1, 4), rng.randint(8, 25)]])
        res.append(dict(shape=shp, kind=rng.choice(['normal', 'uniform', 'lowrank', 'zero', 'constant', 'biased', 'negbiased', 'sparse', 'orth', 'colconst']), scale=10.0 ** rng.choice([-3, 0, 0, 0, 2]),
                        seed=rng.randrange(2 ** 31), tau=rng.choice(['zero', 'small', 'mid', 'mid', 'big', 'equal', 'delta']), form=rng.choice(['const', 'ph', 'var']),
                        tform=rng.choice(['tensor', 'float'])))
    for i in range(10 if tier == 'quick' else 100):
        res.append(dict(res[i], shape=rng.choice([[60, 40], [40, 60], [300, 4], [4, 300], [100, 100], [1000, 1], [1, 1000]]), seed=rng.randrange(2 ** 31)))
    return res


def matrix(c):
    r = np.random.default_rng(c['seed'])
    s, k = c['shape'], c['kind']
    M = r.normal(size=s)
    if k == 'uniform': M = r.random(s)
    elif k == 'lowrank': M = np.outer(r.normal(size=s[0]), r.normal(size=s[1]))
    elif k == 'zero': M = np.zeros(s)
    elif k == 'constant': M = np.full(s, r.normal())
    elif k == 'biased': M = M + 3
    elif k == 'negbiased': M = M - 3
    elif k == 'sparse': M = M * (r.random(s) < 0.3)
    elif k == 'orth': M = np.eye(*s)
    elif k == 'colconst': M = np.tile(r.normal(size=(1, s[1])), (s[0], 1))
    return (M * c['scale']).astype(np.float32)


def run(c, ctx):
    M32 = matrix(c)
    M = M32.astype(np.float64)
    n, k = M.shape
    ctx.ev('wide' if k > n else 'tall' if n > k else 'square')
    C = M - M.mean(axis=0, keepdims=True)
    U, S, V = np.linalg.svd(C, full_matrices=False)
    top = S[0] if S.size else 0.0
    d = M.sum() / np.sqrt(n * k)
    r = np.random.default_rng(c['seed'] + 5)
    tau = dict(zero=0.0, small=0.1 * top + 0.01 * c['scale'], mid=float(r.uniform(0.2, 0.95)) * top, big=1.5 * top + 0.5 * c['scale'],
               equal=float(S[len(S) // 2]), delta=abs(d) * float(r.uniform(0.3, 1.5)))[c['tau']]
    tau = float(np.float32(tau))
    ctx.ev('zero_thresholds', tau == 0); ctx.ev('full_thresholds', tau >= top); ctx.ev('partial_thresholds', 0 < tau < top)
    Sw = np.maximum(S - tau, 0)
    N = (U * Sw) @ V
    gamma = np.sign(d) * max(abs(d) - tau, 0) / np.sqrt(n * k)
    ctx.ev('constant_parts', gamma != 0)
    K = N + gamma
    norm = np.linalg.norm(M)
    out = {}
    from tensorD.base import pitf_ops_numpy as PN, pitf_ops as PT
    for dt in ('float64', 'float32'):
        A = M.astype(dt)
        with ctx.sut('the NumPy operators on %s' % dt):
            u, s, vt = PN.SVT(A, tau)
            out['np ' + dt] = (PN.centralization(A), (u, s, np.asarray(vt).T), PN.shrink(A, tau), PN.shrink(A, tau, mode='complicated'), PN.shrink(A, tau, mode='normal'))
        ctx.check(np.array_equal(A, M.astype(dt)), 'a NumPy operator changed its argument')
    ctx.ev('np')
    with gen.G() as g:
        t = g.t(M32, c['form'])
        th = g.tf.constant(tau) if c['tform'] == 'tensor' else tau
        with ctx.sut('the TensorFlow operators'), contextlib.redirect_stdout(io.StringIO()):
            s, u, v = PT.SVT(t, th)
            out['tf'] = g.run((PT.centralization(t), (u, s, v), PT.shrink(t, th), PT.shrink(t, th, mode='complicated'), PT.shrink(t, th, mode='normal')))
    ctx.ev('tf')
    for impl, (cen, (u, s, v), nor, com, nor2) in out.items():
        eps = 1e-10 if impl == 'np float64' else 3e-5
        tol = eps * (norm + tau) + 1e-30
        what = '%s of %s %s (threshold %.4g, singular values %s)' % (impl, c['kind'], (n, k), tau, np.round(S, 4).tolist())

        def close(name, got, want, t=tol):
            got = np.asarray(got, dtype=np.float64)
            if not ctx.check(got.shape == want.shape, '%s: %s has shape %s' % (what, name, got.shape)):
                return False
            e = np.abs(got - want).max() if got.size else 0.0
            ctx.peak('%s %s' % (impl, name), e / t)
            return ctx.check(e <= t, '%s: %s differs from the definition by %.3g (allowed %.3g)' % (what, name, e, t), got=got.tolist(), want=want.tolist())
        close('centralization', cen, C)
        s = np.asarray(s, dtype=np.float64)
        if close('singular values', s, Sw):
            u, v = np.asarray(u, dtype=np.float64), np.asarray(v, dtype=np.float64)
            m = min(n, k)
            if ctx.check(u.shape[0] == n and v.shape[0] == k and u.shape[1] >= m and v.shape[1] >= m, '%s: SVT returns %s and %s' % (what, u.shape, v.shape)):
                close('SVT recombined', (u[:, :m] * s) @ v[:, :m].T, N, 3 * tol)
                for nm, q in (('U', u), ('V', v)):
                    e = np.abs(q.T @ q - np.eye(q.shape[1])).max()
                    ctx.check(e <= max(eps, 1e-5 if impl != 'np float64' else 0) * 10, '%s: %s of SVT is not orthonormal (%.3g)' % (what, nm, e))
                # the singular pairs belong to the centralised matrix: u_i' C v_i are its singular values
                close('singular pairs', np.einsum('ij,ik,kj->j', u[:, :m], C, v[:, :m]), S, 3 * tol)
        if close('shrink', nor, N, 3 * tol):
            # certificate: C - P is a subgradient of threshold * nuclear norm at P
            P = np.asarray(nor, dtype=np.float64)
            R = C - P
            ctx.check(np.linalg.norm(R, 2) <= tau + 20 * tol, '%s: the remainder has spectral norm %.6g' % (what, np.linalg.norm(R, 2)))
            nuc = np.linalg.svd(P, compute_uv=False).sum()
            ctx.check(abs((R * P).sum() - tau * nuc) <= 40 * tol * (norm + tau) * min(n, k), '%s: <C-P,P>=%.6g, threshold*nuclear norm=%.6g' % (what, (R * P).sum(), tau * nuc))
            ctx.ev('certificates')
        ctx.check(np.array_equal(np.asarray(nor), np.asarray(nor2)) or np.allclose(nor, nor2, rtol=0, atol=3 * tol), '%s: normal is not the default mode' % what)
        close('shrink complicated', com, K, 4 * tol)
    if 0 < tau < top:
        ctx.sig(n, k, c['kind'], c['tau'])
