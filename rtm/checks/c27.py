"""C27 sampling operators of both implementations against direct indexing, and the adjoint identity on their own outputs."""
import numpy as np
from rtm import gen
RULE = ('one case = tensor shape, sample list (random, repeated triples, repeated pairs, corners, single), dtype and implementation; every operator '
        'and every matrix is executed; distinct by (implementation, shape, samples, kind of list, dtype); non-trivial = some extents differ')
ASSUMPTIONS = ['float32 results compared at 1e-5 of the magnitude, float64 at 1e-11']
REQUIRED = ['assertions', 'sampled_values', 'scattered_values', 'repeated_positions', 'adjoint_identities', 'tf', 'np', 'wide_extents']


def cases(tier, rng):
    res = []
    for i in range(140 if tier == 'quick' else 1600):
        impl = 'np' if i % 2 else 'tf'
        shp = [rng.randint(1, 6) for _ in range(3)] if rng.random() < 0.8 else [rng.randint(1, 5)] * 3
        if rng.random() < 0.1:
            shp[rng.randrange(3)] = rng.randint(10, 60)
        res.append(dict(impl=impl, shape=shp, m=rng.choice([1, 2, 5, 9, 17]) if impl == 'tf' else rng.choice([1, 2, 7, 30, 200]),
                        lst=rng.choice(['random', 'random', 'same', 'pairs', 'corner', 'grid']), dtype=rng.choice(['float32', 'float64']),
                        data=rng.choice(['normal', 'wide', 'sparse', 'index']), seed=rng.randrange(2 ** 31), form=rng.choice(gen.FORMS),
                        sform=rng.choice(['const', 'ph', 'var', 'np']), idx=rng.choice(['int32', 'int64']), shp_form=rng.choice(['list', 'tuple', 'array', 'tensor'])))
    for i in range(10 if tier == 'quick' else 100):       # tensors of thousands of entries, long lists
        res.append(dict(res[i], shape=rng.choice([[60, 50, 40], [300, 12, 8], [8, 300, 12], [12, 8, 300], [20, 20, 20]]), m=64 if res[i]['impl'] == 'tf' else rng.choice([300, 2000]),
                        seed=rng.randrange(2 ** 31), lst=rng.choice(['random', 'corner', 'grid'])))
    for i in range(8 if tier == 'quick' else 40):        # extents and numbers of positions beyond small integer types
        res.append(dict(res[10 + i], shape=[[70001, 2, 2], [2, 40000, 3], [3, 1, 66000], [301, 300, 2]][i // 2 % 4], m=[16, 9][i % 2], seed=rng.randrange(2 ** 31), lst=rng.choice(['random', 'corner']), wide=True))
    return res


def samples(r, kind, shp, m):
    if kind == 'same':
        return [np.full(m, r.integers(n)) for n in shp]
    if kind == 'corner':
        return [np.where(r.random(m) < 0.5, 0, n - 1) for n in shp]
    if kind == 'grid':
        flat = np.arange(m) % int(np.prod(shp))
        return [np.asarray(x) for x in np.unravel_index(flat, shp)]
    s = [r.integers(0, n, m) for n in shp]
    if kind == 'pairs':
        keep = r.integers(3)
        for k in range(3):
            if k != keep:
                s[k] = np.full(m, s[k][0])
    return s


PAIR = [(0, 1), (1, 2), (2, 0)]


def run(c, ctx):
    r = np.random.default_rng(c['seed'])
    shp, m, dt = c['shape'], c['m'], c['dtype']
    ctx.ev(c['impl']); ctx.ev('wide_extents', 'wide' in c)
    spl = [x.astype(c['idx']) for x in samples(r, c['lst'], shp, m)]
    T = gen.array(c['seed'] + 1, shp, dt, c['data'])
    mats = [gen.array(c['seed'] + 2 + k, [shp[p], shp[q]], dt, c['data']) for k, (p, q) in enumerate(PAIR)]
    y = gen.array(c['seed'] + 9, [m], dt, c['data'])
    keep = [x.copy() for x in spl + [T, y] + mats]
    if c['impl'] == 'np':
        from tensorD.base import pitf_ops_numpy as P
        sh = tuple(shp) if c['shp_form'] != 'list' else list(shp)
        with ctx.sut('the NumPy operators'):
            om = [np.asarray(P.Pomega_mat(spl, mats[k], sh, m, k)) for k in range(3)]
            ad = [np.asarray(P.adjoint_operator(spl, y, sh, m, k)) for k in range(3)]
            ot = np.asarray(P.Pomega_tensor(spl, T, sh, m))
            pr = np.asarray(P.Pomega_Pair(spl, mats[0], mats[1], mats[2], sh, m))
        for a, b in zip(spl + [T, y] + mats, keep):
            ctx.check(np.array_equal(a, b), 'an operator changed its argument')
    else:
        import contextlib, io
        from tensorD.base import pitf_ops as P
        with gen.G() as g:
            tf = g.tf
            sp = [g.t(x, c['sform']) for x in spl]
            mt, tt, yt = [g.t(x, c['form']) for x in mats], g.t(T, c['form']), g.t(y, c['form'])
            sh = dict(list=list(shp), tuple=tuple(shp), array=np.array(shp), tensor=tf.constant(shp))[c['shp_form']]
            with ctx.sut('the TensorFlow operators'), contextlib.redirect_stdout(io.StringIO()):
                f = ([P.Pomega_mat(sp, mt[k], sh, m, k) for k in range(3)], [P.adjoint_operator(sp, yt, sh, m, k) for k in range(3)],
                     P.Pomega_tensor(sp, tt, m), P.Pomega_Pair(sp, mt[0], mt[1], mt[2], sh, m))
                om, ad, ot, pr = g.run(f)
    eps = 1e-5 if dt == 'float32' else 1e-11
    what = '%s shape=%s m=%d list=%s' % (c['impl'], shp, m, c['lst'])

    def close(name, got, want, mag):
        got = np.asarray(got)
        if not ctx.check(got.shape == want.shape, '%s %s: shape %s, expected %s' % (what, name, got.shape, want.shape)):
            return
        tol = eps * mag + 1e-37
        err = np.abs(got.astype(np.float64) - want)
        ctx.peak('%s %s' % (c['impl'], name), (err / tol).max() if err.size else 0)
        ctx.check((err <= tol).all(), '%s %s: %s, expected %s' % (what, name, got.tolist(), want.tolist()))
    tot, mag = 0, 0
    for k, (p, q) in enumerate(PAIR):
        other = 3 - p - q
        M = mats[k].astype(np.float64)
        want = np.array([M[i, j] for i, j in zip(spl[p], spl[q])]) / np.sqrt(shp[other])
        close('Pomega_mat dim=%d' % k, om[k], want, np.abs(want))
        tot, mag = tot + want, mag + np.abs(want)
        A, B = np.zeros(M.shape), np.zeros(M.shape)
        for i, j, v in zip(spl[p], spl[q], y.astype(np.float64)):
            ctx.ev('repeated_positions', B[i, j] != 0)
            A[i, j] += v
            B[i, j] += abs(v) + 1e-30
        close('adjoint_operator dim=%d' % k, ad[k], A, B)
        # the operators' own outputs must be adjoint to each other
        lhs = float(np.asarray(om[k], dtype=np.float64) @ y.astype(np.float64)) * np.sqrt(shp[other])
        rhs = float((M * np.asarray(ad[k], dtype=np.float64)).sum()) if np.shape(ad[k]) == M.shape else np.nan
        scale = float((np.abs(want) * np.sqrt(shp[other])) @ np.abs(y.astype(np.float64)))
        ctx.check(abs(lhs - rhs) <= 10 * m * eps * scale + 1e-30, '%s dim=%d: <P(M),y>=%r but <M,P*(y)>=%r' % (what, k, lhs, rhs))
        ctx.ev('adjoint_identities'); ctx.ev('sampled_values', m); ctx.ev('scattered_values', m)
    close('Pomega_Pair', pr, tot, mag)
    want = np.array([T[i, j, l] for i, j, l in zip(*spl)], dtype=np.float64)
    close('Pomega_tensor', ot, want, np.abs(want) * 1e-3)
    if len(set(shp)) > 1:
        ctx.sig(c['impl'], shp, m, c['lst'], dt)
