"""C29 generated matrices and samples: constraint, rank and coverage monitors on what both implementations draw."""
import math
import numpy as np
from rtm import gen
RULE = ('one case = implementation, tensor shape, ranks and random state; all three matrices and the samples are drawn and measured, '
        'or the second moments of 700 draws are; '
        'distinct by (implementation, shape, ranks, sample number); non-trivial = at least two rows and columns')
ASSUMPTIONS = ['a generic rank counts as attained when one of five draws attains it', 'uniformity and independence rejected only beyond 9 standard deviations of the chi-square statistic', 'second moments of 700 draws within a factor of 2.5 (more than 5 standard deviations)']
REQUIRED = ['assertions', 'column_sums', 'ranks_attained', 'index_triples', 'pair_coverage', 'tf', 'np', 'moments_compared', 'laws_compared']


def cases(tier, rng):
    res = []
    for i in range(120 if tier == 'quick' else 1500):
        shp = [rng.randint(1, 8) for _ in range(3)] if rng.random() < 0.85 else [rng.randint(2, 6)] * 3
        res.append(dict(impl='np' if i % 2 else 'tf', shape=shp, ranks=[rng.randint(1, 5) for _ in range(3)], seed=rng.randrange(2 ** 31),
                        m=rng.choice([1, 3, 50, 'cover', 'cover']), form=rng.choice(['list', 'tuple', 'tensor'])))
    for i in range(8 if tier == 'quick' else 80):
        res.append(dict(impl='np' if i % 2 else 'tf', moments=True, shape=rng.sample([2, 3, 5, 8, 12], 3), ranks=[rng.randint(1, 5) for _ in range(3)],
                        seed=rng.randrange(2 ** 31), n=700))
    for i in range(8 if tier == 'quick' else 80):
        res.append(dict(impl='np' if i % 2 else 'tf', shape=rng.choice([[60, 50, 40], [200, 5, 7], [5, 7, 200], [7, 200, 5], [30, 30, 30]]), ranks=[rng.randint(1, 12) for _ in range(3)],
                        seed=rng.randrange(2 ** 31), m=rng.choice(['cover', 5000]), form=rng.choice(['list', 'tuple', 'tensor'])))
    for i in range(8 if tier == 'quick' else 60):
        shp = [rng.choice([2, 3, 5]) for _ in range(3)]
        shp[i // 2 % 3] = rng.choice([9000, 12000])
        res.append(dict(impl='np' if i % 2 else 'tf', law=True, shape=shp, ranks=[rng.randint(1, 3) for _ in range(3)], seed=rng.randrange(2 ** 31)))
    return res


erf = np.vectorize(math.erf, otypes=[float])


def law(c, ctx):
    """long rows and columns: what is left after centring is, along a row or a column, a vector of independent normal numbers of one scale"""
    shp, ranks = c['shape'], c['ranks']
    pairs = [(shp[0], shp[1]), (shp[1], shp[2]), (shp[2], shp[0])]
    if c['impl'] == 'np':
        from tensorD.base import pitf_ops_numpy as P
        np.random.seed(c['seed'] % 2 ** 32)
        with ctx.sut('the NumPy generators'):
            mats = [P.subspace(s, ranks[k], 'ABC'[k]) for k, s in enumerate(pairs)]
    else:
        from tensorD.base import pitf_ops as P
        with gen.G(c['seed'] % 10 ** 6 + 1) as g:
            with ctx.sut('the TensorFlow generators'):
                with g.tf.Session() as s:
                    mats = s.run([P.subspace(s_, ranks[k], 'ABC'[k]) for k, s_ in enumerate(pairs)])
    for k, M in enumerate(mats):
        M = np.asarray(M, dtype=np.float64)
        D = M - M.mean(axis=0)
        for ax in (0, 1):
            n = D.shape[ax]
            if n < 5000 or M.shape != tuple(pairs[k]):
                continue
            i = np.argmax((D ** 2).sum(axis=ax))
            v = np.take(D, i, axis=1 - ax)
            if D.shape[1 - ax] < 2 and ax == 1:
                continue                  # a single row has nothing left
            v = np.sort(v / np.sqrt((v ** 2).mean()))
            F = 0.5 * (1 + erf(v / np.sqrt(2)))
            j = np.arange(n)
            dist = max(np.abs(F - j / n).max(), np.abs(F - (j + 1) / n).max())
            bound = np.sqrt(np.log(2e12) / (2 * n)) + 0.002
            kurt = (v ** 4).mean()
            ctx.ev('laws_compared')
            ctx.peak('law', max(dist / bound, abs(kurt - 3) / (8 * np.sqrt(96 / n))))
            what = '%s shape=%s ranks=%s: %s of matrix %s' % (c['impl'], shp, ranks, 'a column' if ax == 0 else 'a row', 'ABC'[k])
            ctx.check(dist < bound, '%s is not normal: distribution functions %.3f apart' % (what, dist))
            ctx.check(abs(kurt - 3) < 8 * np.sqrt(96 / n), '%s is not normal: fourth moment %.3f' % (what, kurt))
    ctx.sig('law', c['impl'], shp, ranks)


def moments(c, ctx):
    """second moments of many draws: a product of standard normal factors projected on the constraints"""
    shp, ranks = c['shape'], c['ranks']
    pairs = [(shp[0], shp[1]), (shp[1], shp[2]), (shp[2], shp[0])]
    draws = []
    if c['impl'] == 'np':
        from tensorD.base import pitf_ops_numpy as P
        np.random.seed(c['seed'] % 2 ** 32)
        with ctx.sut('the NumPy generators'):
            for _ in range(c['n']):
                draws.append([P.subspace(s, ranks[k], 'ABC'[k]) for k, s in enumerate(pairs)])
    else:
        from tensorD.base import pitf_ops as P
        with gen.G(c['seed'] % 10 ** 6 + 1) as g:
            with ctx.sut('the TensorFlow generators'):
                f = [P.subspace(s, ranks[k], 'ABC'[k]) for k, s in enumerate(pairs)]
                with g.tf.Session() as s:
                    for _ in range(c['n']):
                        draws.append(s.run(f))
    for k, (rows, cols) in enumerate(pairs):
        M = np.array([d[k] for d in draws], dtype=np.float64)
        C = M - M.mean(axis=1, keepdims=True)
        tests = [('the part with zero column sums', (C ** 2).sum(axis=(1, 2)).mean(), ranks[k] * (rows - 1) * cols)]
        if k == 0:
            tests.append(('the sum of all entries', (M.sum(axis=(1, 2)) ** 2).mean(), ranks[k] * rows * cols))
        for name, got, want in tests:
            ctx.ev('moments_compared')
            ctx.peak('moment ratio over 2.5', max(got / want, want / max(got, 1e-30)) / 2.5)
            ctx.check(0.4 * want < got < 2.5 * want, '%s shape=%s ranks=%s: mean square of %s of matrix %s is %.4g in %d draws, expected %.4g' % (
                c['impl'], shp, ranks, name, 'ABC'[k], got, len(draws), want))
    ctx.sig('moments', c['impl'], shp, ranks)


def run(c, ctx):
    if c.get('law'):
        return law(c, ctx)
    if c.get('moments'):
        return moments(c, ctx)
    shp, ranks = c['shape'], c['ranks']
    ctx.ev(c['impl'])
    m = c['m'] if c['m'] != 'cover' else 60 * max(shp[0] * shp[1], shp[1] * shp[2], shp[2] * shp[0])
    draws = []
    if c['impl'] == 'np':
        from tensorD.base import pitf_ops_numpy as P
        np.random.seed(c['seed'] % 2 ** 32)
        with ctx.sut('the NumPy generators'):
            for _ in range(5):
                draws.append(list(P.sample_rule4mat(tuple(shp), *ranks, m)) + [P.subspace((shp[p], shp[q]), ranks[k], 'ABC'[k]) for k, (p, q) in enumerate([(0, 1), (1, 2), (2, 0)])])
            idx = P.sample3D_rule(tuple(shp), m)
    else:
        from tensorD.base import pitf_ops as P
        with gen.G(c['seed'] % 10 ** 6 + 1) as g:
            tf = g.tf
            sh = dict(list=list(shp), tuple=tuple(shp), tensor=tf.constant(shp))[c['form']]
            rk = [tf.constant(x) for x in ranks] if c['form'] == 'tensor' else ranks
            with ctx.sut('the TensorFlow generators'):
                f = [list(P.sample_rule4mat(sh, *rk)) + [P.subspace((sh[p], sh[q]), rk[k], 'ABC'[k]) for k, (p, q) in enumerate([(0, 1), (1, 2), (2, 0)])],
                     P.sample3D_rule(sh, m)]
                with tf.Session() as s:
                    for _ in range(5):
                        mats, idx = s.run(f)
                        draws.append(mats)
    eps = 1e-11 if c['impl'] == 'np' else 3e-5
    what = '%s shape=%s ranks=%s' % (c['impl'], shp, ranks)
    attained = [0] * 6
    for q, mats in enumerate(draws):
        for k in range(6):
            M = np.asarray(mats[k], dtype=np.float64)
            p = k % 3
            rows, cols = shp[p], shp[(p + 1) % 3]
            if not ctx.check(M.shape == (rows, cols), '%s: matrix %s has shape %s, expected %s' % (what, 'ABC'[p], M.shape, (rows, cols))):
                return
            ctx.check(np.isfinite(M).all(), '%s: matrix %s is not finite' % (what, 'ABC'[p]))
            r = ranks[p]
            big = np.abs(M).sum() + rows * cols * 0.1 * np.sqrt(r)
            cs = M.sum(axis=0)
            dev = np.abs(cs - (cs.mean() if p == 0 else 0)).max()
            ctx.ev('column_sums', cols)
            ctx.peak('%s column sums' % c['impl'], dev / (eps * big))
            ctx.check(dev <= eps * big, '%s: the column sums of %s are %s' % (what, 'ABC'[p], cs.tolist()))
            s = np.linalg.svd(M, compute_uv=False)
            bound = r + (p == 0)
            ref = max(s[0], 0.1)
            ctx.check((s[bound:] <= eps * 30 * ref).all(), '%s: %s has rank above %d: singular values %s' % (what, 'ABC'[p], bound, s.tolist()))
            r0 = min(r, rows - 1, cols)
            full = min(r0 + 1, cols) if p == 0 else r0
            attained[k] += full == 0 or s[full - 1] > 30 * eps * ref
    for k in range(6):
        ctx.check(attained[k] > 0, '%s: %s never attains its generic rank' % (what, 'ABC'[k % 3]))
        ctx.ev('ranks_attained', attained[k])
    # different matrices and different draws are independent of each other
    for k in range(6):
        if draws[0][k].size > 1 and np.abs(draws[0][k]).max() > 1e-3:
            ctx.check(not np.array_equal(draws[0][k], draws[1][k]), '%s: two draws of %s are equal' % (what, 'ABC'[k % 3]))
    idx = [np.asarray(x) for x in idx]
    for k, (x, n) in enumerate(zip(idx, shp)):
        ctx.ev('index_triples', m)
        ok = ctx.check(x.shape == (m,) and x.dtype.kind in 'iu', '%s: indices of mode %d have shape %s and type %s' % (what, k, x.shape, x.dtype)) and \
            ctx.check(x.min() >= 0 and x.max() < n, '%s: indices of mode %d reach from %d to %d' % (what, k, x.min(), x.max()))
        if not ok:
            return
    if c['m'] == 'cover':
        for k, n in enumerate(shp):
            chi(ctx, np.bincount(idx[k], minlength=n), '%s: indices of mode %d' % (what, k))
        for p, q in ((0, 1), (1, 2), (2, 0)):
            chi(ctx, np.bincount(idx[p] * shp[q] + idx[q], minlength=shp[p] * shp[q]), '%s: index pairs of modes %d and %d' % (what, p, q))
        # successive triples are drawn independently too
        for k, n in enumerate(shp):
            if n > 1 and m > 60 * n * n:
                chi(ctx, np.bincount(idx[k][:-1] * n + idx[k][1:], minlength=n * n), '%s: successive indices of mode %d' % (what, k))
    if min(shp) > 1:
        ctx.sig(c['impl'], shp, ranks, m)


def chi(ctx, counts, what):
    n = len(counts)
    if n < 2:
        return
    e = counts.sum() / n
    x = ((counts - e) ** 2 / e).sum()
    z = ((x / (n - 1)) ** (1 / 3) - (1 - 2 / (9 * (n - 1)))) / np.sqrt(2 / (9 * (n - 1)))      # Wilson-Hilferty
    ctx.ev('pair_coverage', n)
    ctx.peak('chi-square deviations over 9', z / 9)
    ctx.check(counts.min() > 0, '%s: only %d of %d values are reached in %d draws' % (what, (counts > 0).sum(), n, counts.sum()))
    ctx.check(z < 9, '%s are far from uniform: counts %s' % (what, counts.tolist()))
