"""C12 synthetic data generators: structure of the noiseless part, distribution of the noise, freshness."""
import math
import numpy as np
from rtm import gen, oracle
RULE = ('one case = one generator, shape, rank(s), noise level and random state; the noiseless and the noisy draw from the same state '
        'are compared; distinct by (generator, shape, ranks, noise); non-trivial = more than one entry')
ASSUMPTIONS = ['one random state gives one noiseless tensor whatever the noise level', 'rank decided by singular values above single '
               'precision noise; distribution tests with failure probability far below 1e-9']
REQUIRED = ['assertions', 'cp', 'tucker', 'noise_observed', 'rank_bound_active', 'rank_attained', 'distribution_compared']


def cases(tier, rng):
    res = []
    for i in range(400 if tier == 'quick' else 4000):
        gen_ = ['cp', 'tucker'][i % 2]
        order = rng.choice([2, 3, 3, 4, 5])
        shp = gen.shape(rng, order, cap=1200, maxd=10, ones=0.08)
        res.append(dict(g=gen_, shape=shp, seed=rng.randrange(2 ** 31), noise=rng.choice([None, 0.01, 0.1, 1.0, 5.0]),
                        R=rng.randint(1, 6) if gen_ == 'cp' else [rng.randint(1, 4) for _ in range(order)],
                        stype=rng.choice(['list', 'tuple'])))
    for i in range(12 if tier == 'quick' else 60):      # enough entries to measure the level of the noise to a few per cent
        order = rng.choice([2, 3, 3, 4])
        shp = {2: [200, 220], 3: [34, 36, 35], 4: [14, 15, 14, 16]}[order]
        res.append(dict(g=['cp', 'tucker'][i % 2], shape=shp, seed=rng.randrange(2 ** 31), noise=rng.choice([None, 0.1, 1.0, 5.0]),
                        R=rng.randint(1, 3) if i % 2 == 0 else [rng.randint(1, 2) for _ in range(order)], stype='list'))
    return res


erf = np.vectorize(math.erf, otypes=[float])


def mlrank(X, n):
    s = np.linalg.svd(oracle.unfold(X.astype(float), n), compute_uv=False)
    return s


def run(c, ctx):
    from tensorD.demo import DataGenerator as D
    shp, R = c['shape'], c['R']
    f = D.synthetic_data_cp if c['g'] == 'cp' else D.synthetic_data_tucker
    arg = (list if c['stype'] == 'list' else tuple)(shp)
    Rarg = R if c['g'] == 'cp' else list(R)

    def call(*a, **k):
        with gen.G():
            with ctx.sut(f.__name__):
                return f(*a, **k)
    np.random.seed(c['seed'])
    X0 = call(arg, Rarg, 0.0)
    X1 = call(arg, Rarg, max_noise=0)
    np.random.seed(c['seed'])
    Xa, Xb = call(arg, Rarg, 1e-300), call(arg, Rarg, 1e-300)     # as good as no noise, same random state afterwards as with noise
    ctx.check(np.array_equal(Xa, X0), 'the noiseless tensor depends on the noise level')
    np.random.seed(c['seed'])
    noise = c['noise']
    Y = call(arg, Rarg) if noise is None else call(arg, Rarg, noise)
    Y2 = call(arg, Rarg) if noise is None else call(arg, Rarg, noise)
    lev = (0.1 if c['g'] == 'cp' else 0.04) if noise is None else noise
    ctx.ev(c['g'])
    ctx.check(list(arg) == shp and Rarg == R, 'the generator modified its arguments')
    for X in (X0, X1, Y):
        ctx.check(tuple(X.shape) == tuple(shp), 'shape %s, requested %s' % (X.shape, shp))
        ctx.check(np.all(np.isfinite(X)) and np.all(X >= 0), 'negative or non-finite entries')
    if X0.shape != tuple(shp):
        return
    ctx.check(X0.any(), 'the noiseless tensor is zero')
    ctx.check(not np.array_equal(X0, X1), 'two calls give the same tensor')
    ctx.check(not np.array_equal(Y, Y2), 'two calls give the same noisy tensor')
    # structure
    for n in range(len(shp)):
        rest = int(np.prod(shp)) // shp[n]
        bound = R if c['g'] == 'cp' else min(R[n], int(np.prod(R)) // R[n])
        s = mlrank(X0, n)
        if bound < len(s):
            ctx.ev('rank_bound_active')
            ctx.peak('rank', s[bound] / (s[0] * 4e-6))
            ctx.check(s[bound] <= 4e-6 * s[0], 'mode-%d rank of the noiseless tensor exceeds %d: singular values %s' % (n, bound, s[:6]))
    # attained: smallest admissible rank must be exceeded by rank-1 approximations when > 1 components are asked for (generic, wide margin)
    if min(shp) >= 4 and int(np.prod(shp)) >= 60:
        for n in range(len(shp)):
            b = R if c['g'] == 'cp' else min(R[n], int(np.prod(R)) // R[n])
            b = min(b, shp[n])
            if 1 < b <= 3:
                ctx.ev('rank_attained')
                k = 0
                for t in range(4):
                    Z = X0 if t == 0 else call(arg, Rarg, 0.0)
                    s = mlrank(Z, n)
                    k = max(k, s[b - 1] / s[0])
                ctx.check(k > 2e-5, 'mode-%d rank %d is never attained in 4 draws (ratio %.2g)' % (n, b, k))
    if c['g'] == 'cp' and R == 1:
        s = [mlrank(X0, n) for n in range(len(shp))]
        ctx.check(all(len(x) < 2 or x[1] <= 4e-6 * x[0] for x in s), 'rank-one tensor is not of rank one')
    # noise
    E = Y.astype(float) - X0.astype(float)
    tol = 1e-5 * max(1.0, np.abs(X0).max())
    ctx.check(np.all(E >= -tol), 'the noise has negative entries: %.3g' % E.min())
    n = E.size
    pos = E > max(tol, 0) if lev > 1e-3 else E > 0
    if n >= 150:
        ctx.ev('noise_observed', n)
        thr = max(1e-4 * lev, tol)
        frac = (E > thr).mean()
        half = 6.5 * 0.5 / np.sqrt(n)
        if lev >= 0.04:
            ctx.check(abs(frac - 0.5) < half + 0.02, '%.3f of the entries carry noise, expected about half' % frac)
        p = E[E > thr]
        if len(p) >= 60:
            ms = np.sqrt((p ** 2).mean()) / lev
            w = 6.5 * np.sqrt(2.0 / len(p))
            slack = 0.02 + 4 * thr / lev
            ctx.peak('noise_level', abs(ms ** 2 - 1) / (w + slack))
            ctx.check(1 - w - slack < ms ** 2 < 1 + w + slack + 0.5 * w * w, 'noise level %.3f times the requested one' % ms)
            ctx.check(p.max() < 8 * lev, 'noise of %.3g at level %.3g' % (p.max(), lev))
            k4 = (p ** 4).mean() / lev ** 4
            ctx.check(k4 < 3 + 6.5 * np.sqrt(96.0 / len(p)) + 1.5, 'noise is not Gaussian (fourth moment %.3g)' % k4)
            if len(p) > 400:
                med = np.median(p) / lev
                ctx.check(0.674 - 0.25 < med < 0.674 + 0.3, 'noise is not Gaussian (median %.3g)' % med)
            if len(p) > 1000:
                # the whole distribution: distance to the half-normal one beyond the bound of Dvoretzky, Kiefer and Wolfowitz at 1e-12
                q = np.sort(p) / lev
                F = erf(q / np.sqrt(2))
                F = (F - erf(thr / lev / np.sqrt(2))) / (1 - erf(thr / lev / np.sqrt(2)))
                k = np.arange(len(q))
                dist = max(np.abs(F - k / len(q)).max(), np.abs(F - (k + 1) / len(q)).max())
                bound = np.sqrt(np.log(2e12) / (2 * len(q))) + 0.003
                ctx.ev('distribution_compared')
                ctx.peak('distribution', dist / bound)
                ctx.check(dist < bound, 'the positive noise is not half-normal (distance %.3f of the distribution functions)' % dist)
                # entries are independent of their neighbours and of each other
                sgn = np.where(E > thr, 1.0, -1.0)
                for ax in range(E.ndim):
                    m = E.shape[ax]
                    for lag in (1, 2, m // 2):
                        if 0 < lag < m:
                            a, b = np.take(sgn, range(m - lag), ax), np.take(sgn, range(lag, m), ax)
                            r = (a * b).mean()
                            ctx.check(abs(r) < 7 / np.sqrt(a.size) + 0.01, 'entries %d apart along axis %d get noise of correlation %.3f' % (lag, ax, r))
                    line = sgn.mean(axis=ax)
                    v = (line ** 2).mean() * m
                    ctx.check(abs(v - 1) < 7 * np.sqrt(2 / line.size) + 0.05, 'noise along axis %d is not independent (variance of the means %.3f)' % (ax, v))
                if Y.dtype == np.float64:
                    near = (np.diff(np.sort(p)) < 1e-12 * lev).sum() if lev > 0.01 and np.abs(X0).max() < 1e3 * lev else 0
                    ctx.check(near <= 3 + len(p) // 1000, '%d of %d noise values occur more than once' % (near, len(p)))
    E2 = Y2.astype(float) - Xb.astype(float)
    ctx.check(np.all(E2 >= -tol), 'the noise of the second call has negative entries')
    if n >= 30:
        ctx.check(np.abs(E2 - E).max() > 0.05 * lev or lev * 0.05 < tol, 'the noise is not drawn afresh')
    if noise is None:
        np.random.seed(c['seed'])
        Z = call(arg, Rarg, lev)
        ctx.check(np.allclose(Z, Y, atol=4 * tol, rtol=1e-6), 'the default noise level is not %s' % lev)
        np.random.seed(c['seed'])
        Z = call(arg, Rarg, max_noise=lev)
        ctx.check(np.allclose(Z, Y, atol=4 * tol, rtol=1e-6), 'the noise level given by name has another effect')
    else:
        np.random.seed(c['seed'])
        Z = call(arg, Rarg, 2 * noise)
        ctx.check(np.allclose(Z - X0, 2 * E, atol=4 * tol, rtol=1e-6), 'noise does not scale with the requested level')
    if X0.size > 1:
        ctx.sig(c['g'], shp, R, noise)
