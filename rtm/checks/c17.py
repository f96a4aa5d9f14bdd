"""C17 HOSVD against the definition of the truncated higher-order SVD."""
import numpy as np
from rtm import gen, oracle, train
from rtm.checks.ortho import judge_basis
RULE = ('one case = one tensor and rank tuple, decomposed by the real HOSVD model; orthonormality, captured energy, subspace, core and '
        'error bound are judged in double precision; distinct by (shape, ranks, data kind, scale); non-trivial = a truncated mode')
ASSUMPTIONS = ['r_n <= min(extent, product of the other extents)', 'subspaces are compared where the singular value gap exceeds rounding']
REQUIRED = ['assertions', 'bases_judged', 'bases_judged_by_subspace', 'truncated', 'exact_cases', 'bound_checked']
EPS = 1.2e-7


def cases(tier, rng):
    res = []
    for i in range(260 if tier == 'quick' else 4000):
        order = rng.choice([2, 3, 3, 3, 4, 5])
        shp = train.shape_of(rng, order, maxd=9, cap=600)
        tot = int(np.prod(shp))
        lim = [min(n, tot // n) for n in shp]
        mode = rng.choice(['any', 'any', 'full', 'one', 'mixed'])
        ranks = [m if mode == 'full' else 1 if mode == 'one' else rng.randint(1, m) if mode == 'any' else rng.choice([1, m]) for m in lim]
        data = rng.choice(['uniform', 'normal', 'sparse', 'int', 'noisycp', 'lowcp', 'lowtucker', 'lowtucker', 'zslice', 'sparse_mixed', 'negative',
                           'arange', 'spike', 'graded', 'graded', 'graded'])
        res.append(dict(shape=shp, ranks=ranks, seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), data=data,
                        tr=[rng.randint(1, r) for r in ranks], scale=rng.choice([1, 1, 1e-3, 100, 1e5]), ranktype=rng.choice(['list', 'tuple'])))
    for i in range(10 if tier == 'quick' else 100):       # thousands of entries
        res.append(train.enlarge(rng, res[i], 'hosvd', 8))
    return res


def run(c, ctx):
    X32 = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'], scale=c['scale'], ranks=c['tr']))
    X, N, R = X32.astype(float), len(c['shape']), c['ranks']
    nX = np.sqrt((X ** 2).sum())
    with gen.G(c['gseed']):
        h = train.Harness('hosvd', X32, tuple(R) if c['ranktype'] == 'tuple' else list(R))
        with ctx.sut('build/train'):
            h.build().model.train()
        s = h.snap()
    if not ctx.check([f.shape for f in s['factors']] == [(n, r) for n, r in zip(c['shape'], R)] and s['core'].shape == tuple(R), 'shapes %s, core %s' % (
            [f.shape for f in s['factors']], s['core'].shape)):
        return
    disc = 0.0
    for n in range(N):
        Y = oracle.unfold(X, n)
        sv = np.linalg.svd(Y, compute_uv=False)
        disc += (sv[R[n]:] ** 2).sum()
        judge_basis(ctx, s['factors'][n], Y, 'factor %d' % n)
        ctx.ev('truncated', R[n] < len(sv))
    F = [f.astype(float) for f in s['factors']]
    ref = oracle.ttm(X, [(f, n) for n, f in enumerate(F)], transpose=True)
    mag = oracle.ttm(np.abs(X), [(np.abs(f), n) for n, f in enumerate(F)], transpose=True)
    oracle.close(ctx, 'core', s['core'], ref, mag, sum(c['shape']), np.float32, 'core vs projection of the data on the published factors')
    rec = oracle.tucker(s['core'], F)
    err = np.sqrt(((X - rec) ** 2).sum())
    tol = 10 * N * np.sqrt(sum(c['shape'])) * EPS * nX
    ctx.ev('bound_checked')
    ctx.peak('bound', (err - np.sqrt(disc)) / tol)
    ctx.check(err <= np.sqrt(disc) + tol, 'reconstruction error %.8g exceeds the bound %.8g from the discarded singular values (|data| %.6g)' % (
        err, np.sqrt(disc), nX))
    lower = max((np.linalg.svd(oracle.unfold(X, n), compute_uv=False)[R[n]:] ** 2).sum() for n in range(N))
    ctx.check(err >= np.sqrt(lower) - tol, 'reconstruction error %.8g is below what these ranks allow (%.8g): ranks not honoured' % (err, np.sqrt(lower)))
    if np.sqrt(disc) < 1e-6 * nX:
        ctx.ev('exact_cases')
        ctx.check(np.abs(s['full'] - X).max() <= 2 * tol + 1e-6 * nX, 'data of this multilinear rank is not reproduced: off by %.3g' % np.abs(
            s['full'] - X).max())
    if any(r < n for r, n in zip(R, c['shape'])):
        ctx.sig(c['shape'], R, c['data'], c['scale'])
