"""C18 HOOI: every mode update, the residual identity, monotonicity, comparison with HOSVD."""
import numpy as np
from rtm import gen, oracle, train
from rtm.checks.ortho import judge_basis, leading
RULE = ('one case = one tensor, feasible rank tuple and seed, trained once while all states are read; every mode update is judged against the '
        'SVD of the data projected on the newest other published factors; distinct by (shape, ranks, data kind, scale); '
        'non-trivial = a truncated mode')
ASSUMPTIONS = ['r_n <= product of the other ranks', 'the first sweep is judged where the HOSVD start is unique (singular value gap)']
REQUIRED = ['assertions', 'trainings_with_tolerance', 'early_stops', 'bases_judged', 'bases_judged_by_subspace', 'first_sweep_modes', 'monotone_steps', 'exact_cases', 'hosvd_compared']
EPS = 1.2e-7


def cases(tier, rng):
    res = []
    for i in range(200 if tier == 'quick' else 3000):
        order = rng.choice([2, 3, 3, 3, 4, 5])
        shp = train.shape_of(rng, order, maxd=8, cap=500)
        R = train.tucker_ranks(rng, shp, 'hooi')
        data = rng.choice(['uniform', 'normal', 'normal', 'graded', 'graded', 'sparse', 'int', 'noisycp', 'lowcp', 'lowtucker', 'lowtucker', 'zslice', 'sparse_mixed',
                           'negative', 'arange', 'spike'])
        res.append(dict(shape=shp, ranks=R, seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), data=data,
                        tr=[rng.randint(1, r) for r in R], scale=rng.choice([1, 1, 1e-3, 100, 1e5]), steps=rng.choice([1, 2, 3, 5, 10, 30])))
    for i in range(8 if tier == 'quick' else 80):       # thousands of entries
        res.append(train.enlarge(rng, res[i], 'hooi', 5))
    return res


def run(c, ctx):
    X32 = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'], scale=c['scale'], ranks=c['tr']))
    X, N, R = X32.astype(float), len(c['shape']), c['ranks']
    nX = np.sqrt((X ** 2).sum())
    with gen.G(c['gseed']):
        h = train.Harness('hooi', X32, list(R), tol=0.0)
        with ctx.sut('build/train'):
            h.build()
            states, hist = h.trajectory(c['steps'], ctx)
    if c['seed'] % 2:
        train.early(ctx, 'hooi', X32, R, c['gseed'], states, hist, c['seed'])
    # reference start
    init, gaps, disc = [], [], 0.0
    for n in range(N):
        W, sv, gap = leading(oracle.unfold(X, n), R[n])
        pert = 20 * np.sqrt(sum(c['shape'])) * EPS * nX
        init.append(W)
        gaps.append(4 * pert / gap if gap > 0 else np.inf)
        disc += (sv[R[n]:] ** 2).sum()
    res_tol = 60 * N * np.sqrt(sum(c['shape'])) * EPS * nX
    prev, prevres = None, None
    for k, s in enumerate(states):
        where = 'step %d' % (k + 1)
        if not ctx.check([f.shape for f in s['factors']] == [(n, r) for n, r in zip(c['shape'], R)] and s['core'].shape == tuple(R),
                         '%s: shapes %s, core %s' % (where, [f.shape for f in s['factors']], s['core'].shape)):
            return
        F = [f.astype(float) for f in s['factors']]
        for n in range(N):
            extra = 0.0
            if prev is None:
                extra = sum(gaps[i] * np.sqrt(R[i]) for i in range(n + 1, N))
                if extra > 0.02:
                    ctx.ev('start_not_unique')
                    continue
                ctx.ev('first_sweep_modes')
            old = init if prev is None else prev
            Y = oracle.ttm(X, [(F[i] if i < n else old[i], i) for i in range(N) if i != n], transpose=True)
            judge_basis(ctx, s['factors'][n], oracle.unfold(Y, n), '%s: factor %d' % (where, n), dY=2 * extra * nX, scale=nX)
        ref = oracle.ttm(X, [(f, n) for n, f in enumerate(F)], transpose=True)
        mag = oracle.ttm(np.abs(X), [(np.abs(f), n) for n, f in enumerate(F)], transpose=True)
        oracle.close(ctx, 'core', s['core'], ref, mag, sum(c['shape']), np.float32, '%s: core vs projection of the data on the factors' % where)
        res = np.sqrt(((X - oracle.tucker(s['core'], F)) ** 2).sum())
        ident = nX ** 2 - (s['core'].astype(float) ** 2).sum()
        ctx.peak('identity', abs(res ** 2 - ident) / (res_tol * nX))
        ctx.check(abs(res ** 2 - ident) <= res_tol * nX, '%s: residual^2 %.9g, |data|^2-|core|^2 %.9g' % (where, res ** 2, ident))
        if prevres is not None:
            ctx.ev('monotone_steps')
            ctx.peak('monotone', (res ** 2 - prevres ** 2) / (res_tol * nX))
            ctx.check(res ** 2 <= prevres ** 2 + res_tol * nX, '%s: residual grew from %.9g to %.9g' % (where, prevres, res))
        if k == 0:
            ctx.ev('hosvd_compared')
            ctx.check(res ** 2 <= disc + res_tol * nX, '%s: residual %.8g is worse than the HOSVD bound %.8g' % (where, res, np.sqrt(disc)))
            if max(gaps) < 0.01:
                hc = oracle.ttm(X, [(w, i) for i, w in enumerate(init)], transpose=True)
                hres2 = nX ** 2 - (hc ** 2).sum()
                ctx.ev('hosvd_compared_exactly')
                ctx.check(res ** 2 <= hres2 + res_tol * nX + 4 * sum(gaps) ** 2 * nX ** 2, '%s: residual %.8g is worse than that of HOSVD %.8g' % (
                    where, res, np.sqrt(max(hres2, 0))))
        if np.sqrt(disc) < 1e-6 * nX:
            ctx.ev('exact_cases')
            ctx.check(np.abs(s['full'] - X).max() <= 2 * res_tol + 1e-6 * nX, '%s: data of this multilinear rank is not reproduced: off by %.3g of %.3g' % (
                where, np.abs(s['full'] - X).max(), nX))
        prev, prevres = F, res
    if any(r < n for r, n in zip(R, c['shape'])):
        ctx.sig(c['shape'], R, c['data'], c['scale'])
