"""C16 every CP-ALS sweep, re-derived from the published factors."""
import numpy as np
from rtm import gen, oracle, train
RULE = ('one case = one tensor, rank and seed, trained once while all states are read; for every step and mode the least-squares problem '
        'defined by the published other factors (new before, old after the mode) is solved in double precision and compared; '
        'distinct by (shape, rank, data kind, scale); non-trivial = at least one mode update judged by value')
ASSUMPTIONS = ['float32 normal equations: a factor is judged by value where its forward error bound is below 5 %, and always by the '
               'residual it reaches', 'singular values of the normal matrix below 1e-5 of the largest may or may not be used']
REQUIRED = ['assertions', 'trainings_with_tolerance', 'early_stops', 'updates_by_value', 'updates_by_residual', 'monotone_steps', 'rank_deficient_updates', 'final_states']
EPS = 1.2e-7


def cases(tier, rng):
    res = []
    for i in range(160 if tier == 'quick' else 2600):
        order = rng.choice([2, 3, 3, 3, 3, 4, 5])
        shp = train.shape_of(rng, order, maxd=8, cap=400)
        R = rng.choice([1, 2, 2, 3, 3, 4, 5, 8]) if rng.random() < 0.9 else 12
        steps = rng.choice([3, 5, 8, 12]) if rng.random() < 0.8 else rng.choice([60, 150])
        res.append(dict(shape=shp, R=R, seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), steps=steps,
                        data=rng.choice(['uniform', 'normal', 'sparse', 'int', 'noisycp', 'lowcp', 'zslice', 'sparse_mixed', 'negative',
                                         'arange', 'spike']), scale=rng.choice([1, 1, 1e-3, 100, 1e5])))
    for i in range(8 if tier == 'quick' else 80):       # thousands of entries
        res.append(train.enlarge(rng, res[i], 'cp', 8))
    return res


def ls(X, A, n):
    """pieces of the least-squares problem for mode n given the factors A (double)"""
    others = [A[i] for i in range(X.ndim) if i != n]
    K = oracle.khatri(others[::-1])                 # column index of the Kolda unfolding: lowest remaining mode fastest
    M = oracle.unfold(X, n) @ K
    V = K.T @ K
    return K, M, V


def run(c, ctx):
    X32 = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'], scale=c['scale'], R=max(1, c['R'] - 1)))
    X, R, N = X32.astype(float), c['R'], len(c['shape'])
    nX = np.sqrt((X ** 2).sum())
    with gen.G(c['gseed']):
        h = train.Harness('cp', X32, [R], tol=0.0)
        with ctx.sut('build/train'):
            h.build()
            states, hist = h.trajectory(c['steps'], ctx)
    if c['seed'] % 2:
        train.early(ctx, 'cp', X32, [R], c['gseed'], states, hist, c['seed'])
    ctx.ev('final_states')
    prev, prevres, judged = None, None, 0
    for k, s in enumerate(states):
        where = 'step %d' % (k + 1)
        F = [np.asarray(f, dtype=float) for f in s['factors']]
        lam = np.asarray(s['lambdas'], dtype=float).reshape(-1)
        if not ctx.check([f.shape for f in F] == [(n, R) for n in c['shape']] and lam.shape == (R,), '%s: shapes' % where):
            return
        if not ctx.check(all(np.isfinite(f).all() for f in F + [lam, np.asarray(s['full'], dtype=float), np.asarray(hist[k], dtype=float)]),
                         '%s: non-finite result' % where):
            return
        for n, f in enumerate(F):
            mx = np.abs(f).max(axis=0)
            ctx.ev('columns', R)
            ctx.check(np.all((np.abs(mx - 1) <= 4 * EPS) | (mx == 0)), '%s: largest entries of the columns of factor %d are %s' % (where, n, mx))
        blurred = False
        for n in range(N):
            if prev is None and n < N - 1:
                continue
            A = [F[i] if i < n else prev[i] if i > n else None for i in range(N)]
            K, M, V = ls(X, A, n)
            u, sv, vt = np.linalg.svd(V)
            s1 = sv[0]
            if s1 == 0:
                ctx.check(not F[n].any() or n < N - 1 or not lam.any(), '%s: factor %d is not zero although all others are' % (where, n))
                continue
            keep = sv > 1e-5 * s1
            blurred |= bool(np.any((sv <= 1e-5 * s1) & (sv > 1e-13 * s1)))
            deficient = not keep.all()
            if deficient:
                ctx.ev('rank_deficient_updates')
            P = (vt[keep].T / sv[keep]) @ vt[keep]
            B = M @ P                                            # minimum-norm optimum on the reliable subspace
            cols = K.shape[0]
            dM = (4 * np.sqrt(cols) + 8 + 2 * N) * EPS * np.sqrt(((np.abs(oracle.unfold(X, n)) @ np.abs(K)) ** 2).sum())
            dV = (4 * np.sqrt(max(c['shape'])) + 8 + 4 * N) * EPS * np.sqrt((((np.abs(K).T @ np.abs(K))) ** 2).sum())
            nB = np.sqrt((B ** 2).sum())
            if not deficient:
                tol = 6 * (dM + nB * dV + 8 * R * EPS * s1 * nB) / sv[-1]
                got = F[n] * lam if n == N - 1 else F[n]
                colmax = np.abs(B).max(axis=0)
                for r in range(R):
                    if tol < 0.05 * colmax[r] and colmax[r] > 0:
                        judged += 1
                        ctx.ev('updates_by_value')
                        if n == N - 1:
                            d, t = np.abs(got[:, r] - B[:, r]).max(), tol + 8 * EPS * colmax[r]
                        else:
                            b = B[:, r] / colmax[r]
                            d = min(np.abs(got[:, r] - b).max(), np.abs(got[:, r] + b).max())
                            t = 2 * tol / colmax[r] + 8 * EPS
                        ctx.peak('value', d / t)
                        ctx.check(d <= t, '%s: column %d of factor %d is off its least-squares optimum by %.3g (tolerance %.3g, conditioning %.1e)' % (
                            where, r, n, d, t, s1 / sv[-1]))
                    else:
                        ctx.ev('columns_below_resolution')
            # residual reached: the best that the published columns of this mode allow, against the optimum
            best = nX ** 2 - (M * B).sum()
            best = np.sqrt(max(0.0, ((oracle.unfold(X, n) - B @ K.T) ** 2).sum()))
            if n == N - 1:
                G = F[n] * lam
            else:                                                # weights of inner modes are not published: optimal ones
                D = np.stack([np.kron(F[n][:, r], K[:, r]) for r in range(R)], axis=1)
                w = np.linalg.lstsq(D, oracle.unfold(X, n).reshape(-1), rcond=None)[0]
                G = F[n] * w
            reach = np.sqrt(((oracle.unfold(X, n) - G @ K.T) ** 2).sum())
            nG = max(np.sqrt((G ** 2).sum()), nB)
            smin = max(sv[keep][-1] if not deficient else 0.0, R * EPS * s1)
            tol = 10 * (dM + nG * dV + 8 * R * EPS * s1 * nG) / np.sqrt(smin) + 1e-6 * nX
            if tol < 0.2 * nX:
                ctx.ev('updates_by_residual')
                ctx.peak('residual', (reach - best) / tol)
                ctx.check(reach <= best + tol, '%s: with factor %d the residual is %.8g, the least-squares optimum has %.8g (|data| %.6g, tolerance '
                          '%.3g)' % (where, n, reach, best, nX, tol))
            if n == N - 1:
                last_tol = tol
        res = np.sqrt(((X - oracle.kruskal(F, lam)) ** 2).sum())
        ctx.check(res <= nX * (1 + 1e-3) + (last_tol if s1 else 0), '%s: residual %.6g exceeds the norm of the data %.6g' % (where, res, nX))
        if prevres is not None and not blurred:
            ctx.ev('monotone_steps')
            tol = last_tol + 1e-5 * nX
            ctx.peak('monotone', (res - prevres) / tol)
            ctx.check(res <= prevres + tol, '%s: the residual grew from %.8g to %.8g (|data| %.6g, tolerance %.3g)' % (where, prevres, res, nX, tol))
        prev, prevres = F, res
    if judged:
        ctx.sig(c['shape'], R, c['data'], c['scale'])
