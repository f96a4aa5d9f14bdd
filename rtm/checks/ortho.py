"""Shared by C17 and C18: is a matrix an orthonormal basis of the leading left singular subspace of another?"""
import numpy as np
EPS = 1.2e-7


def judge_basis(ctx, U, Y, what, dY=0.0, scale=None):
    """U (n x r) against the exact matrix Y (n x m), known up to a perturbation of norm dY"""
    n, r = U.shape
    U = U.astype(float)
    ok = ctx.check(np.isfinite(U).all(), '%s has non-finite entries' % what)
    if not ok:
        return False
    dev = np.abs(U.T @ U - np.eye(r)).max()
    ctx.peak('orthonormal', dev / (40 * np.sqrt(n + r) * EPS))
    ok &= ctx.check(dev <= 40 * np.sqrt(n + r) * EPS, '%s is not orthonormal: deviation %.3g' % (what, dev))
    W, s, _ = np.linalg.svd(Y, full_matrices=True)
    s = np.concatenate([s, np.zeros(max(0, n - len(s)))])
    top = s[0]
    tot = scale if scale is not None else np.sqrt((s ** 2).sum())
    pert = 4 * np.sqrt(n + Y.shape[1]) * EPS * tot + dY
    want, got = (s[:r] ** 2).sum(), ((U.T @ Y) ** 2).sum()
    tol = 4 * pert * np.sqrt((s ** 2).sum()) + 4 * pert ** 2
    ctx.ev('bases_judged')
    ctx.peak('energy', (want - got) / tol if tol > 0 else 0)
    ok &= ctx.check(got >= want - tol, '%s captures energy %.9g, the leading subspace of dimension %d captures %.9g (tolerance %.2g)' % (
        what, got, r, want, tol))
    # every leading part that is separated by a gap must be contained (in order of magnitude: all of it at r)
    gap = s[r - 1] - (s[r] if r < n else 0.0)
    if r < n and gap > 0 and 4 * pert / gap < 0.05:
        ctx.ev('bases_judged_by_subspace')
        d = np.sqrt(np.abs(((U - W[:, :r] @ (W[:, :r].T @ U)) ** 2).sum()))
        t = 4 * pert / gap * np.sqrt(r) + 40 * np.sqrt(n + r) * EPS
        ctx.peak('subspace', d / t)
        ok &= ctx.check(d <= t, '%s leaves the leading singular subspace by %.3g (tolerance %.3g, singular values %s)' % (what, d, t, s[:r + 1]))
    return ok


def leading(Y, r):
    W, s, _ = np.linalg.svd(Y, full_matrices=True)
    s = np.concatenate([s, np.zeros(max(0, Y.shape[0] - len(s)))])
    gap = s[r - 1] - s[r] if r < Y.shape[0] else np.inf
    return W[:, :r], s, gap
