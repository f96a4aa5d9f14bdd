"""Reference semantics, written from the definitions and independent of the code under test, with error bounds."""
import numpy as np


def wide(a):
    a = np.asarray(a)
    if a.dtype.kind in 'iub':
        return a.astype(np.int64)
    return a.astype(np.complex128 if a.dtype.kind == 'c' else np.float64)


def eps(dtype):
    dt = np.dtype(dtype)
    if dt.kind in 'iub':
        return 0.0
    return float(np.finfo(dt).eps)


def tiny(dtype):
    dt = np.dtype(dtype)
    return 0.0 if dt.kind in 'iub' else float(np.finfo(dt).tiny)


def same_bits(got, ref):
    got, ref = np.asarray(got), np.asarray(ref)
    return got.shape == ref.shape and got.dtype == ref.dtype and \
        np.ascontiguousarray(got).tobytes() == np.ascontiguousarray(ref).tobytes()


def terms(n):
    """number of roundings that may add up in a sum of n terms: beyond some thousands they are taken to be random"""
    return n if n <= 4096 else int(64 * np.sqrt(n))


def close(ctx, name, got, ref, mag, terms, dtype, what, c=4.0, **detail):
    """|got-ref| <= c*(terms+4)*eps*mag: forward error of any summation order of `terms` products. exact for ints"""
    got = np.asarray(got)
    ref = np.asarray(ref)
    if got.shape != ref.shape:
        ctx.ev('assertions')
        ctx.fail('%s: shape %s, expected %s' % (what, got.shape, ref.shape), **detail)
        return False
    if got.dtype != np.dtype(dtype):
        ctx.ev('assertions')
        ctx.fail('%s: element type %s, expected %s' % (what, got.dtype, np.dtype(dtype)), **detail)
        return False
    e = eps(dtype)
    ctx.ev('assertions')
    ctx.ev('entries_compared', got.size)
    if got.size == 0:
        return True
    if e == 0.0:
        ok = bool(np.all(wide(got) == ref))
        if not ok:
            ctx.fail('%s: differs from its definition (exact integer comparison)' % what, **detail)
        return ok
    tol = c * (terms + 4) * e * np.asarray(mag, dtype=float) + 64 * tiny(dtype)
    err = np.abs(wide(got) - ref)
    bad = ~(err <= tol)
    with np.errstate(all='ignore'):
        ctx.peak(name, np.max(np.where(bad, 0, err / np.where(tol > 0, tol, 1))))
    if bad.any():
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err - tol))), err.shape) if err.ndim else ()
        ctx.fail('%s: entry %s is %r, definition gives %r (tolerance %.3g), %d of %d entries off' % (
            what, tuple(map(int, i)), got[i] if err.ndim else got, ref[i] if err.ndim else ref,
            np.broadcast_to(tol, err.shape)[i] if err.ndim else tol, int(bad.sum()), bad.size), **detail)
        return False
    return True


# ---- layout -----------------------------------------------------------------------------------------------
def unfold(X, n):
    X = np.asarray(X)
    return np.reshape(np.moveaxis(X, n, 0), (X.shape[n], -1), order='F')


def fold(M, n, shape):
    rest = [s for i, s in enumerate(shape) if i != n]
    return np.moveaxis(np.reshape(M, [shape[n]] + rest, order='F'), 0, n)


def t2mat(X, r, c):
    X = np.asarray(X)
    rs = int(np.prod([X.shape[i] for i in r])) if len(r) else 1
    cs = int(np.prod([X.shape[i] for i in c])) if len(c) else 1
    if X.size > 4000:
        return np.ascontiguousarray(X.transpose(list(r) + list(c))).reshape(rs, cs)
    out = np.empty((rs, cs), X.dtype)
    it = np.nditer(X, flags=['multi_index', 'zerosize_ok', 'refs_ok'])
    for _ in it:
        mi = it.multi_index
        i = 0
        for a in r:
            i = i * X.shape[a] + mi[a]
        j = 0
        for a in c:
            j = j * X.shape[a] + mi[a]
        out[i, j] = X[mi]
    return out


# ---- products ---------------------------------------------------------------------------------------------
def mode_mul(X, M, n):
    return np.moveaxis(np.tensordot(M, X, (1, n)), 0, n)


def ttm(X, pairs, transpose=False):
    for M, n in pairs:
        X = mode_mul(X, M.T if transpose else M, n)
    return X


def kron(ms):
    r = ms[0]
    for m in ms[1:]:
        r = np.kron(r, m)
    return r


def khatri(ms):
    return np.stack([kron([m[:, j] for m in ms]) for j in range(ms[0].shape[1])], axis=1)


def kruskal(A, lam=None):
    """sum_r lam_r a_r o b_r o ..."""
    A = [wide(a) for a in A]
    R = A[0].shape[1]
    lam = np.ones(R) if lam is None else wide(lam).reshape(-1)
    out = 0
    for r in range(R):
        t = lam[r]
        for a in A:
            t = np.multiply.outer(t, a[:, r])
        out = out + t
    return np.asarray(out)


def tucker(g, A):
    return ttm(wide(g), [(wide(a), i) for i, a in enumerate(A)])
