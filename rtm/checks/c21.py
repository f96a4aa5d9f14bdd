"""C21 block coordinate update: every published step against a reference state machine of the accelerated projected gradient method."""
import contextlib
import numpy as np
from rtm import gen, oracle, train
RULE = ('one case = one model, tensor, ranks and seed; from the second step on every published core and factor is predicted in double '
        'precision from the previously published states (extrapolated point, gradient, step length, acceptance by the history) and '
        'compared; distinct by (model, shape, ranks, data kind, scale); non-trivial = at least three steps')
ASSUMPTIONS = ['the random start is not observable: the first step is not predicted, and in the third step the extrapolation weight is fitted in '
               '[0, bound] per block', 'acceptance within 2e-5 of equality is followed both ways', 'objective below 1e6 in size']
REQUIRED = ['assertions', 'trainings_with_tolerance', 'early_stops', 'blocks_predicted', 'blocks_extrapolated', 'weights_limited_by_t', 'rejections_followed',
            'steps_after_rejection', 'clipped_entries', 'ncp', 'nt']
EPS = 1.2e-7
REL = 2e-5


def cases(tier, rng):
    res = []
    for i in range(260 if tier == 'quick' else 4000):
        kind = ['ncp', 'nt'][i % 2]
        order = rng.choice([2, 3, 3, 3, 4, 5])
        shp = train.shape_of(rng, order, maxd=7, cap=300)
        res.append(dict(kind=kind, shape=shp, ranks=[rng.choice([1, 2, 3, 4, 6])] if kind == 'ncp' else [rng.randint(1, min(4, n + 1)) for n in shp],
                        seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), R=rng.randint(1, 4),
                        data=rng.choice(['uniform', 'normal', 'sparse', 'noisycp', 'lowcp', 'lowcp_pos', 'lowcp_pos', 'zslice', 'sparse_mixed', 'int']),
                        scale=rng.choice([1, 1, 0.01, 0.1, 5]), vi=rng.choice([-1, 2, 3]), verbose=rng.random() < 0.2,
                        steps=rng.choice([3, 5, 8, 15, 30]) if rng.random() < 0.8 else 80))
    for i in range(60 if tier == 'quick' else 900):     # starts away from the dominant part of the data: step lengths and weights change late
        kind = ['ncp', 'nt'][i % 2]
        shp = train.shape_of(rng, rng.choice([2, 3, 3, 4]), maxd=7, cap=300, wide=0, mind=2)
        res.append(dict(kind=kind, shape=shp, ranks=[rng.choice([1, 2, 3, 4])] if kind == 'ncp' else [rng.randint(1, min(3, n)) for n in shp],
                        seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), R=2, data='takeover', scale=rng.choice([1, 0.1, 3]), vi=rng.choice([-1, 2, 3]),
                        verbose=False, steps=rng.choice([12, 20, 40]), eps=10 ** -rng.uniform(0.5, 4), even=rng.random() < 0.3))
    for i in range(8 if tier == 'quick' else 80):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 8))
    return res


@contextlib.contextmanager
def start(c):
    """the random starts of a model, moved away from the second half of every mode"""
    if not c.get('eps'):
        yield
        return
    import tensorflow as tf
    orig = tf.random_uniform

    def random_uniform(shape, *a, **k):
        u = orig(shape, *a, **k)
        n = u.get_shape().as_list()
        if len(n) != 2 or n[0] < 2:
            return u
        m = np.ones(n)
        m[n[0] // 2 + (0 if c['even'] else n[0] % 2):] = c['eps']
        return u * tf.constant(m, dtype=u.dtype)
    tf.random_uniform = random_uniform
    try:
        yield
    finally:
        tf.random_uniform = orig


class Block(object):
    """one block (core or a factor): predicted update from its extrapolated point"""

    def __init__(self, P, Q, tP, tQ, L):
        self.P, self.Q, self.tP, self.tQ, self.L = P, Q, tP, tQ, L


def terms_factor(kind, X, n, A, core):
    """(H, XB, |H|, |X||B|): Hessian and data term of mode n"""
    if kind == 'ncp':
        K = oracle.khatri([A[i] for i in range(X.ndim) if i != n][::-1])
    else:
        K = oracle.unfold(oracle.ttm(core, [(A[i], i) for i in range(X.ndim) if i != n]), n).T
    U = oracle.unfold(X, n)
    return K.T @ K, U @ K, np.abs(K).T @ np.abs(K), np.abs(U) @ np.abs(K), K.shape[0]


def step_factor(kind, X, n, A, core, Z, aZ):
    """projected gradient step of mode n before projection at the point Z, and its forward error; both affine in Z"""
    H, XB, aH, aXB, cols = terms_factor(kind, X, n, A, core)
    L = np.linalg.norm(H, 2)
    f = (4 * np.sqrt(cols) + 16 + 4 * X.ndim) * EPS
    if L == 0:
        return Z, 8 * EPS * aZ, L
    return Z - (Z @ H - XB) / L, f * (aZ @ aH + aXB) / L + 8 * EPS * aZ, L


def step_core(X, A, Z, aZ):
    G = [a.T @ a for a in A]
    L = float(np.prod([np.linalg.norm(g, 2) for g in G]))
    f = (4 * np.sqrt(X.size) + 16 + 8 * X.ndim) * EPS
    if L == 0:
        return Z, 8 * EPS * aZ, L
    HZ = oracle.ttm(Z, list(zip(G, range(X.ndim))))
    aHZ = oracle.ttm(aZ, [(np.abs(a).T @ np.abs(a), i) for i, a in enumerate(A)])
    XA = oracle.ttm(X, list(zip(A, range(X.ndim))), transpose=True)
    aXA = oracle.ttm(np.abs(X), [(np.abs(a), i) for i, a in enumerate(A)], transpose=True)
    return Z - (HZ - XA) / L, f * (aHZ + aXA) / L + 8 * EPS * aZ, L


def run(c, ctx):
    X32 = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'], scale=c['scale'], R=c['R']))
    X, N, kind = X32.astype(float), len(c['shape']), c['kind']
    with gen.G(c['gseed']):
        h = train.Harness(kind, X32, list(c['ranks']), tol=0.0, vi=c['vi'], verbose=c['verbose'])
        with ctx.sut('build/train'):
            with start(c):
                h.build()
            states, hist = h.trajectory(c['steps'], ctx)
    if c['seed'] % 2:
        def build(g):
            with start(c):
                g.build()
        train.early(ctx, kind, X32, c['ranks'], c['gseed'], states, hist, c['seed'], build)
    ctx.ev(kind)
    n2 = float((X ** 2).sum())
    obj = [0.5 * float(r) ** 2 * n2 for _, r in hist]
    blocks = (['core'] if kind == 'nt' else []) + list(range(N))

    def val(s, b):
        return (s['core'] if b == 'core' else s['factors'][b]).astype(float)
    if not all(np.isfinite(val(s, b)).all() for s in states for b in blocks):
        ctx.fail('a published state is not finite')
        return
    # hypothesis: (A0, objective to beat, t0, extrapolated points or None when the weight is unknown, weight bound, L of the previous step, rejected before)
    s = states[0]
    hyps = [dict(A0={b: val(s, b) for b in blocks}, Am={b: val(s, b) for b in blocks}, aAm={b: val(s, b) for b in blocks}, D=None, w=0.0, o0=obj[0], t0=(1 + np.sqrt(5)) / 2, L=None, rej=False)]
    for k in range(1, len(states)):
        old, new = states[k - 1], states[k]
        surv, firstmsg = [], None
        for hy in hyps:
            msg, Ls, stats = judge(kind, X, N, blocks, old, new, hy, val)
            if msg:
                firstmsg = firstmsg or msg
                continue
            surv.append((hy, Ls, stats))
        if not surv:
            ctx.fail('%s step %d (after %s): %s' % (kind, k + 1, 'an increase' if hyps[0]['rej'] else 'a decrease', firstmsg))
            return
        ctx.ev('assertions', len(blocks)); ctx.ev('blocks_predicted', len(blocks))
        hy, Ls, st = min(surv, key=lambda x: x[2]['worst'])
        ctx.ev('clipped_entries', st['clipped'])
        ctx.ev('blocks_extrapolated', st['extrapolated'])
        ctx.ev('weights_fitted', st['fitted'])
        ctx.ev('steps_after_rejection', hy['rej'] and len(surv) == 1)
        ctx.peak('step', st['worst'])
        hyps = []
        for hy, Ls, st in surv:
            t = (1 + np.sqrt(1 + 4 * hy['t0'] ** 2)) / 2
            w = (hy['t0'] - 1) / t
            d = obj[k] - hy['o0']
            err = REL * (obj[k] + hy['o0']) + 1e-37
            for acc in ([True] if d < -err else [False] if d > err else [True, False]):
                A = {b: val(new, b) for b in blocks}
                if not acc:
                    ctx.ev('rejections_followed')
                    hyps.append(dict(A0=hy['A0'], Am=dict(hy['A0']), aAm=dict(hy['A0']), D=None, w=0.0, o0=hy['o0'], t0=hy['t0'], L=Ls, rej=True))
                    continue
                D = {b: A[b] - hy['A0'][b] for b in blocks}
                if hy['L'] is None:
                    hyps.append(dict(A0=A, Am=A, aAm=A, D=D, w=w, o0=obj[k], t0=t, L=Ls, rej=False))
                    continue
                Am, aAm = {}, {}
                for b in blocks:
                    q = np.sqrt(hy['L'][b] / Ls[b]) if Ls[b] > 0 else 0.0
                    ctx.ev('weights_limited_by_L', q < w and np.abs(D[b]).max() > 1e-3 * np.abs(A[b]).max()); ctx.ev('weights_limited_by_t', q >= w)
                    Am[b] = A[b] + min(w, q) * D[b]
                    aAm[b] = A[b] + w * (A[b] + hy['A0'][b])
                hyps.append(dict(A0=A, Am=Am, aAm=aAm, D=None, w=w, o0=obj[k], t0=t, L=Ls, rej=False))
        if len(hyps) > 32:
            ctx.ev('cut_off_ambiguous')
            break
    if len(states) > 2:
        ctx.sig(kind, c['shape'], c['ranks'], c['data'], c['scale'])


def judge(kind, X, N, blocks, old, new, hy, val):
    """message or None, L per block, statistics"""
    Ls, st = {}, dict(clipped=0, extrapolated=0, fitted=0, worst=0.0)
    A = [val(old, n) for n in range(N)]
    core = val(old, 'core') if kind == 'nt' else None
    for b in blocks:
        got = val(new, b)

        def step(Z, aZ):
            return step_core(X, A, Z, aZ) if b == 'core' else step_factor(kind, X, b, A, core, Z, aZ)
        P, tP, L = step(hy['Am'][b], hy['aAm'][b])
        Ls[b] = L
        if hy['D'] is not None:
            # weight in [0, w] unknown: prediction is affine in it
            aD = np.abs(hy['D'][b]) + hy['aAm'][b]
            Q = step(hy['Am'][b] + hy['D'][b], aD)[0] - P
            tP = tP + hy['w'] * step(hy['Am'][b], aD)[1]
            use = (got > 4 * tP) & (np.abs(Q) > 1e-12)
            sfit = 0.0
            if use.any():
                wts = np.abs(Q[use]) / (tP[use] + 1e-300)
                est = (got[use] - P[use]) / Q[use]
                sfit = float(np.clip(est[np.argmax(wts)], 0.0, hy['w']))
            P = P + sfit * Q
            st['fitted'] += 1
        ref = np.maximum(P, 0)
        tol = 2 * tP + 1e-30
        d = np.abs(got - ref)
        st['clipped'] += int(((P < -tol) & (got == 0)).sum())
        st['extrapolated'] += int(np.any(hy['Am'][b] != hy['A0'][b]))
        st['worst'] = max(st['worst'], float((d / tol).max()))
        if (d > tol).any() or not np.all(got[P < -tol] == 0):
            i = np.unravel_index(int(np.argmax(d / tol)), d.shape)
            return '%s: entry %s is %.9g, the projected gradient step gives %.9g (tolerance %.2g; unclipped %.6g, L=%.6g)' % (
                'core' if b == 'core' else 'factor %d' % b, tuple(map(int, i)), got[i], ref[i], tol[i], P[i], L), None, None
        if b == 'core':
            core = got
        else:
            A[b] = got
    return None, Ls, st
