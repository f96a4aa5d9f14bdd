"""C06 xcb (mode-0 MTTKRP) and product of spectral norms."""
import numpy as np
from rtm import gen, oracle
RULE = ('one case = an order-3 tensor with matrices C, B (all extents and ranks incl. 1; dense, sparse, zero slices) or a list of '
        '1..6 matrices of any aspect ratio, rank and scale with a skip; distinct by (op, shapes, dtype, skip, zero pattern kind)')
ASSUMPTIONS = ['finite entries', 'singular values to backward error of the SVD']
REQUIRED = ['assertions', 'xcb_observed', 'smax_observed', 'zero_slices', 'skip_used', 'large_tensors']


def cases(tier, rng):
    res = []
    for i in range(500 if tier == 'quick' else 6000):
        if i % 2:
            I, J, K, R = [rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(4)]
            res.append(dict(op='xcb', shape=[I, J, K], R=R, dtype=rng.choice(['float32', 'float64', 'int32', 'float32', 'int64']),
                            form=rng.choice(gen.FORMS), kind=rng.choice(['normal', 'sparse', 'wide', 'zslice', 'zero']), seed=rng.randrange(2 ** 31)))
        else:
            n = rng.randint(1, 6)
            skn = rng.choice(['none', 'int', 'list'])
            skip = None if skn == 'none' or n == 1 else rng.sample(range(n), 1 if skn == 'int' else rng.randint(0, n - 1))
            res.append(dict(op='smax', shapes=[[rng.randint(1, 7), rng.randint(1, 7)] for _ in range(n)], skip=skip, skn=skn,
                            dtype=rng.choice(['float32', 'float64', 'float32', 'complex64']), form=rng.choice(gen.FORMS),
                            kind=rng.choice(['normal', 'rank1', 'scaled', 'zero', 'negative']), seed=rng.randrange(2 ** 31)))
    for i in range(24 if tier == 'quick' else 240):
        if i % 2:
            res.append(dict(op='xcb', shape=rng.choice([[60, 50, 40], [5, 300, 20], [300, 7, 9], [3, 2, 5000], [400, 130, 2]]), R=rng.choice([1, 8, 33, 70]),
                            dtype=rng.choice(['float32', 'float64', 'int32']), form=rng.choice(gen.FORMS), kind=rng.choice(['normal', 'sparse', 'zslice']), seed=rng.randrange(2 ** 31)))
        else:
            res.append(dict(op='smax', shapes=[rng.choice([[120, 80], [30, 300], [1000, 5], [200, 200], [2, 3]]) for _ in range(3)], skip=rng.choice([None, [1]]), skn='int',
                            dtype=rng.choice(['float32', 'float64']), form=rng.choice(gen.FORMS), kind=rng.choice(['normal', 'rank1', 'scaled', 'negative']), seed=rng.randrange(2 ** 31)))
    return res


def run(c, ctx):
    from tensorD.base import ops
    dt = c['dtype']
    if c['op'] == 'xcb':
        I, J, K = c['shape']
        X = gen.array(c['seed'], c['shape'], dt, c['kind'])
        r = np.random.default_rng(c['seed'] + 5)
        if c['kind'] == 'zslice':
            X[r.integers(I)] = 0; X[:, r.integers(J)] = 0; X[:, :, r.integers(K)] = 0
            ctx.ev('zero_slices')
        if c['kind'] == 'zero':
            X[...] = 0
        C = gen.array(c['seed'] + 1, [K, c['R']], dt, 'sparse' if c['seed'] % 3 == 0 else 'normal')
        B = gen.array(c['seed'] + 2, [J, c['R']], dt, 'normal')
        with gen.G() as g:
            with ctx.sut('xcb'):
                got = g.run(ops.xcb(g.t(X, c['form']), g.t(C, c['form']), g.t(B, c['form'])))
        W = [oracle.wide(v) for v in (X, C, B)]
        ref = np.einsum('ijk,kr,jr->ir', *W, optimize=X.size > 300)
        mag = np.einsum('ijk,kr,jr->ir', *[np.abs(w) for w in W], optimize=X.size > 300)
        ctx.ev('xcb_observed'); ctx.ev('large_tensors', X.size >= 5000)
        oracle.close(ctx, 'xcb', got, ref, mag, oracle.terms(J * K + 6), dt, 'xcb')
        ctx.sig('xcb', c['shape'], c['R'], dt, c['kind'], c['form'])
        return
    Ms = []
    for i, s in enumerate(c['shapes']):
        M = gen.array(c['seed'] + i, s, dt, 'normal')
        if c['kind'] == 'rank1':
            M = np.outer(M[:, 0], M[0]).astype(dt)
        elif c['kind'] == 'scaled':
            M = (M * dt_scale(i, c['seed'])).astype(dt)
        elif c['kind'] == 'zero' and i == 0:
            M = M * 0
        elif c['kind'] == 'negative':
            M = -np.abs(M).astype(dt)
        Ms.append(M.astype(dt))
    keep = [i for i in range(len(Ms)) if c['skip'] is None or i not in c['skip']]
    sk = None if c['skip'] is None else c['skip'][0] if c['skn'] == 'int' else list(c['skip'])
    with gen.G() as g:
        m = [g.t(M, c['form']) for M in Ms]
        with ctx.sut('max_single_value_mul'):
            got = g.run(ops.max_single_value_mul(m, sk) if sk is not None else ops.max_single_value_mul(m))
        ctx.check(len(m) == len(Ms), 'max_single_value_mul modified the list of its caller')
    ref = 1.0
    for i in keep:
        ref *= np.linalg.norm(oracle.wide(Ms[i]), 2)
    ctx.ev('smax_observed'); ctx.ev('skip_used', sk is not None)
    n = sum(sum(Ms[i].shape) for i in keep) * 3
    got = np.asarray(got)
    oracle.close(ctx, 'smax', got, np.asarray(ref), np.asarray(abs(ref)), n, got.dtype, 'max_single_value_mul(skip=%s)' % sk)
    ctx.sig('smax', c['shapes'], dt, sk, c['kind'])


def dt_scale(i, seed):
    return 10.0 ** ((seed + 3 * i) % 7 - 3)
