"""C09 losses."""
import numpy as np
from rtm import gen, oracle
RULE = ('one case = two tensors of one shape (order 1..5) with independent zero patterns, scales from 1e-12 to 1e12 and signs, all three '
        'losses in both argument orders; distinct by (shape, dtype, patterns, scale, form); non-trivial = the tensors differ')
ASSUMPTIONS = ['the first tensor has a non-zero entry', 'no overflow of the squares', 'no subnormal numbers']
REQUIRED = ['assertions', 'l2', 'rmse', 'rmse_ignore_zero', 'zeros_in_first', 'zeros_in_second', 'tiny_entries', 'large_tensors']


def cases(tier, rng):
    res = []
    small = 900 if tier == 'quick' else 9000
    for i in range(small + (40 if tier == 'quick' else 400)):
        res.append(dict(shape=gen.shape(rng, rng.randint(1, 5), cap=300) if i < small else gen.large(rng, rng.randint(1, 5)), dtype=rng.choice(['float32', 'float64']), fa=rng.choice(gen.FORMS),
                        fb=rng.choice(gen.FORMS), za=rng.choice([0, 0.3, 0.8, 1]), zb=rng.choice([0, 0.3, 0.8, 1]), seed=rng.randrange(2 ** 31),
                        scale=rng.choice([1, 1, 1, 1e-12, 1e-6, 1e6, 1e12]), lone=rng.choice([0, 0, 0, 1e-36, 1e-30, 1e-20]), rel=rng.choice(['free', 'free', 'near', 'same']),
                        sign=rng.choice(['mixed', 'neg', 'pos'])))
    return res


def run(c, ctx):
    import tensorD.loss as loss
    r = np.random.default_rng(c['seed'])
    dt = c['dtype']

    def mk(z):
        a = r.normal(size=c['shape'])
        if c['sign'] != 'mixed':
            a = np.abs(a) * (1 if c['sign'] == 'pos' else -1)
        a = a * c['scale']
        m = r.random(c['shape']) < z
        a[m] = 0.0
        return a.astype(dt)
    A = mk(c['za'])
    if c['rel'] == 'same':
        B = A.copy()
    elif c['rel'] == 'near':
        B = (A * (1 + 1e-3 * r.normal(size=A.shape))).astype(dt)
        B[r.random(A.shape) < c['zb'] / 2] = 0
    else:
        B = mk(c['zb'])
    for M in (A, B):
        if c['lone']:             # some entries are next to nothing, but not zero
            M[r.random(c['shape']) < 0.2] = c['lone']
            ctx.ev('tiny_entries', (np.abs(M[M != 0]) < 1e-19).any())
        if not M.any():
            M.reshape(-1)[r.integers(M.size)] = c['scale'] * (-1 if c['sign'] == 'neg' else 1)
    with gen.G() as g:
        a, b = g.t(A, c['fa']), g.t(B, c['fb'])
        with ctx.sut('losses'):
            t = [[getattr(loss, f)(x, y) for f in ('l2', 'rmse', 'rmse_ignore_zero')] for x, y in ((a, b), (b, a))]
            got = g.run(t)
    n = A.size
    for (P, Q), v, o in (((A, B), got[0], 'A,B'), ((B, A), got[1], 'B,A')):
        P, Q = oracle.wide(P), oracle.wide(Q)
        d = (P - Q) ** 2
        ref = [0.5 * d.sum(), np.sqrt(d.mean()), np.sqrt(d[P != 0].sum() / (P != 0).sum())]
        for name, x, y in zip(('l2', 'rmse', 'rmse_ignore_zero'), v, ref):
            ctx.ev(name)
            fl = np.sqrt(n * oracle.tiny(dt)) * 4 if name != 'l2' else n * oracle.tiny(dt) * 4
            tol = 4 * (oracle.terms(n) + 8) * oracle.eps(dt) * y + fl
            ctx.peak(name, abs(x - y) / tol)
            ctx.check(np.ndim(x) == 0 and x.dtype == np.dtype(dt) and abs(float(x) - y) <= tol, '%s(%s) is %r, its formula gives %r' % (name, o, x, y))
    ctx.ev('large_tensors', n >= 5000)
    ctx.ev('zeros_in_first', (A == 0).any()); ctx.ev('zeros_in_second', (B == 0).any())
    if not np.array_equal(A, B):
        ctx.sig(c['shape'], dt, c['za'], c['zb'], c['scale'], c['rel'], c['sign'], c['fa'], c['fb'])
