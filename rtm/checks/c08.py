"""C08 KTensor / TTensor extraction."""
import numpy as np
from rtm import gen, oracle
RULE = ('one case = a Kruskal or Tucker tensor of order 1..6 with ranks 1..6 (also above the extents), factors as arrays, constants, '
        'placeholders or variables in float32/float64 (arrays also integer), weights none/vector/column, array or tensor, with zero '
        'and negative weights; distinct by (type, shape, ranks, forms, dtypes); non-trivial = more than one entry or component')
ASSUMPTIONS = ['graph factors and graph weights share one element type', 'arrays are taken to single precision by KTensor: tolerance of '
               'single precision for array factors']
REQUIRED = ['assertions', 'ktensor', 'ttensor', 'np_factors', 'lam_none', 'lam_vec', 'lam_col', 'f64', 'parts_compared', 'large_tensors']


def cases(tier, rng):
    res = []
    small = 800 if tier == 'quick' else 8000
    for i in range(small + (30 if tier == 'quick' else 300)):
        order = rng.choice([1, 2, 3, 3, 4, 5, 6]) if i < small else rng.randint(2, 5)
        shp = gen.shape(rng, order, cap=200, maxd=6) if i < small else gen.large(rng, order, rng.choice([5000, 20000, 70000, 300000]))
        c = dict(shape=shp, seed=rng.randrange(2 ** 31), form=rng.choice(['np', 'np', 'const', 'ph', 'var']),
                 dtype=rng.choice(['float32', 'float64']))
        if i % 2:
            c.update(t='k', R=rng.randint(1, 6), lam=rng.choice(['none', 'vec', 'col']), lform=rng.choice(['np', 'const', 'ph', 'var']),
                     lkind=rng.choice(['normal', 'zeros', 'negative']), ldt=rng.choice(['float32', 'float64', 'int64']))
            if c['form'] == 'np' and rng.random() < 0.15:
                c['dtype'] = 'int64'
        else:
            c.update(t='t', ranks=gen.shape(rng, order, cap=60, maxd=4, big=False), cform=rng.choice(['np', 'const', 'ph', 'var']))
        if i >= small:
            if c['t'] == 'k':
                c['R'] = rng.choice([2, 9, 20, 40])
            else:
                c['ranks'] = [min(n, rng.choice([2, 5, 12])) for n in shp]
        res.append(c)
    return res


def run(c, ctx):
    from tensorD.base.type import KTensor, TTensor
    shp, dt = c['shape'], c['dtype']
    if c['t'] == 'k':
        A = [gen.array(c['seed'] + i, [n, c['R']], dt) for i, n in enumerate(shp)]
        if dt == 'int64':
            A = [a % 4 - 1 for a in A]
        eff = np.float32 if c['form'] == 'np' else np.dtype(dt)
        lam = None
        if c['lam'] != 'none':
            lam = gen.array(c['seed'] + 50, [c['R']], c['ldt'] if c['lform'] == 'np' else eff)
            if c['lkind'] == 'zeros':
                lam = lam * (np.arange(c['R']) % 2).astype(lam.dtype)
            elif c['lkind'] == 'negative':
                lam = -np.abs(lam)
            if c['lam'] == 'col':
                lam = lam.reshape(-1, 1)
        keep = [a.copy() for a in A], None if lam is None else lam.copy()
        with gen.G() as g:
            fs = [g.t(a, c['form']) for a in A]
            with ctx.sut('KTensor(%s %s, lambdas %s %s)' % (c['form'], dt, c['lam'], c['lform'])):
                K = KTensor(fs) if lam is None else KTensor(fs, g.t(lam, c['lform']))
                t1 = K.extract()
                t2 = K.extract()
                got, got2, gl, gu = g.run([t1, t2, K.lambdas, list(K.U)])
            ctx.ev('parts_compared', len(gu))
            ctx.check(len(gu) == len(A) and all(np.array_equal(np.asarray(u).astype(np.float32), a.astype(np.float32)) for u, a in zip(gu, A)), 'KTensor.U does not hold the factors')
            ctx.check(K.order == len(shp), 'KTensor.order is %r' % (K.order,))
        wl = np.ones(c['R']) if lam is None else oracle.wide(lam).reshape(-1)
        ctx.check(gl.shape == (c['R'], 1) and np.allclose(gl.reshape(-1), wl, rtol=1e-6), 'KTensor.lambdas is %s' % gl.tolist())
        e = np.float32 if c['form'] == 'np' else np.dtype(dt)
        if c['form'] == 'np' and got.dtype == np.float64:
            got = got.astype(np.float32); got2 = got2.astype(np.float32)     # either precision is fine for arrays
        if got.dtype != e:
            ctx.fail('KTensor.extract gives %s for %s factors' % (got.dtype, dt)); return
        ref = oracle.kruskal(A, wl)
        mag = oracle.kruskal([np.abs(oracle.wide(a)) for a in A], np.abs(wl))
        for v in (got, got2):
            oracle.close(ctx, 'ktensor', v, ref, mag, c['R'] + 3 * len(shp) + 4, e, 'KTensor.extract')
        ctx.check(all(np.array_equal(a, b) for a, b in zip(A, keep[0])) and (lam is None or np.array_equal(lam, keep[1])),
                  'KTensor modified the arrays of its caller')
        ctx.ev('ktensor'); ctx.ev('lam_' + c['lam'])
        if c['R'] * np.prod(shp) > 1:
            ctx.sig('k', shp, c['R'], c['form'], dt, c['lam'], c['lform'], c['lkind'])
    else:
        A = [gen.array(c['seed'] + i, [n, r], dt) for i, (n, r) in enumerate(zip(shp, c['ranks']))]
        core = gen.array(c['seed'] + 60, c['ranks'], dt)
        with gen.G() as g:
            fs = [g.t(a, c['form']) for a in A]
            with ctx.sut('TTensor(core %s, factors %s, %s)' % (c['cform'], c['form'], dt)):
                t = TTensor(g.t(core, c['cform']), fs)
                x1, x2 = t.extract(), t.extract()
                got, got2, gu, gc = g.run([x1, x2, list(t.U), t.g])
            ctx.ev('parts_compared', len(gu) + 1)
            ctx.check(len(gu) == len(A) and all(np.array_equal(u, a) for u, a in zip(gu, A)) and np.array_equal(gc, core), 'TTensor.U and TTensor.g do not hold the factors and the core')
            ctx.check(t.order == len(shp), 'TTensor.order is %r' % (t.order,))
        ref = oracle.tucker(core, A)
        mag = oracle.tucker(np.abs(core), [np.abs(a) for a in A])
        for v in (got, got2):
            oracle.close(ctx, 'ttensor', v, ref, mag, sum(c['ranks']) + 4 * len(shp), dt, 'TTensor.extract')
        ctx.ev('ttensor')
        if np.prod(c['ranks']) * np.prod(shp) > 1:
            ctx.sig('t', shp, c['ranks'], c['form'], c['cform'], dt)
    ctx.ev('large_tensors', np.prod(shp) >= 5000)
    ctx.ev('np_factors', c['form'] == 'np'); ctx.ev('f64', dt == 'float64')
