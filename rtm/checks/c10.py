"""C10 documented rejections: the misuse raises the documented error, the neighbouring valid call works and is right."""
import os
import numpy as np
from rtm import gen, oracle
RULE = ('one case = one documented misuse with random shapes/arguments, next to the closest valid call on the same objects, whose result '
        'is compared with its definition; distinct by (kind, shapes, arguments)')
ASSUMPTIONS = []
REQUIRED = ['assertions', 'rejections_seen', 'valid_neighbours', 'k_ttm', 'k_inner', 'k_rmse', 'k_reader', 'k_predict', 'k_pitf', 'k_base']


def cases(tier, rng):
    res = []
    for i in range(330 if tier == 'quick' else 3000):
        k = ['ttm', 'inner', 'rmse', 'reader', 'pitf'][i % 5]
        order = rng.randint(1, 4)
        c = dict(k=k, shape=gen.shape(rng, order, cap=80, maxd=5, big=False), seed=rng.randrange(2 ** 31), form=rng.choice(gen.FORMS), v=rng.randrange(6))
        res.append(c)
    for kind in ('cp', 'ncp', 'nt', 'hosvd', 'hooi'):
        for v in range(3 if tier == 'quick' else 10):
            res.append(dict(k='predict', kind=kind, v=v, seed=rng.randrange(2 ** 31)))
    res.append(dict(k='base', v=0))
    return res


def other_shape(s, v, r):
    """shapes that differ, among them broadcastable ones and ones with the same number of entries"""
    s = list(s)
    if v == 0:
        return s + [1]
    if v == 1:
        return [1] + s
    if v == 2 and len(s) > 1 and s != s[::-1]:
        return s[::-1]
    if v == 3:
        t = list(s); i = int(r.integers(len(s))); t[i] = 1 if t[i] > 1 else 2
        return t
    if v == 4 and len(s) > 1:
        return s[1:]
    t = list(s); i = int(r.integers(len(s))); t[i] += 1
    return t


def run(c, ctx):
    from tensorD.base import ops
    from tensorD.base.error import TensorErr
    import tensorD.loss as loss
    r = np.random.default_rng(c.get('seed', 0))
    k = c['k']
    ctx.ev('k_' + k)
    if k in ('ttm', 'inner', 'rmse'):
        X = gen.array(c['seed'], c['shape'], 'float32')
        with gen.G() as g:
            t = g.t(X, c['form'])
            if k == 'ttm':
                Ms = [gen.array(c['seed'] + i, [2, n], 'float32') for i, n in enumerate(c['shape'])]
                m = [g.t(M, c['form']) for M in Ms]
                n = len(m)
                axis = [list(range(n)), [0], [], [n - 1], list(range(n))[::-1], list(range(n))][c['v']]
                skip = [0, [0], 0, [], n - 1, 1][c['v']]
                ctx.expect(ValueError, lambda: ops.ttm(t, m, axis=axis, skip_matrices_index=skip, transpose=bool(c['seed'] % 2)),
                           'ttm(axis=%r, skip_matrices_index=%r)' % (axis, skip))
                with ctx.sut('valid ttm'):
                    a = g.run([ops.ttm(t, m, axis=list(range(n)))] + ([ops.ttm(t, m, skip_matrices_index=0)] if n > 1 else []))
                pairs = [(oracle.wide(M), i) for i, M in enumerate(Ms)]
                for got, ps in zip(a, (pairs, pairs[1:])):
                    oracle.close(ctx, 'ttm', got, oracle.ttm(oracle.wide(X), ps), oracle.ttm(np.abs(oracle.wide(X)), [(abs(M), i) for M, i in ps]),
                                 40, 'float32', 'ttm after a rejected call')
                ctx.sig(k, c['shape'], axis, skip)
            else:
                s2 = other_shape(c['shape'], c['v'], r)
                Y = gen.array(c['seed'] + 1, s2, 'float32')
                Z = gen.array(c['seed'] + 2, c['shape'], 'float32')
                y, z = g.t(Y, c['form']), g.t(Z, c['form'])
                if k == 'inner':
                    fs = [('inner', ops.inner, ValueError, lambda P, Q: (P * Q).sum())]
                else:
                    fs = [('rmse', loss.rmse, TensorErr, lambda P, Q: np.sqrt(((P - Q) ** 2).mean())),
                          ('rmse_ignore_zero', loss.rmse_ignore_zero, TensorErr, lambda P, Q: np.sqrt(((P - Q) ** 2)[P != 0].mean()))]
                for name, f, exc, ref in fs:
                    ctx.expect(exc, lambda: f(t, y), '%s of shapes %s and %s' % (name, c['shape'], s2))
                    ctx.expect(exc, lambda: f(y, t), '%s of shapes %s and %s' % (name, s2, c['shape']))
                    with ctx.sut('valid %s' % name):
                        got = g.run(f(t, z))
                    P, Q = oracle.wide(X), oracle.wide(Z)
                    mag = np.abs(P * Q).sum() if k == 'inner' else ref(P, Q)
                    oracle.close(ctx, name, got, np.asarray(ref(P, Q)), np.asarray(mag), X.size, 'float32', '%s after a rejected call' % name)
                ctx.sig(k, c['shape'], s2)
        ctx.ev('valid_neighbours')
    elif k == 'reader':
        from ctypes import ArgumentError
        from tensorD.dataproc.reader import TensorReader
        ext = ['json', 'dat', 'tsv', 'csv.gz', 'npy', 'xls'][c['v']]
        base = os.path.join(os.getcwd(), 'r%d' % c['seed'])
        body = '0,0,1.5\n1,2,-2.0\n'
        for e in (ext, 'csv', 'txt'):
            with open(base + '.' + e, 'w') as f:
                f.write(body)
        with gen.G() as g:
            bad = TensorReader(base + '.' + ext)
            ctx.expect(ArgumentError, bad.read, 'reading a .%s file' % ext)
            ctx.expect(ArgumentError, lambda: bad.read([3, 3]), 'reading a .%s file again' % ext)
            for e in ('csv', 'txt'):
                with ctx.sut('reading a .%s file' % e):
                    ok = TensorReader(base + '.' + e)
                    ok.read()
                    got = g.run(ok.full_data)
                ctx.check(np.array_equal(got, [[1.5, 0, 0], [0, 0, -2.0]]), 'reading after a rejected file gives %s' % got.tolist())
                ctx.ev('valid_neighbours')
        for e in (ext, 'csv', 'txt'):
            os.remove(base + '.' + e)
        ctx.sig(k, ext)
    elif k == 'pitf':
        from tensorD.base import pitf_ops as P, pitf_ops_numpy as N
        shp = [int(x) for x in r.integers(1, 5, 3)]
        m = int(r.integers(1, 6))
        spl = [r.integers(0, d, m).astype(np.int32) for d in shp]
        bad = [None, 3, -1, '0', 5, 'A'][c['v']]
        y = r.normal(size=m).astype(np.float32)
        M = r.normal(size=(shp[0], shp[1])).astype(np.float32)
        with gen.G() as g:
            s = [g.t(v) for v in spl]
            ctx.expect(ValueError, lambda: P.Pomega_mat(s, g.t(M), shp, m, bad), 'Pomega_mat(dim=%r)' % (bad,))
            ctx.expect(ValueError, lambda: P.adjoint_operator(s, g.t(y), shp, m, bad), 'adjoint_operator(dim=%r)' % (bad,))
            if bad is None:
                ctx.expect(ValueError, lambda: P.Pomega_mat(s, g.t(M), shp, m), 'Pomega_mat() without dim')
                ctx.expect(ValueError, lambda: P.adjoint_operator(s, g.t(y), shp, m), 'adjoint_operator() without dim')
            with ctx.sut('valid sampling operators'):
                a, b = g.run([P.Pomega_mat(s, g.t(M), shp, m, 0), P.adjoint_operator(s, g.t(y), shp, m, 0)])
        ref = np.zeros(shp[:2])
        np.add.at(ref, (spl[0], spl[1]), y.astype(float))
        ctx.check(np.allclose(a, M[spl[0], spl[1]] / np.sqrt(shp[2]), rtol=1e-5, atol=1e-6) and np.allclose(b, ref, rtol=1e-5, atol=1e-5),
                  'sampling operators after a rejected call')
        ctx.ev('valid_neighbours')
        ctx.sig(k, shp, m, bad)
    elif k == 'predict':
        from rtm import train
        kind = c['kind']
        X = r.random((3, 4, 2)).astype(np.float32) + .1
        with gen.G(3):
            h = train.Harness(kind, X, [2, 2, 2], tol=0)
            for idx in ((0, 0, 0), (2, 3, 1)):
                ctx.expect(TensorErr, lambda: h.model.predict(*idx), '%s.predict before build_model' % kind)
            with ctx.sut('%s.build_model' % kind):
                h.build()
            ctx.expect(TensorErr, lambda: h.model.predict(1, 1, 1), '%s.predict before train' % kind)
            with ctx.sut('%s.train' % kind):
                h.train(1 + c['v'])
            with ctx.sut('%s.predict after training' % kind):
                v = h.model.predict(1, 2, 1)
            ctx.check(v == np.asarray(h.model.full)[1, 2, 1], '%s.predict is not the entry of the full tensor' % kind)
        ctx.ev('valid_neighbours')
        ctx.sig(k, kind, c['v'])
    else:
        from tensorD.factorization.factorization import BaseFact
        from tensorD.dataproc.provider import Provider
        b = BaseFact()
        for name, f in (('build_model', lambda: b.build_model(None)), ('train', b.train), ('train(3)', lambda: b.train(3)),
                        ('predict', lambda: b.predict(0, 0)), ('full', lambda: b.full()), ('Provider.full_tensor', lambda: Provider().full_tensor()),
                        ('Provider.data_queue', lambda: Provider().data_queue()), ('Provider.batch_size', lambda: Provider().batch_size)):
            ctx.expect(NotImplementedError, f, 'abstract %s' % name)
        ctx.ev('assertions')
        ctx.sig(k)
