"""C02 t2mat / vectorize / vec_to_tensor, including reuse of the same argument objects."""
from rtm import gen, oracle
RULE = ('one case = one tensor and a history of 1..4 flattenings that reuse the same axis-list objects, with ordered '
        'partitions of the axes given as int/list/tuple/-1; distinct by (shape, dtype, partitions, argument kinds); '
        'non-trivial = order >= 2')
ASSUMPTIONS = ['row and column axes form a partition of the axes']
REQUIRED = ['assertions', 't2mat_observed', 'args_reused', 'large_tensors']


def cases(tier, rng):
    res = []
    small = 2500 if tier == 'quick' else 30000
    for i in range(small + (40 if tier == 'quick' else 400)):
        order = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 10, 12]) if i < small else 1 + i % 6
        calls = []
        for _ in range(rng.randint(1, 4)):
            ax = list(range(order)); rng.shuffle(ax)
            k = rng.choice([0, 1, 1, order, rng.randint(0, order)])
            r, cc = ax[:k], ax[k:]
            ck = rng.choice(['list', 'tuple', '-1', 'int'])
            if ck == '-1':
                cc = sorted(cc)
            if ck == 'int' and len(cc) != 1:
                ck = 'list'
            rk = rng.choice(['list', 'tuple', 'int', 'list'])
            if rk == 'int' and len(r) != 1:
                rk = 'list'
            calls.append([r, rk, cc, ck])
        res.append(dict(shape=gen.shape(rng, order, cap=300) if i < small else gen.large(rng, order), dtype=rng.choice(gen.MOVE_DTYPES), form=rng.choice(gen.FORMS),
                        kind=rng.choice(['normal', 'special', 'index']), seed=rng.randrange(2 ** 31), calls=calls,
                        reuse=rng.random() < 0.7))
    return res


def mk(v, k):
    return {'list': lambda: list(v), 'tuple': lambda: tuple(v), 'int': lambda: v[0] if v else None, '-1': lambda: -1}[k]()


def run(c, ctx):
    from tensorD.base import ops
    X = gen.array(c['seed'], c['shape'], c['dtype'], c['kind'])
    with gen.G() as g:
        t = g.t(X, c['form'])
        fetch, refs = [], []
        for r, rk, cc, ck in c['calls']:
            ra, ca = mk(r, rk), mk(cc, ck)
            for rep in range(2 if c['reuse'] else 1):
                with ctx.sut('t2mat(%r, %r)' % (ra, ca)):
                    fetch.append(ops.t2mat(t, ra, ca))
                refs.append((oracle.t2mat(X, r, cc), 't2mat(r_axis=%r, c_axis=%r)%s' % (mk(r, rk), mk(cc, ck),
                                                                                      ', arguments used again' if rep else '')))
                if rep:
                    ctx.ev('args_reused')
                ctx.check(ra == mk(r, rk) and ca == mk(cc, ck), 't2mat modified the axis lists of its caller: %r %r' % (ra, ca))
        with ctx.sut('vectorize'):
            v = ops.vectorize(t)
            shp = list(c['shape'])
            b = ops.vec_to_tensor(v, shp if c['seed'] % 2 else tuple(shp))
            w = gen.array(c['seed'] + 1, [X.size], c['dtype'], c['kind'])
            bw = ops.vec_to_tensor(g.t(w, c['form']), shp)
            vb = ops.vectorize(bw)
        with ctx.sut('running flattenings'):
            got, gv, gb, gbw, gvb = g.run([fetch, v, b, bw, vb])
    ctx.ev('large_tensors', X.size >= 5000)
    for o, (ref, what) in zip(got, refs):
        ctx.ev('t2mat_observed')
        ctx.check(oracle.same_bits(o, ref), '%s misplaces entries' % what)
    ctx.check(oracle.same_bits(gv, X.reshape(-1)), 'vectorize is not row-major')
    ctx.check(oracle.same_bits(gb, X), 'vec_to_tensor(vectorize(X)) is not X')
    ctx.check(oracle.same_bits(gbw, w.reshape(c['shape'])), 'vec_to_tensor is not row-major')
    ctx.check(oracle.same_bits(gvb, w), 'vectorize(vec_to_tensor(v)) is not v')
    if len(c['shape']) > 1:
        ctx.sig(c['shape'], c['dtype'], c['calls'], c['form'])
