"""C01 unfold / fold: index-formula oracle, bit-exact comparison."""
from rtm import gen, oracle
RULE = ('one case = one tensor (order 1..16, extents incl. 1, 11 element types, NaN/inf/-0 patterns, constant/placeholder/'
        'variable) x one mode, all (order, mode, dtype) triples enumerated up to order 6, tensors up to a million entries; the operations are built at top level, or '
        'first inside a conditional / a loop and then again outside it on the same tensor; distinct by (shape, mode, dtype, '
        'form, value kind, place); non-trivial = at least 2 entries')
ASSUMPTIONS = ['static shapes, as everywhere in the library']
REQUIRED = ['assertions', 'unfold_observed', 'fold_observed', 'order_above_9', 'large_tensors', 'reused_outside_conditional', 'reused_outside_loop']


def cases(tier, rng):
    out = []
    for order in range(1, 7):
        for mode in range(order):
            for dt in gen.MOVE_DTYPES:
                out.append((order, mode, dt))
    k = 1500 if tier == 'quick' else 25000
    for _ in range(k):
        order = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16])
        out.append((order, rng.randrange(order), rng.choice(gen.MOVE_DTYPES)))
    res = []
    for order, mode, dt in out:
        res.append(dict(shape=gen.shape(rng, order, cap=500), mode=mode, dtype=dt, form=rng.choice(gen.FORMS),
                        kind=rng.choice(['normal', 'special', 'index', 'sparse']), seed=rng.randrange(2 ** 31),
                        stype=rng.choice(['list', 'tuple']), place=rng.choice(['top'] * 6 + ['cond', 'loop']),
                        modes=[rng.randrange(order) for _ in range(2)]))
    for i in range(40 if tier == 'quick' else 400):
        order = 1 + i % 6
        res.append(dict(shape=gen.large(rng, order), mode=rng.randrange(order), dtype=rng.choice(gen.MOVE_DTYPES), form=rng.choice(gen.FORMS),
                        kind=rng.choice(['normal', 'special']), seed=rng.randrange(2 ** 31), stype=rng.choice(['list', 'tuple']), place='top',
                        modes=[rng.randrange(order)]))
    return res


def run(c, ctx):
    from tensorD.base import ops
    X = gen.array(c['seed'], c['shape'], c['dtype'], c['kind'])
    n = c['mode']
    shp = (list if c['stype'] == 'list' else tuple)(c['shape'])
    M = gen.array(c['seed'] + 1, oracle.unfold(X, n).shape, c['dtype'], c['kind'])
    with gen.G() as g:
        # (TensorFlow never finishes a loop that uses a reference variable of TF 1)
        t, m = g.t(X, 'ph' if c['place'] == 'loop' and c['form'] == 'var' else c['form']), g.t(M, c['form'])
        inner, outer = [], []
        ms = [n] + c['modes']
        if c['place'] != 'top':
            tf = g.tf
            if c['place'] == 'cond':
                p = tf.placeholder(tf.bool, [])
                g.feed[p] = bool(c['seed'] % 2)
                with ctx.sut('unfold/fold inside tf.cond'):
                    inner = tf.cond(p, lambda: [ops.fold(ops.unfold(t, k), k, shp) for k in ms] + [ops.unfold(t, k) for k in ms],
                                    lambda: [ops.fold(ops.unfold(t, k), k, shp) for k in ms] + [ops.unfold(t, k) for k in ms])
            else:
                def body(i, *_):
                    r = [ops.fold(ops.unfold(t, k), k, shp) for k in ms] + [ops.unfold(t, k) for k in ms]
                    return [i + 1] + r
                with ctx.sut('unfold/fold inside tf.while_loop'):
                    z = [tf.zeros(c['shape'], t.dtype.base_dtype) for _ in ms] + \
                        [tf.zeros(oracle.unfold(X, k).shape, t.dtype.base_dtype) for k in ms]
                    inner = tf.while_loop(lambda i, *_: i < 2, body, [tf.constant(0)] + z)[1:]
            with ctx.sut('unfold/fold after the same inside tf.%s' % c['place']):
                outer = [ops.unfold(t, k) for k in ms]
                ctx.ev('reused_outside_conditional' if c['place'] == 'cond' else 'reused_outside_loop')
        with ctx.sut('unfold/fold'):
            u = ops.unfold(t, n) if (n or c['seed'] % 2) else ops.unfold(t)
            f = ops.fold(u, n, shp)
            fm = ops.fold(m, n, shp)
            ufm = ops.unfold(fm, n)
            gu, gf, gfm, gufm, gi, go = g.run([u, f, fm, ufm, list(inner), outer])
    for k, v in zip(ms, gi[:len(ms)]):
        ctx.check(oracle.same_bits(v, X), 'fold(unfold(X)) is not X inside tf.%s (mode=%d)' % (c['place'], k))
    for k, v in zip(ms * 2, list(gi[len(ms):]) + list(go)):
        ctx.check(oracle.same_bits(v, oracle.unfold(X, k)), 'unfold(mode=%d) inside and outside tf.%s is not the Kolda unfolding' % (k, c['place']))
    ctx.ev('order_above_9', X.ndim > 9)
    ctx.ev('large_tensors', X.size >= 5000)
    ctx.ev('unfold_observed', 2); ctx.ev('fold_observed', 2)
    ctx.check(oracle.same_bits(gu, oracle.unfold(X, n)), 'unfold(mode=%d) is not the Kolda unfolding' % n)
    ctx.check(oracle.same_bits(gf, X), 'fold(unfold(X)) is not X (mode=%d)' % n)
    ctx.check(oracle.same_bits(gfm, oracle.fold(M, n, c['shape'])), 'fold(mode=%d) misplaces entries' % n)
    ctx.check(oracle.same_bits(gufm, M), 'unfold(fold(M)) is not M (mode=%d)' % n)
    ctx.check(list(shp) == list(c['shape']), 'the shape argument was modified')
    if X.size > 1:
        ctx.sig(c['shape'], n, c['dtype'], c['form'], c['kind'], c['place'])
