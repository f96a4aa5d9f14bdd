"""C36 extents known only at run time: what is built from such tensors is right for every size it is fed with, or refused."""
import contextlib, io
import numpy as np
from rtm import gen, oracle
RULE = ('one case = one operation (or tensor type, loss, pairwise operator) built once on placeholders of which any extents, or even the order, are '
        'unknown when the graph is built, and then run in one session with operands of three different sizes; each result is compared with the '
        'definition on the values fed, or the library (or TensorFlow) raised; distinct by (operation, order, pattern of unknown extents, outcome); '
        'non-trivial = at least one unknown extent')
ASSUMPTIONS = ['most of the library needs extents that are known when the graph is built and raises otherwise: that is a right answer', 'the operands fed agree with each other']
REQUIRED = ['assertions', 'built', 'right_for_unknown_extents', 'sizes_compared', 'unknown_extents', 'unknown_order', 'same_static_extents'] + \
           ['op_' + x for x in ('unfold', 'fold', 't2mat', 'vectorize', 'vec_to_tensor', 'mul', 'inner', 'ttm', 'hadamard', 'kron', 'khatri', 'smax', 'xcb', 'dtensor', 'ktensor', 'ttensor', 'loss',
                                'centre', 'svt', 'shrink', 'omega', 'cone')]
OPS = [x[3:] for x in REQUIRED if x.startswith('op_')]


def cases(tier, rng):
    res = []
    for i in range(2640 if tier == 'quick' else 60000):
        res.append(dict(op=OPS[i % len(OPS)], order=rng.choice([1, 2, 3, 3, 4, 5]), seed=rng.randrange(2 ** 31), dtype=rng.choice(['float32', 'float64']),
                        unknown=rng.choice(['some', 'some', 'some', 'parts', 'parts', 'all', 'all', 'order', 'none'])))
    return res


def run(c, ctx):
    import tensorflow as tf
    r = np.random.default_rng(c['seed'])
    dt, op = np.dtype(c['dtype']), c['op']
    if op in ('centre', 'svt', 'shrink', 'omega', 'cone'):
        dt = np.dtype('float32')
    order = c['order']
    env = dict(order=order)
    names, plan = layout(op, order, r, env)          # named extents: the operands share them
    sizes = [{n: int(r.integers(1, 5)) for n in names} for _ in range(3)]
    # which of the extents are unknown: an extent that is known is the same in all sizes
    u = c['unknown']
    unk = {n: u in ('all', 'order') or (u == 'some' and r.random() < 0.5) for n in names}
    if u == 'some' and names and not any(unk.values()):
        unk[names[int(r.integers(len(names)))]] = True
    for n in names:
        if not unk[n] or op in ('fold', 'vec_to_tensor'):      # (their shape is given by the caller)
            for d in sizes[1:]:
                d[n] = sizes[0][n]
    if r.random() < 0.3 and op not in ('fold', 'vec_to_tensor'):        # some known extent coincides with one of the sizes of an unknown one
        e = int(r.integers(1, 5))
        for n in names:
            if not unk[n]:
                for d in sizes:
                    d[n] = e
        for n in names:
            if unk[n]:
                sizes[int(r.integers(3))][n] = e
    for d in sizes:
        if 'one' in d:
            d['one'] = 1
    env['shape'] = [sizes[0][n] for n in names]
    feeds = []
    for k, d in enumerate(sizes):
        q = np.random.default_rng(c['seed'] + 7 * k + 1)
        vals = []
        for shp in plan:
            a = q.normal(size=[d[n] for n in shp])
            if q.random() < 0.2:
                a[q.random(a.shape) < 0.4] = 0
            if a.size and not a.any():
                a = a + 1
            if op == 'fold':
                a = oracle.unfold(a, env['mode'])
            elif op == 'vec_to_tensor':
                a = a.reshape(-1)
            vals.append(a.astype(dt))
        feeds.append(vals)
    with gen.G() as g:
        ps, hidden = [], False
        for shp in plan:
            hide = r.random() < dict(some=0.3, parts=0.5).get(u, 0)          # known from another operand, but not from this one
            hidden = hidden or hide
            st = [None if unk[n] or (hide and r.random() < 0.6) else sizes[0][n] for n in shp]
            if op in ('fold', 'vec_to_tensor'):
                st = [None if any(unk.values()) and r.random() < 0.7 else n for n in feeds[0][0].shape]
            ps.append(tf.placeholder(dt.name, None if u == 'order' and r.random() < 0.6 else st))
        ctx.ev('unknown_extents', any(unk.values())); ctx.ev('unknown_order', any(p.get_shape().ndims is None for p in ps))
        ctx.ev('same_static_extents', not any(unk.values()))
        f = BUILD[op]
        ctx.ev('op_' + op)
        what = '%s of %s, unknown: %s' % (op, [str(p.get_shape()) for p in ps], [n for n in names if unk[n]])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ts, ref = f(ps, r, env)
        except Exception as e:
            ctx.ev('refused_when_built')
            ctx.check(any(unk.values()) or hidden or u == 'order', '%s: %s: %s, although every extent is known' % (what, type(e).__name__, str(e)[:200]))
            ctx.ev('assertions')
            ctx.sig(op, order, [unk[n] for n in names], 'refused')
            return
        ctx.ev('built')
        n_ops = len(g.g.get_operations())
        with tf.Session(graph=g.g) as s:
            for d, vals in list(zip(sizes, feeds)) + [(sizes[0], feeds[0])]:
                try:
                    got = s.run(ts, feed_dict=dict(zip(ps, vals)))
                except Exception as e:
                    ctx.ev('refused_when_run')
                    ctx.check(any(unk.values()) or hidden or u == 'order', '%s fed with %s: %s: %s, although every extent is known' % (what, [v.shape for v in vals], type(e).__name__, str(e)[:200]))
                    ctx.ev('assertions')
                    continue
                ctx.ev('sizes_compared'); ctx.ev('right_for_unknown_extents', any(unk.values()))
                want = ref(*[oracle.wide(v) for v in vals])
                mags = ref(*[np.abs(oracle.wide(v)) for v in vals]) if op not in EXACT else want
                scale = max(np.abs(v).max() for v in vals)
                for x, w, m in zip(got, want, mags):
                    x, w = np.asarray(x), np.asarray(w)
                    if not ctx.check(x.shape == w.shape, '%s fed with %s: the result has shape %s, not %s' % (what, [v.shape for v in vals], x.shape, w.shape)):
                        continue
                    m = np.maximum(np.abs(np.asarray(m)), np.abs(w))
                    tol = 400 * np.finfo(dt).eps * (m + (max(np.max(m), scale) if op in SPECTRAL and m.size else 0)) + 1e-30
                    e = np.abs(x - w)
                    ctx.peak('error %s' % op, float((e / tol).max()) if e.size else 0.0)
                    ctx.check((e <= tol).all(), '%s fed with %s: the result is off by %.3g' % (what, [v.shape for v in vals], e.max() if e.size else 0), got=x.tolist(), want=w.tolist())
    if any(unk.values()):
        ctx.sig(op, order, [unk[n] for n in names], 'built')


EXACT = {'centre', 'svt', 'shrink', 'cone', 'loss', 'smax', 'dtensor'}
SPECTRAL = {'svt', 'shrink', 'smax', 'centre', 'loss', 'cone', 'dtensor'}


def layout(op, order, r, env):
    """names of the extents, and the extents of every operand"""
    modes = ['n%d' % k for k in range(order)]
    if op in ('unfold', 'vectorize', 't2mat'):
        return modes, [modes]
    if op in ('fold', 'vec_to_tensor'):
        env['mode'] = int(r.integers(order))
        return modes, [modes]       # (fed flattened, see below)
    if op in ('inner', 'loss', 'dtensor'):
        return modes, [modes, modes]
    if op == 'mul':
        k = env['k'] = int(r.integers(0, min(order, 2) + 1))
        b = ['m%d' % j for j in range(int(r.integers(1, 3)))]
        return modes + b, [modes, modes[:k] + b]
    if op == 'ttm':
        return modes + ['r%d' % k for k in range(order)], [modes] + [['r%d' % k, 'n%d' % k] for k in range(order)]
    if op == 'ttensor':
        return modes + ['r%d' % k for k in range(order)], [['r%d' % k for k in range(order)]] + [['n%d' % k, 'r%d' % k] for k in range(order)]
    if op == 'ktensor':
        env['weights'] = w = int(r.integers(3))
        return modes + ['r'] + ['one'] * (w == 2), [[m, 'r'] for m in modes] + [[], [['r']], [['r', 'one']]][w]
    if op == 'hadamard':
        return ['a', 'b'], [['a', 'b']] * max(1, order)
    if op in ('kron', 'smax'):
        n = min(3, order)
        return ['a%d' % k for k in range(n)] + ['b%d' % k for k in range(n)], [['a%d' % k, 'b%d' % k] for k in range(n)]
    if op == 'khatri':
        n = min(4, order)
        return ['a%d' % k for k in range(n)] + ['r'], [['a%d' % k, 'r'] for k in range(n)]
    if op == 'xcb':
        return ['i', 'j', 'k', 'r'], [['i', 'j', 'k'], ['k', 'r'], ['j', 'r']]
    if op in ('centre', 'svt', 'shrink'):
        return ['a', 'b'], [['a', 'b']]
    if op == 'omega':
        return ['i', 'j', 'k'], [['i', 'j', 'k']]
    if op == 'cone':
        return ['a'], [['a']]
    raise KeyError(op)


def b_unfold(ps, r, env):
    from tensorD.base import ops
    t = ps[0]
    n = t.get_shape().ndims or 1
    m = int(r.integers(n))
    return [ops.unfold(t, m), ops.unfold(t, 0)], lambda x: [oracle.unfold(x, m), oracle.unfold(x, 0)]


def b_fold(ps, r, env):
    from tensorD.base import ops
    m, shape = env['mode'], env['shape']
    return [ops.fold(ps[0], m, list(shape))], lambda x: [oracle.fold(x, m, shape)]


def b_t2mat(ps, r, env):
    from tensorD.base import ops
    t = ps[0]
    n = t.get_shape().ndims or 2
    ax = [int(x) for x in r.permutation(n)]
    k = int(r.integers(0, n + 1))
    rows, cols = ax[:k], ax[k:]
    short = r.random() < 0.5
    cc = sorted(cols) if short else cols
    return [ops.t2mat(t, rows, -1 if short else cols)], lambda x: [oracle.t2mat(x, rows, cc)]


def b_vectorize(ps, r, env):
    from tensorD.base import ops
    return [ops.vectorize(ps[0])], lambda x: [x.reshape(-1)]


def b_vec(ps, r, env):
    from tensorD.base import ops
    shape = env['shape']
    return [ops.vec_to_tensor(ps[0], list(shape))], lambda x: [x.reshape(shape)]


def b_mul(ps, r, env):
    from tensorD.base import ops
    ax = [int(x) for x in r.permutation(env['k'])]
    return [ops.mul(ps[0], ps[1], list(ax), list(ax))], lambda x, y: [np.tensordot(x, y, (ax, ax))]


def b_inner(ps, r, env):
    from tensorD.base import ops
    return [ops.inner(ps[0], ps[1])], lambda x, y: [np.array((x * y).sum())]


def b_ttm(ps, r, env):
    from tensorD.base import ops
    n = len(ps) - 1
    modes = [int(x) for x in r.permutation(n)][:int(r.integers(1, n + 1))]
    how = int(r.integers(3))
    if how == 0:
        return [ops.ttm(ps[0], [ps[1 + m] for m in modes], axis=list(modes))], lambda x, *M: [oracle.ttm(x, [(M[m], m) for m in modes])]
    if how == 1 and n > 1:
        return [ops.ttm(ps[0], ps[1:], skip_matrices_index=modes[0])], lambda x, *M: [oracle.ttm(x, [(M[m], m) for m in range(n) if m != modes[0]])]
    return [ops.ttm(ps[0], ps[1:])], lambda x, *M: [oracle.ttm(x, [(b, a) for a, b in enumerate(M)])]


def b_hadamard(ps, r, env):
    from tensorD.base import ops
    from functools import reduce
    return [ops.hadamard(list(ps))], lambda *M: [reduce(np.multiply, M)]


def b_kron(ps, r, env):
    from tensorD.base import ops
    rev = bool(r.random() < 0.5)
    return [ops.kron(list(ps), reverse=rev)], lambda *M: [oracle.kron(list(M)[::-1] if rev else list(M))]


def b_khatri(ps, r, env):
    from tensorD.base import ops
    rev = bool(r.random() < 0.5)
    return [ops.khatri(list(ps), reverse=rev)], lambda *M: [oracle.khatri(list(M)[::-1] if rev else list(M))]


def b_smax(ps, r, env):
    from tensorD.base import ops
    return [ops.max_single_value_mul(list(ps))], lambda *M: [np.array(np.prod([np.linalg.norm(m, 2) for m in M]))]


def b_xcb(ps, r, env):
    from tensorD.base import ops
    return [ops.xcb(*ps)], lambda X, C, B: [np.einsum('ijk,kr,jr->ir', X, C, B)]


def b_dtensor(ps, r, env):
    from tensorD.base.type import DTensor
    a, b = DTensor(ps[0]), DTensor(ps[1])
    n = ps[0].get_shape().ndims or 1
    m = int(r.integers(n))
    k = int(r.integers(3))
    if k == 0:
        return [a.unfold(m).T, (a + b).T, (a - b).T, (a * b).T], lambda x, y: [oracle.unfold(x, m), x + y, x - y, x * y]
    if k == 1:
        return [a.vectorize().T, (a + b).vectorize().T], lambda x, y: [x.reshape(-1), (x + y).reshape(-1)]
    return [(a + ps[1]).T, (b * ps[0]).T, (a - 2).T], lambda x, y: [x + y, x * y, x - 2]


def b_ktensor(ps, r, env):
    from tensorD.base.type import KTensor
    n = env['order']
    t = KTensor(list(ps[:n]), ps[n]).extract() if env['weights'] else KTensor(list(ps)).extract()
    return [t], lambda *U: [oracle.kruskal(list(U[:n]), U[n] if env['weights'] else None)]


def b_ttensor(ps, r, env):
    from tensorD.base.type import TTensor
    return [TTensor(ps[0], list(ps[1:])).extract()], lambda g, *U: [oracle.tucker(g, list(U))]


def b_loss(ps, r, env):
    from tensorD import loss
    k = ['l2', 'rmse', 'rmse_ignore_zero'][int(r.integers(3))]
    t = getattr(loss, k)(ps[0], ps[1])

    def ref(x, y):
        d = (x - y) ** 2
        return [np.array(0.5 * d.sum() if k == 'l2' else np.sqrt(d.mean()) if k == 'rmse' else np.sqrt(d[x != 0].sum() / (x != 0).sum()))]
    return [t], ref


def b_centre(ps, r, env):
    from tensorD.base import pitf_ops as P
    return [P.centralization(ps[0])], lambda x: [x - x.mean(axis=0, keepdims=True)]


def svd(x, tau):
    C = x - x.mean(axis=0, keepdims=True)
    u, s, v = np.linalg.svd(C, full_matrices=False)
    return u, np.maximum(s - tau, 0), v


def b_svt(ps, r, env):
    from tensorD.base import pitf_ops as P
    tau = float(np.float32(r.uniform(0, 1.5)))
    s, u, v = P.SVT(ps[0], tau)
    return [s], lambda x: [svd(x, tau)[1]]


def b_shrink(ps, r, env):
    from tensorD.base import pitf_ops as P
    tau = float(np.float32(r.uniform(0, 1.5)))
    mode = ['normal', 'complicated'][int(r.integers(2))]

    def ref(x):
        u, s, v = svd(x, tau)
        q = np.sqrt(x.size)
        d = x.sum() / q
        return [(u * s) @ v + (np.sign(d) * max(abs(d) - tau, 0) / q if mode == 'complicated' else 0)]
    return [P.shrink(ps[0], tau, mode=mode)], ref


def b_omega(ps, r, env):
    from tensorD.base import pitf_ops as P
    import tensorflow as tf
    # every size has the first entry; the samples count from it
    sp = [tf.constant(np.zeros(4, np.int32)) for _ in range(3)]
    m = [P.Pomega_tensor(sp, ps[0], 4)] + [P.Pomega_mat(sp, ps[0][:, :, 0], [9, 9, 9], 4, 0)][:int(r.integers(2))]
    return m, lambda x: [np.full(4, x[0, 0, 0]), np.full(4, x[0, 0, 0] / 3)][:len(m)]


def b_cone(ps, r, env):
    from tensorD.base import pitf_ops as P
    import tensorflow as tf
    t = float(np.float32(r.normal()))
    a = P.cone_projection_operator(ps[0], tf.constant(t))

    def ref(x):
        n = np.linalg.norm(x)
        if n <= t:
            return [x, np.array(t)]
        if n <= -t:
            return [np.zeros_like(x), np.array(0.0)]
        return [x * (t + n) / (2 * n), np.array((t + n) / 2)]
    return list(a), ref


BUILD = dict(unfold=b_unfold, fold=b_fold, t2mat=b_t2mat, vectorize=b_vectorize, vec_to_tensor=b_vec, mul=b_mul, inner=b_inner, ttm=b_ttm, hadamard=b_hadamard, kron=b_kron,
             khatri=b_khatri, smax=b_smax, xcb=b_xcb, dtensor=b_dtensor, ktensor=b_ktensor, ttensor=b_ttensor, loss=b_loss, centre=b_centre, svt=b_svt, shrink=b_shrink, omega=b_omega, cone=b_cone)
