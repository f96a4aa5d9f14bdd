"""C20 inputs are left alone, and only their values matter."""
import numpy as np
from rtm import gen, oracle, pairwise, train
RULE = ('one case = one model and tensor, trained once as a plain float32 array and then in 5..8 other representations of the same values; the bytes of every '
        'array the provider hands out and of the objects passed as ranks are compared before and after, and the results with the plain ones; '
        'distinct by (model, shape, ranks, data kind, representations); non-trivial = more than one entry')
ASSUMPTIONS = ['values representable in single precision', 'results compared bit for bit']
REQUIRED = ['assertions', 'inputs_watched', 'representations', 'cp', 'ncp', 'nt', 'hosvd', 'hooi', 'pitf_np', 'scribbled_results', 'large_integers']
REPS = ['F', 'strided', 'reversed', 'transposed', 'readonly', 'float64', 'bigendian', 'float64F', 'broadcast', 'offset', 'int32', 'int64', 'uint8', 'float16',
        'bool', 'subclass', 'int16', 'uint16', 'uint32', 'longdouble', 'big64', 'memmap']


def cases(tier, rng):
    res = []
    for i in range(110 if tier == 'quick' else 1500):
        kind = train.KINDS[i % 5]
        order = rng.choice([2, 3, 3, 4])
        shp = train.shape_of(rng, order, maxd=5, cap=150)
        data = rng.choice(['int', 'int', 'bigint', 'normal', 'uniform', 'sparse_mixed', 'zslice', 'bool'])
        res.append(dict(kind=kind, shape=shp, ranks=train.ranks_for(rng, kind, shp), seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6),
                        data=data, steps=rng.choice([1, 2, 4]), reps=rng.sample(REPS, 8), ranktype=rng.choice(['list', 'tuple', 'array'])))
    for i in range(5 if tier == 'quick' else 50):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 8))
    for i in range(8 if tier == 'quick' else 80):
        res.append(dict(kind='pitf_np', shape=[rng.randint(2, 5) for _ in range(3)], seed=rng.randrange(2 ** 31), steps=rng.choice([1, 3, 8]), data=rng.choice(['int', 'uniform', 'sparse']),
                        m=dict(kind='np', rank=rng.choice([1, 2]), delt=0.1, tao=rng.choice([0.01, 0.1]), spn=rng.choice([6, 20]), npseed=rng.randrange(2 ** 31)),
                        reps=['F', 'strided', 'reversed', 'transposed', 'readonly', 'subclass', 'offset', 'memmap', 'int32', 'int64', 'int16', 'big64', 'bigendian8']))
    return res


class Sub(np.ndarray):
    pass


def rep(X, name):
    """(array, the object that owns the memory) or None if these values do not fit"""
    if name == 'F':
        a = np.asfortranarray(X)
    elif name == 'strided':
        base = np.full([2 * n for n in X.shape], 7.5, dtype=X.dtype)
        a = base[tuple(slice(0, None, 2) for _ in X.shape)]
        a[...] = X
    elif name == 'reversed':
        a = X[tuple(slice(None, None, -1) for _ in X.shape)].copy()[tuple(slice(None, None, -1) for _ in X.shape)]
    elif name == 'transposed':
        a = X.transpose(range(X.ndim)[::-1]).copy().transpose(range(X.ndim)[::-1])
    elif name == 'readonly':
        a = X.copy(); a.setflags(write=False)
    elif name == 'bigendian':
        a = X.astype('>f4')
    elif name == 'float64F':
        a = np.asfortranarray(X.astype(np.float64))
    elif name == 'broadcast':
        if not np.array_equal(X, np.broadcast_to(X[:1], X.shape)):
            return None
        a = np.broadcast_to(X[:1].copy(), X.shape)
    elif name == 'offset':
        buf = np.zeros(X.nbytes + 1, dtype=np.uint8)
        a = np.ndarray(X.shape, X.dtype, buf.data, offset=1)
        a[...] = X
    elif name == 'big64':
        a = X.astype('>i8')
        if not np.array_equal(a.astype(np.float32), X):
            return None
    elif name == 'memmap':
        a = np.memmap('data.bin', X.dtype, 'w+', shape=X.shape)
        a[...] = X
        a.flush()
    elif name == 'subclass':
        a = X.copy().view(Sub)
    else:
        with np.errstate(all='ignore'):
            a = X.astype(name)
        if not np.array_equal(a.astype(np.float32), X):
            return None
    return a


def run_np(c, ctx):
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'])).astype(np.float64)

    def go(a, label):
        before = (np.array(a, copy=True).tobytes(), a.shape, a.dtype, a.strides, a.flags.writeable)
        h = pairwise.PitfNp(X, c['m'])
        h.X = a
        with ctx.sut('exact_recovery with %s data' % label):
            r = h.train(c['steps'])
        ctx.ev('inputs_watched')
        ctx.check((np.array(a, copy=True).tobytes(), a.shape, a.dtype, a.strides, a.flags.writeable) == before, 'exact_recovery changed the %s input array' % label)
        return r
    base = go(X.copy(), 'plain')
    done = []
    for name in c['reps']:
        a = X.astype('>f8') if name == 'bigendian8' else rep(X, name)
        if a is None:
            continue
        d = pairwise.differ(base, go(a, name), rtol=1e-9)
        done.append(name)
        ctx.ev('representations'); ctx.ev('rep_' + name)
        ctx.check(d is None, 'exact_recovery: %s data gives other results than the same values as plain array: %s' % (name, d))
    ctx.ev('pitf_np')
    ctx.sig('pitf_np', c['shape'], c['data'], c['m'], done)


def run(c, ctx):
    if c['kind'] == 'pitf_np':
        return run_np(c, ctx)
    if c['data'] == 'bool':
        X = (train.data(dict(shape=c['shape'], kind='uniform', seed=c['seed'])) < 0.5).astype(np.float32)
        X.reshape(-1)[0] = 1
        if c['seed'] % 2:
            X = np.ascontiguousarray(np.broadcast_to(X[:1], X.shape))
    elif c['data'] == 'bigint':
        r = np.random.default_rng(c['seed'])
        X = (r.integers(0, 2 ** 24, c['shape']) >> r.integers(0, 16, c['shape'])).astype(np.float32)
        ctx.ev('large_integers')
    else:
        X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed']))
    kind = c['kind']

    def go(a, label, scribble=False):
        before = (np.array(a, copy=True).tobytes(), a.shape, a.dtype, a.strides, a.flags.writeable)
        ranks = list(c['ranks'])
        ranks = tuple(ranks) if c['ranktype'] == 'tuple' else np.array(ranks) if c['ranktype'] == 'array' and kind != 'nt' else ranks
        if kind in ('cp', 'ncp'):
            ranks = list(c['ranks'])
        keep = list(ranks)
        with gen.G(c['gseed']):
            h = train.Harness(kind, a, ranks, tol=0.0)
            with ctx.sut('%s with %s data' % (kind, label)):
                h.build().train(c['steps'])
            ctx.ev('inputs_watched')
            ctx.check((np.array(a, copy=True).tobytes(), a.shape, a.dtype, a.strides, a.flags.writeable) == before, '%s: training changed the %s input array' % (kind, label))
            ctx.check(list(ranks) == keep, '%s: training changed the ranks object' % kind)
            s, hist = h.snap(), np.asarray(h.hist if h.hist is not None else 0, dtype=float)
            if scribble:
                m = h.model
                outs = list(m.factors) + [m.full] + ([m.core] if kind not in ('cp', 'ncp') else [])
                for o in outs:
                    if isinstance(o, np.ndarray):
                        ctx.check(not np.shares_memory(o, a), '%s: a published array shares memory with the input' % kind)
                        if o.flags.writeable:
                            o[...] = -77
                            ctx.ev('scribbled_results')
                ctx.check((np.array(a, copy=True).tobytes(), a.shape, a.dtype, a.strides, a.flags.writeable) == before,
                          '%s: writing to the results changed the input' % kind)
                with ctx.sut('train again'):
                    h.train(c['steps'])
                w = train.same(s, h.snap())
                ctx.ev('retrained_after_scribble')
                # another draw of the random start in the same graph; only shapes and finiteness can be compared
                ctx.check(w is not None and np.isfinite(w), '%s: training after writing to the results gives other shapes' % kind)
        return s, hist
    ctx.ev(kind)
    s0, h0 = go(X.copy(), 'plain')
    go(X.copy(), 'plain', scribble=True)
    done = []
    for name in c['reps']:
        a = rep(X, name)
        if a is None:
            continue
        assert np.array_equal(np.asarray(a, dtype=np.float32), X)
        s, hist = go(a, name)
        done.append(name)
        ctx.ev('representations'); ctx.ev('rep_' + name)
        w = train.same(s0, s)
        ctx.check(w == 0.0 and np.array_equal(h0, hist), '%s: %s data gives other results than the same values as plain float32 (difference %s)' % (kind, name, w))
    if X.size > 1:
        ctx.sig(kind, c['shape'], c['ranks'], c['data'], done)
