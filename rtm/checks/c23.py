"""C23 independence of scheduling: thread counts, injected operation delays, concurrent trainings."""
import random, threading, time
import numpy as np
from rtm import gen, pairwise, train
RULE = ('one case = one model, tensor and seed, trained undisturbed and then under 6..8 schedules: other thread pools, random delays (0.2-6 ms) put '
        'on up to 40 operation inputs with the control dependencies kept, and 2-4 trainings at the same time in threads; results '
        'compared with the undisturbed one; distinct by (model, shape, ranks, schedules); non-trivial = always. '
        'The delay probe records the order in which delayed operations ran: distinct orders are counted')
ASSUMPTIONS = ['results compared to a relative 2e-3 on trainings of at most 4 steps (bit-identical in most runs)',
               'a delayed copy of an operation input is taken when all control dependencies and all other inputs of the operation are there']
REQUIRED = ['assertions', 'delays_executed', 'thread_settings', 'concurrent_trainings', 'delay_orders', 'delayed_trainings', 'cp', 'ncp', 'nt', 'hosvd', 'hooi', 'pitf']


def cases(tier, rng):
    res = []
    for i in range(70 if tier == 'quick' else 900):
        kind = train.KINDS[i % 5]
        order = rng.choice([2, 3, 3, 3, 4, 5])
        shp = train.shape_of(rng, order, maxd=6, cap=200, mind=2)
        res.append(dict(kind=kind, shape=shp, ranks=[2] if kind in ('cp', 'ncp') else train.tucker_ranks(rng, shp, kind), seed=rng.randrange(2 ** 31),
                        gseed=rng.randrange(1, 10 ** 6), steps=rng.choice([2, 3, 4]), data=rng.choice(['uniform', 'noisycp', 'normal']),
                        threads=[[rng.choice([1, 2, 4, 8]), rng.choice([1, 2, 4, 8, 16])] for _ in range(2)], dseed=rng.randrange(10 ** 9),
                        nconc=rng.choice([2, 3, 4]), concgraph=rng.choice(['own', 'own', 'same'])))
    for i in range(5 if tier == 'quick' else 40):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 3))
    for i in range(8 if tier == 'quick' else 80):
        res.append(dict(kind='pitf', shape=[rng.randint(2, 4) for _ in range(3)], seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), steps=rng.choice([2, 4, 6]),
                        threads=[[rng.choice([1, 2, 8]), rng.choice([1, 2, 4, 16])]], dseed=rng.randrange(10 ** 9), nconc=rng.choice([2, 3]),
                        m=dict(kind='pitf', rank=2, delt=rng.choice([0.05, 0.1, 0.3]), tao=rng.choice([0.01, 0.1]), spn=rng.choice([6, 9]), vi=rng.choice([-1, 2]))))
    return res


class Delays(object):
    """puts sleeping pass-through operations on inputs of operations of the graph"""

    def __init__(self, seed, n, style):
        self.rng, self.n, self.style = random.Random(seed), n, style
        self.order, self.lock = [], threading.Lock()
        self.count = 0

    def install(self, graph, mode=None):
        import tensorflow as tf
        ops = [o for o in graph.get_operations()]
        edges = []
        for o in ops:
            if o.type in ('Placeholder', 'Const', 'NoOp', 'PyFunc', 'MergeSummary', 'ScalarSummary'):
                continue
            for i, t in enumerate(o.inputs):
                if t.dtype == tf.float32 and not t.dtype._is_ref_dtype and t.op.type not in ('Const',):
                    edges.append((o, i, t))
        if self.style == 'reads':
            pref = [e for e in edges if e[2].op.type in ('Identity', 'ReadVariableOp')]
        elif self.style == 'assigns':
            pref = [e for e in edges if e[0].type.startswith('Assign')]
        else:
            pref = edges
        self.rng.shuffle(pref)
        with graph.as_default():
            for k, (o, i, t) in enumerate(pref[:self.n]):
                d = self.rng.choice([0.0002, 0.001, 0.003, 0.006])

                def wait(x, k=k, d=d):
                    time.sleep(d)
                    with self.lock:
                        self.order.append(k)
                        self.count += 1
                    return np.array(x, copy=True)
                with graph.control_dependencies(None):
                    # the operation would not run before its control inputs and its other inputs are there: nor may the copy
                    with graph.control_dependencies(list(o.control_inputs) + [x.op for q, x in enumerate(o.inputs) if q != i]):
                        p = tf.py_func(wait, [t], t.dtype)
                p.set_shape(t.get_shape())
                o._update_input(i, p)


def run_pitf(c, ctx):
    import tensorflow as tf
    X = train.data(dict(shape=c['shape'], kind='uniform', seed=c['seed']))
    ctx.ev('pitf')
    r = random.Random(c['dseed'])

    def make(seed):
        g = gen.G(seed)
        with g:
            h = pairwise.Pitf(X, c['m'], files=False)
            with ctx.sut('PITF build'):
                h.build()
        return g, h

    def run_in(g, h, label):
        with g:
            with ctx.sut('PITF train (%s)' % label):
                return h.train(c['steps'], capture=False)
    base = run_in(*make(c['gseed']), 'undisturbed')

    def compare(got, label):
        d = pairwise.differ(base, got)
        ctx.ev('schedules')
        ctx.check(d is None, 'PITF: %s gives other results: %s' % (label, d))
    for intra, inter in c['threads']:
        train.CONFIG[0] = lambda: tf.ConfigProto(intra_op_parallelism_threads=intra, inter_op_parallelism_threads=inter)
        try:
            got = run_in(*make(c['gseed']), '%d/%d threads' % (intra, inter))
        finally:
            train.CONFIG[0] = None
        ctx.ev('thread_settings')
        compare(got, '%d/%d threads' % (intra, inter))
    for style in ('reads', 'any', 'any'):
        g, h = make(c['gseed'])
        d = Delays(r.randrange(10 ** 9), r.choice([8, 20, 40]), style)
        d.install(g.g)
        inter = r.choice([2, 8, 16])
        train.CONFIG[0] = lambda: tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=inter)
        try:
            got = run_in(g, h, 'delays')
        finally:
            train.CONFIG[0] = None
        ctx.ev('delays_executed', d.count); ctx.ev('delayed_trainings', d.count > 0)
        compare(got, '%d delays on %s with %d threads' % (d.n, style, inter))
    pairs = [make(c['gseed'] + j) for j in range(c['nconc'])]
    errs, got = [], {}
    start = threading.Barrier(len(pairs))

    def work(j, g, h):
        try:
            start.wait()
            with g.g.as_default():
                got[j] = h.train(c['steps'], capture=False)
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=work, args=(j, *p)) for j, p in enumerate(pairs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.ev('concurrent_trainings', len(ts))
    with ctx.sut('concurrent PITF training'):
        if errs:
            raise errs[0]
    compare(got[0], '%d concurrent trainings' % len(ts))
    for j in range(1, len(pairs)):
        d = pairwise.differ(run_in(*pairs[j], 'afterwards alone'), got[j])
        ctx.check(d is None, 'PITF: concurrent training %d differs from the same training afterwards: %s' % (j, d))
    ctx.sig('pitf', c['shape'], c['m'], c['dseed'])


def run(c, ctx):
    import tensorflow as tf
    if c['kind'] == 'pitf':
        return run_pitf(c, ctx)
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed']))
    kind = c['kind']
    ctx.ev(kind)
    r = random.Random(c['dseed'])

    def make(seed):
        g = gen.G(seed)
        with g:
            h = train.Harness(kind, X, list(c['ranks']), tol=0.0)
            with ctx.sut('build'):
                h.build()
        return g, h

    def run_in(g, h, label):
        with g:
            with ctx.sut('%s train (%s)' % (kind, label)):
                h.train(c['steps'])
        return h.snap(), h.hist
    base, bhist = run_in(*make(c['gseed']), 'undisturbed')

    def compare(s, hist, label):
        w = train.same(base, s)
        ctx.ev('schedules'); ctx.ev('bit_identical', w == 0.0)
        ctx.peak('schedule', (w if w is not None else 9) / 2e-3)
        ctx.check(w is not None and w <= 2e-3, '%s: %s gives a result that differs by %s' % (kind, label, w))
        if kind != 'hosvd':
            a, b = np.asarray(bhist, dtype=float), np.asarray(hist, dtype=float)
            ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=2e-3, atol=2e-3 * (np.abs(a).max() + 1e-6)), '%s: %s gives another history' % (kind, label))
    for intra, inter in c['threads']:
        train.CONFIG[0] = lambda: tf.ConfigProto(intra_op_parallelism_threads=intra, inter_op_parallelism_threads=inter)
        try:
            s, hist = run_in(*make(c['gseed']), '%d/%d threads' % (intra, inter))
        finally:
            train.CONFIG[0] = None
        ctx.ev('thread_settings')
        compare(s, hist, '%d/%d threads' % (intra, inter))
    for j, style in enumerate(['reads', 'assigns', 'any', 'any']):
        g, h = make(c['gseed'])
        d = Delays(r.randrange(10 ** 9), r.choice([8, 20, 40]), style)
        d.install(g.g)
        inter = r.choice([2, 8, 16])
        train.CONFIG[0] = lambda: tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=inter)
        try:
            s, hist = run_in(g, h, 'delays')
        finally:
            train.CONFIG[0] = None
        ctx.ev('delays_executed', d.count); ctx.ev('delayed_trainings', d.count > 0)
        key = ('o', kind, len(c['shape']), tuple(d.order[:200]))
        if d.count > 1 and key not in _orders:
            _orders.add(key)
            ctx.ev('delay_orders')
        compare(s, hist, '%d delays on %s with %d threads' % (d.n, style, inter))
    # several trainings at the same time
    pairs = [make(c['gseed'] if j == 0 else c['gseed'] + j) for j in range(c['nconc'])] if c['concgraph'] == 'own' else None
    if pairs is None:
        g = gen.G(c['gseed'])
        pairs = []
        for j in range(c['nconc']):
            with g:
                h = train.Harness(kind, X, list(c['ranks']), tol=0.0)
                with ctx.sut('build'):
                    h.build()
            pairs.append((g, h))
    errs = []
    start = threading.Barrier(len(pairs))

    def work(g, h):
        try:
            rr = random.Random(r.random())
            start.wait()
            with g.g.as_default():
                h.train(c['steps'], watch=lambda when, sess, x, n: time.sleep(rr.choice([0, 0, 0.001, 0.004])))
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=work, args=p) for p in pairs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.ev('concurrent_trainings', len(ts))
    with ctx.sut('concurrent training'):
        if errs:
            raise errs[0]
    compare(pairs[0][1].snap(), pairs[0][1].hist, '%d concurrent trainings (%s graph)' % (len(ts), c['concgraph']))
    for j in range(1, len(pairs)):
        got, gh = pairs[j][1].snap(), pairs[j][1].hist
        ref, rh = run_in(*pairs[j], label='afterwards alone')
        w = train.same(got, ref)
        ctx.check(w is not None and w <= 2e-3, '%s: concurrent training %d differs by %s from the same training afterwards' % (kind, j, w))
    ctx.sig(kind, c['shape'], c['ranks'], c['threads'], c['dseed'])


_orders = set()
