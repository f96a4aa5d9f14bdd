"""C25 fault enumeration: every session call of a training fails once, before and after it executed; truthfulness of train_finish."""
import contextlib, io, os
import numpy as np
from rtm import gen, train
RULE = ('one case = one model and configuration; a fault is injected at every session call of its training (before and after execution, '
        'cycling through exception types), inside the computation graph (an operation that raises at its k-th execution), in the summary '
        'writer (its directory, and each of its methods), in the standard output and in the provider; each is followed by a training that must give the undisturbed result; distinct by (model, '
        'configuration, fault site); non-trivial = a fault that fired')
ASSUMPTIONS = ['results after a failure compared to a relative 2e-3 (bit-identical in practice)', 'when only the final line or the closing of the log fails, the state may be either']
REQUIRED = ['assertions', 'faults_fired', 'kinds_of_faults', 'state_probes', 'recoveries', 'recoveries_from_another_thread', 'graph_faults', 'stream_faults', 'log_faults', 'writer_faults', 'provider_faults', 'cp', 'ncp', 'nt', 'hosvd', 'hooi', 'pitf']
LEVEL = 'fault_enumeration'


def cases(tier, rng):
    res = []
    for i in range(45 if tier == 'quick' else 500):
        kind = train.KINDS[i % 5]
        shp = train.shape_of(rng, rng.choice([2, 3, 3, 4]), maxd=5, cap=100, mind=2)
        res.append(dict(kind=kind, shape=shp, ranks=train.ranks_for(rng, kind, shp), seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6),
                        vi=rng.choice([-1, 2]), verbose=rng.random() < 0.2, steps=rng.choice([1, 2, 3, 4, 6]), trained_before=rng.random() < 0.5,
                        data=rng.choice(['uniform', 'normal', 'noisycp']), exc=rng.randrange(30)))
    for i in range(3 if tier == 'quick' else 16):
        res.append(dict(kind='pitf', shape=[2, 3, 2], spn=6, steps=3, seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), exc=i))
    for i in range(2 if tier == "quick" else 10):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]["kind"], 2))
    return res


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


def exceptions(tf):
    return [lambda: Boom('injected'), lambda: tf.errors.InternalError(None, None, 'injected'), lambda: KeyboardInterrupt('injected'), lambda: MemoryError('injected'),
            lambda: tf.errors.ResourceExhaustedError(None, None, 'injected'), lambda: Halt('injected'), lambda: StopIteration('injected'),
            lambda: ValueError('injected'), lambda: tf.errors.OutOfRangeError(None, None, 'injected'), lambda: SystemExit(3),
            lambda: tf.errors.InvalidArgumentError(None, None, 'injected'), lambda: tf.errors.AbortedError(None, None, 'injected'),
            lambda: tf.errors.CancelledError(None, None, 'injected'), lambda: tf.errors.FailedPreconditionError(None, None, 'injected'),
            lambda: tf.errors.UnavailableError(None, None, 'injected'), lambda: tf.errors.DeadlineExceededError(None, None, 'injected'),
            lambda: tf.errors.NotFoundError(None, None, 'injected'), lambda: tf.errors.UnknownError(None, None, 'injected'),
            lambda: np.linalg.LinAlgError('injected'), lambda: FloatingPointError('injected'), lambda: OSError(28, 'injected'), lambda: RuntimeError('injected'),
            lambda: TypeError('injected'), lambda: KeyError('injected'), lambda: IndexError('injected'), lambda: AttributeError('injected'), lambda: GeneratorExit('injected'),
            lambda: AssertionError('injected'), lambda: TimeoutError('injected'), lambda: ZeroDivisionError('injected')]


def flag(m):
    f = m.train_finish
    return f() if callable(f) else f


def attempt(ctx, h, steps, site, make, probes, finished):
    """train with a fault at session call site = (number, when); returns whether it fired"""
    fired = []

    def watch(when, sess, x, n):
        probes.append(flag(h.model))
        if (n, when) == site and not fired:
            e = make()
            fired.append(e)
            raise e
    try:
        h.train(steps, watch=watch)
    except BaseException as e:
        if not fired:
            raise
        # Python itself turns a StopIteration that crosses a generator into a RuntimeError
        conv = isinstance(fired[0], StopIteration) and isinstance(e, RuntimeError) and e.__cause__ is fired[0]
        ctx.check(e is fired[0] or conv, 'fault at %s: the caller gets %s: %s instead of the injected %s' % (site, type(e).__name__, str(e)[:200], type(fired[0]).__name__))
    else:
        if fired:
            ctx.fail('fault %s at session call %s is swallowed: train returns' % (type(fired[0]).__name__, site))
    return bool(fired)


def run(c, ctx):
    import tensorflow as tf
    kind = c['kind']
    ctx.ev(kind)
    if kind == 'pitf':
        return run_pitf(c, ctx)
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed']))
    X0 = X.copy()
    ex = exceptions(tf)

    def new(graph_fault=None):
        h = train.Harness(kind, X, list(c['ranks']), tol=0.0, vi=c['vi'], verbose=c['verbose'])
        ctx.check(not flag(h.model), '%s reports a finished training before it is built' % kind)
        with ctx.sut('build'):
            h.build()
        ctx.check(not flag(h.model), '%s reports a finished training before the first one' % kind)
        ctx.ev('state_probes', 2)
        return h
    with gen.G(c['gseed']):
        h = new()
        calls = []
        with ctx.sut('train'):
            h.train(c['steps'], watch=lambda when, s, x, n: calls.append((n, when, flag(h.model))))
        base, bhist, total = h.snap(), h.hist, h.runs
        ctx.check(flag(h.model) is True or flag(h.model) == True, '%s does not report its finished training' % kind)
        bad = [q for q in calls if q[2]]
        ctx.ev('state_probes', len(calls) + 1)
        ctx.check(not bad, '%s reports a finished training during the first training, at session calls %s' % (kind, bad[:3]))
    sites = [(n, w) for n in range(1, total + 1) for w in ('pre', 'post')]
    g = gen.G(c['gseed'])
    with g:
        h = new()
        if c['trained_before']:
            with ctx.sut('train'):
                h.train(c['steps'])
        for q, site in enumerate(sites):
            probes = []
            fin = flag(h.model)
            fired = attempt(ctx, h, c['steps'], site, ex[(q + c['exc']) % len(ex)], probes, fin)
            ctx.ev('faults_fired', fired); ctx.ev('state_probes', len(probes) + 1)
            ctx.check(not any(probes), '%s reports a finished training while training (fault to come at %s)' % (kind, site))
            if fired:
                ctx.check(not flag(h.model), '%s reports a finished training after one that failed at session call %s' % (kind, site))
            ctx.check(np.array_equal(X, X0), '%s: the failed training changed the input' % kind)
            if q % 3 == 2 or q >= len(sites) - 2:
                recover(ctx, h, c, base, bhist, 'a failure at session call %s' % (site,))
        # every kind of exception at some of the calls: one anywhere, one before the last ones, one after a call
        for site in [(1 + c['seed'] % total, 'pre'), (max(1, total - 1 - c['seed'] % 2), 'pre'), (1 + (c['seed'] >> 8) % total, 'post')]:
            for make in ex:
                probes = []
                fired = attempt(ctx, h, c['steps'], site, make, probes, None)
                ctx.ev('faults_fired', fired); ctx.ev('kinds_of_faults', fired); ctx.ev('state_probes', len(probes) + 1)
                ctx.check(not any(probes), '%s reports a finished training while training (fault to come at %s)' % (kind, site))
                ctx.check(not fired or not flag(h.model), '%s reports a finished training after one that failed with %s at session call %s' % (kind, type(make()).__name__, site))
            recover(ctx, h, c, base, bhist, 'failures of every kind at session call %s' % (site,))
    # a failing operation inside the computation
    with gen.G(c['gseed']) as g:
        h = new()
        cand = [(o, i, t) for o in g.g.get_operations() for i, t in enumerate(o.inputs)
                if o.type in ('MatMul', 'BatchMatMulV2', 'Einsum', 'Reshape', 'Mul', 'Sub', 'Svd', 'Transpose', 'Sum') and t.dtype == tf.float32 and t.op.type != 'Const']
        o, i, t = cand[c['seed'] % len(cand)]
        state = dict(count=0, at=1 + c['exc'] % 2, fired=0)

        def raise_at(x):
            state['count'] += 1
            if state['count'] == state['at']:
                state['fired'] += 1
                raise ValueError('injected into the computation')
            return np.array(x, copy=True)
        with g.g.control_dependencies(list(o.control_inputs) + [x.op for q, x in enumerate(o.inputs) if q != i]):
            p = tf.py_func(raise_at, [t], t.dtype)
        p.set_shape(t.get_shape())
        o._update_input(i, p)
        try:
            h.train(c['steps'])
        except Exception as e:
            ctx.check(state['fired'] and 'injected into the computation' in str(e), 'a failing operation %s surfaces as %s: %s' % (o.name, type(e).__name__, str(e)[:200]))
            ctx.check(not flag(h.model), '%s reports a finished training after an operation failed' % kind)
            ctx.ev('graph_faults'); ctx.ev('faults_fired')
            recover(ctx, h, c, base, bhist, 'a failing operation %s' % o.name)
        else:
            ctx.check(not state['fired'], 'the failure of operation %s is swallowed' % o.name)
    with gen.G(c['gseed']):
        h = new()
        outside(ctx, h, c, kind, ex, lambda what: recover(ctx, h, c, base, bhist, what))
    # a summary directory that cannot be created
    with gen.G(c['gseed']):
        blocker = os.path.join(os.getcwd(), 'file%d' % next(train._uid))
        open(blocker, 'w').close()
        h = train.Harness(kind, X, list(c['ranks']), tol=0.0, vi=c['vi'], verbose=c['verbose'], sumdir=os.path.join(blocker, 'sub'))
        with ctx.sut('build'):
            h.build()
        if c['trained_before']:
            pass
        try:
            h.train(c['steps'])
        except Exception as e:
            ctx.ev('writer_faults'); ctx.ev('faults_fired')
            ctx.check(not flag(h.model), '%s reports a finished training although the summary directory could not be created' % kind)
            os.remove(blocker)
            recover(ctx, h, c, base, bhist, 'a summary directory that could not be created')
        else:
            ctx.fail('%s: a summary directory that cannot be created goes unnoticed' % kind)
    # a provider that fails
    with gen.G(c['gseed']):
        from tensorD.dataproc.provider import Provider
        prov = Provider()
        err = Boom('no data')

        def full():
            raise err
        prov.full_tensor = full
        h = train.Harness(kind, X, list(c['ranks']), tol=0.0, vi=c['vi'], verbose=c['verbose'], provider=prov)
        try:
            h.build()
        except Exception as e:
            ctx.ev('provider_faults'); ctx.ev('faults_fired')
            ctx.check(e is err, 'a failing provider surfaces as %s' % e)
            ctx.check(not flag(h.model), '%s reports a finished training although it could not be built' % kind)
            prov.full_tensor = lambda: X
            with ctx.sut('build after the provider failed'):
                h.build()
            recover(ctx, h, c, None, None, 'a failing provider')
        else:
            try:
                h.train(c['steps'])
                ctx.fail('a failing provider goes unnoticed')
            except Boom as e:
                ctx.ev('provider_faults')
                ctx.check(e is err and not flag(h.model), 'a failing provider surfaces as %s' % e)
    ctx.ev('assertions')
    ctx.sig(kind, c['shape'], c['ranks'], c['vi'], c['verbose'], c['steps'], len(sites))


class Stream(io.StringIO):
    """standard output whose k-th write fails"""
    def __init__(self, at=None, exc=None):
        super().__init__()
        self.n, self.at, self.exc, self.fired = 0, at, exc, False

    def write(self, s):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise self.exc
        return super().write(s)


@contextlib.contextmanager
def log_fault(method, at, exc):
    """the at-th call of a method of the summary writer fails"""
    import tensorflow as tf
    cls = tf.summary.FileWriter
    state = dict(n=0, fired=False)
    old = getattr(cls, method)

    def failing(self, *a, **kw):
        state['n'] += 1
        if state['n'] == at:
            state['fired'] = True
            old(self, *a, **kw) if method == 'close' else None
            raise exc
        return old(self, *a, **kw)
    own = method in cls.__dict__
    setattr(cls, method, failing)
    try:
        yield state
    finally:
        setattr(cls, method, old) if own else delattr(cls, method)


def outside(ctx, h, c, kind, ex, again):
    """failures of what a training writes to: standard output, the summary log"""
    r = np.random.default_rng(c['seed'] + 77)
    m = h.model
    out = Stream()
    with ctx.sut('train'), contextlib.redirect_stdout(out):
        h.train(c['steps'])
    n = out.n
    for at in sorted({1, max(1, n - 1), n, int(r.integers(1, n + 1)), int(r.integers(1, n + 1))} if n else []):
        e = [OSError(28, 'No space left on device'), BrokenPipeError(32, 'Broken pipe'), Boom('injected')][int(r.integers(3))]
        out = Stream(at, e)
        judge_fault(ctx, h, c, kind, e, lambda: out.fired, 'write %d of %d to standard output' % (at, n), contextlib.redirect_stdout(out), at <= n - 2)
        ctx.ev('stream_faults', out.fired)
    again('failures of the standard output')
    for method in ('add_summary', 'add_graph', 'close', 'flush', '__init__'):
        with log_fault(method, None, None) as s, contextlib.redirect_stdout(io.StringIO()):
            with ctx.sut('train'):
                h.train(c['steps'])
        for at in sorted({1, s['n'], int(r.integers(1, s['n'] + 1))} if s['n'] else []):
            e = [OSError(28, 'No space left on device'), Boom('injected')][int(r.integers(2))]
            cm = log_fault(method, at, e)
            q = cm.__enter__()
            try:
                judge_fault(ctx, h, c, kind, e, lambda: q['fired'], '%s call %d of the summary writer' % (method, at), contextlib.redirect_stdout(io.StringIO()), method != 'close')
            finally:
                cm.__exit__(None, None, None)
            ctx.ev('log_faults', q['fired'])
    again('failures of the summary writer')


def judge_fault(ctx, h, c, kind, e, fired, what, cm, early):
    # (when all is done but the last line or the closing of the log, whether that counts as a finished training is left open)
    try:
        with cm:
            h.train(c['steps'])
    except BaseException as x:
        if not fired():
            raise
        ctx.check(x is e, 'a failure of %s surfaces in the training of %s as %s: %s' % (what, kind, type(x).__name__, str(x)[:200]))
        ctx.check(not early or not flag(h.model), '%s reports a finished training after one that failed at %s' % (kind, what))
        ctx.ev('faults_fired')
    else:
        ctx.check(not fired(), 'a failure of %s is swallowed by the training of %s' % (what, kind))
    ctx.ev('assertions')


def tf_graph():
    import tensorflow as tf
    return tf.get_default_graph()


def recover(ctx, h, c, base, bhist, what):
    other = ctx.events.get('recoveries', 0) % 2
    with ctx.sut('training after %s%s' % (what, ', from another thread' if other else '')):
        if other:
            train.elsewhere(tf_graph(), lambda: h.train(c['steps']))
        else:
            h.train(c['steps'])
    ctx.ev('recoveries'); ctx.ev('recoveries_from_another_thread', other)
    ctx.check(bool(flag(h.model)), '%s does not report the training that succeeded after %s' % (c['kind'], what))
    if base is None:
        ctx.check(h.model.full is not None and np.isfinite(h.model.full).all(), '%s: nothing is published after %s' % (c['kind'], what))
        return
    w = train.same(base, h.snap())
    ctx.check(w is not None and w <= 2e-3, '%s: training after %s gives a result that differs by %s from the undisturbed one' % (c['kind'], what, w))
    if c['kind'] != 'hosvd':
        a, b = np.asarray(bhist, dtype=float), np.asarray(h.hist, dtype=float)
        ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=2e-3, atol=1e-3 * (np.abs(a).max() + 1e-6)), '%s: training after %s gives another history' % (c['kind'], what))


def run_pitf(c, ctx):
    import tensorflow as tf
    from tensorD.factorization.env import Environment
    from tensorD.factorization.pitf import PITF
    from tensorD.dataproc.provider import Provider
    train.install()
    X = train.data(dict(shape=c['shape'], kind='uniform', seed=c['seed']))
    ex = exceptions(tf)
    with gen.G(c['gseed']):
        p = Provider()
        t = tf.constant(X)
        p.full_tensor = lambda: t
        m = PITF(Environment(p, summary_path=os.path.join(os.getcwd(), 'pitf%d' % next(train._uid))))
        ctx.check(not flag(m), 'PITF reports a finished training before it is built')
        with ctx.sut('PITF build'):
            m.build_model(PITF.PITF_Args(rank=2, delt=0.8, tao=0.5, sample_num=c['spn']))
        ctx.check(not flag(m), 'PITF reports a finished training before the first one')

        class H(object):
            model = m
            runs = 0

            def train(self, steps, watch=None):
                n = [0]

                def hook(when, sess, x):
                    n[0] += when == 'pre'
                    if watch:
                        watch(when, sess, x, n[0])
                train.hooks().append(hook)
                try:
                    m.train(steps)
                finally:
                    train.hooks().remove(hook)
                    self.runs = n[0]
        h = H()
        with ctx.sut('PITF train'):
            h.train(c['steps'])
        ctx.check(bool(flag(m)), 'PITF does not report its finished training')
        total = h.runs
        for q, site in enumerate([(n, w) for n in range(1, total + 1) for w in ('pre', 'post')]):
            probes = []
            fired = attempt(ctx, h, c['steps'], site, ex[(q + c['exc']) % len(ex)], probes, None)
            ctx.ev('faults_fired', fired); ctx.ev('state_probes', len(probes) + 1)
            ctx.check(not any(probes), 'PITF reports a finished training while training (fault to come at %s)' % (site,))
            ctx.check(not fired or not flag(m), 'PITF reports a finished training after one that failed at %s' % (site,))
            with ctx.sut('PITF training after a failure'):
                h.train(c['steps'])
            ctx.ev('recoveries')
            ctx.check(bool(flag(m)), 'PITF does not report the training that succeeded after a failure')
        def again(what):
            with ctx.sut('PITF training after %s' % what), contextlib.redirect_stdout(io.StringIO()):
                h.train(c['steps'])
            ctx.ev('recoveries')
            ctx.check(bool(flag(m)), 'PITF does not report the training that succeeded after %s' % what)
        outside(ctx, h, c, 'PITF', ex, again)
    ctx.sig('pitf', c['seed'])
