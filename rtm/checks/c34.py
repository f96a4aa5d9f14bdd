"""C34 ambient state: process and graph state that belongs to the caller, compared before and after every use of the library."""
import contextlib, gc, io, locale, logging, os, random, signal, sys, warnings
import numpy as np
from rtm import gen, train
RULE = ('one case = 4..9 uses of the library (building and training models, operations, losses, tensors, readers, generators, pairwise operators, rejected '
        'calls, failing trainings) in one process and graph; the state that belongs to the caller is compared after each of them; distinct by the '
        'sequence; non-trivial = at least two uses')
ASSUMPTIONS = ['generators that are documented to draw from NumPy consume its global generator', 'the pairwise models write their text logs to the working directory',
               'operations are added to the current default graph, and to no other']
REQUIRED = ['assertions', 'uses', 'trainings', 'failed_trainings', 'early_stops', 'operations', 'generators', 'reader', 'losses', 'pairwise', 'rejected', 'own_session_alive',
            'orders_varied', 'reseeding_compared', 'foreign_graphs_compared']
TXT = {'pitf_y.txt', 'pitf_e2.txt', 'np_e2.txt', 'np_y.txt', 'np_X.txt'}


def cases(tier, rng):
    res = []
    for i in range(90 if tier == 'quick' else 1200):
        acts = []
        for j in range(rng.randint(4, 9)):
            a = rng.choice(['train', 'train', 'fail', 'ops', 'ops', 'type', 'loss', 'reader', 'data', 'data', 'pair_np', 'pair_tf', 'pitf_np', 'pitf', 'reject'])
            if a == 'pitf' and rng.random() < 0.7:
                a = 'train'
            acts.append(dict(a=a, kind=train.KINDS[(i + j) % 5], seed=rng.randrange(2 ** 31), vi=rng.choice([-1, 2]), verbose=rng.random() < 0.2, steps=rng.choice([1, 2, 4, 7]), tol=rng.choice([0.0, 0.0, 0.9, 10.0])))
        res.append(dict(acts=acts, gseed=rng.randrange(1, 10 ** 6), seed=rng.randrange(2 ** 31), session=rng.random() < 0.5, scope=rng.random() < 0.4))
    return res


def rngs():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def ambient(tf, g, where):
    """everything of the process and of the graph that belongs to the caller (and not the draws from NumPy's generator)"""
    d = {}
    d['Python random state'] = random.getstate()
    d['NumPy error handling'] = tuple(sorted(np.geterr().items()))
    d['NumPy print options'] = tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    d['working directory'] = os.getcwd()
    d['environment variables'] = tuple(sorted(os.environ.items()))
    d['umask'] = umask()
    d['recursion limit'] = sys.getrecursionlimit()
    d['sys.path'] = tuple(sys.path)
    d['standard streams'] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    d['warning filters'] = tuple(map(str, warnings.filters))
    d['signal handlers'] = tuple(str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1))
    d['locale'] = locale.setlocale(locale.LC_ALL)
    d['garbage collector'] = (gc.isenabled(), gc.get_threshold())
    root = logging.getLogger()
    d['logging'] = (root.level, len(root.handlers), logging.root.manager.disable, logging.getLogger('users.own').disabled)
    d['exception hook'] = id(sys.excepthook)
    d['default graph'] = id(tf.get_default_graph())
    d['default session'] = id(tf.get_default_session())
    d['graph seed'] = g.seed
    d['graph finalised'] = g.finalized
    d['name scope'] = g.get_name_scope()
    d['variable scope'] = tf.get_variable_scope().name
    d['control dependencies'] = tuple(o.name for o in g._current_control_dependencies())
    d['device'] = str(tf.constant(0).device) if not g.finalized else ''
    d['graph under construction'] = (tf.executing_eagerly(), tf.get_default_graph() is g)
    d['TensorFlow verbosity'] = tf.logging.get_verbosity()
    return d


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def graph_of(g, n):
    return [(o.name, o.type, [t.name for t in o.inputs], [q.name for q in o.control_inputs]) for o in g.get_operations()[:n]]


def run(c, ctx):
    import tensorflow as tf
    from rtm import core
    os.makedirs('amb', exist_ok=True)
    home = os.getcwd()
    R = np.random.default_rng(c['seed'])
    with unusual(tf, random.Random(c['seed'])):
        uses(c, ctx, tf, R, home)


@contextlib.contextmanager
def unusual(tf, r):
    """settings a caller may have made: unlike the defaults, so that a library that sets defaults is seen too"""
    err, po, um, rl, gct, vb = np.geterr(), np.get_printoptions(), umask(), sys.getrecursionlimit(), gc.get_threshold(), tf.logging.get_verbosity()
    lv, lc = logging.getLogger().level, locale.setlocale(locale.LC_ALL)
    try:
        if r.random() < 0.8:
            np.seterr(**{k: r.choice(['warn', 'ignore', 'print']) for k in ('divide', 'over', 'under', 'invalid')})
        if r.random() < 0.8:
            np.set_printoptions(precision=r.choice([3, 5, 11]), suppress=r.random() < 0.5, linewidth=r.choice([60, 90, 120]), threshold=r.choice([500, 2000]))
        if r.random() < 0.8:
            os.umask(r.choice([0o27, 0o77, 0o02]))
        if r.random() < 0.8:
            sys.setrecursionlimit(rl + r.choice([100, 1000]))
        if r.random() < 0.8:
            gc.set_threshold(gct[0] + r.choice([10, 200]), 11, 12)
        if r.random() < 0.3:
            gc.disable()
        if r.random() < 0.5:
            tf.logging.set_verbosity(r.choice([tf.logging.ERROR, tf.logging.FATAL]))
        if r.random() < 0.5:
            logging.getLogger().setLevel(logging.ERROR)
        if r.random() < 0.5:
            os.environ['THEIRS'] = 'x'
        with warnings.catch_warnings():
            if r.random() < 0.8:
                warnings.filterwarnings('ignore', message='of theirs')
            yield
    finally:
        np.seterr(**err)
        np.set_printoptions(**po)
        os.umask(um)
        sys.setrecursionlimit(rl)
        gc.set_threshold(*gct)
        gc.enable()
        tf.logging.set_verbosity(vb)
        logging.getLogger().setLevel(lv)
        os.environ.pop('THEIRS', None)
        locale.setlocale(locale.LC_ALL, lc)


def uses(c, ctx, tf, R, home):
    foreign = tf.Graph()
    with foreign.as_default():
        tf.set_random_seed(3)
        tf.Variable(np.ones(3, np.float32), name='theirs')
    with gen.G(c['gseed']) as G:
        g = G.g
        v = tf.Variable(np.arange(4, dtype=np.float32), name='own')
        w = tf.Variable(7.0, name='A-0')
        own = tf.Session(graph=g)
        own.run(tf.variables_initializer([v, w]))
        own.run(v.assign([4, 3, 2, 1]))
        n_own, n_foreign = len(g.get_operations()), len(foreign.get_operations())
        ops_own, ops_foreign = graph_of(g, n_own), graph_of(foreign, n_foreign)
        with contextlib.ExitStack() as st:
            if c['session']:
                st.enter_context(own.as_default())
            if c['scope']:
                st.enter_context(tf.name_scope('users'))
            random.seed(c['seed'] % 1000)
            np.random.seed(c['seed'] % 2 ** 32)
            for a in c['acts']:
                files0 = set(os.listdir('.'))
                before, np0 = ambient(tf, g, a), rngs()
                draws, outputs = act(a, ctx, tf, g, R)
                after, np1 = ambient(tf, g, a), rngs()
                os.chdir(home)
                ctx.ev('uses')
                what = {'train': 'training %s' % a['kind'], 'fail': 'a failing training of %s' % a['kind']}.get(a['a'], a['a'])
                for k in before:
                    ctx.check(before[k] == after[k], '%s changes: %s (was %s, is %s)' % (what, k, str(before[k])[:150], str(after[k])[:150]))
                if not draws:
                    ctx.check(np0 == np1, '%s changes the state of the random generator of NumPy' % what)
                new = set(os.listdir('.')) - files0 - set(outputs)
                ctx.check(not new, '%s leaves files in the working directory: %s' % (what, sorted(new)[:5]))
                for f in new:
                    if os.path.isfile(f):
                        os.remove(f)
                ctx.ev('foreign_graphs_compared')
                ctx.check(graph_of(g, n_own) == ops_own, '%s changes operations that were in the graph before' % what)
                ctx.check(len(foreign.get_operations()) == n_foreign and graph_of(foreign, n_foreign) == ops_foreign and foreign.seed == 3,
                          '%s changes a graph that is not the default one' % what)
                with ctx.sut('the session of the caller after %s' % what):
                    x = own.run([v, w])
                ctx.ev('own_session_alive')
                ctx.check(x[0].tolist() == [4, 3, 2, 1] and x[1] == 7, '%s changes the variables of the caller to %s' % (what, x))
        own.close()
    if len(c['acts']) > 1:
        ctx.sig([(a['a'], a['kind']) for a in c['acts']], c['session'], c['scope'])


def draw_twice(ctx, what, f):
    """a generator draws from NumPy's generator: seeding it decides the draw, and the library does not seed it"""
    out = []
    for s in (11, 12, 11):
        np.random.seed(s)
        with ctx.sut(what):
            r = f()
        out.append((r, rngs()))
    ctx.ev('reseeding_compared'); ctx.ev('generators')
    eq = lambda p, q: all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(p, q))
    ctx.check(out[0][1] != out[1][1], '%s seeds the random generator of NumPy: its state afterwards does not depend on the seed before' % what)
    ctx.check(out[0][1] == out[2][1] and eq(out[0][0], out[2][0]), '%s: the same seed of NumPy gives another draw' % what)


class Stop(Exception):
    pass


def act(a, ctx, tf, g, R):
    """one use of the library: (draws from NumPy, files it may leave)"""
    kind, seed = a['kind'], a['seed']
    if a['a'] in ('train', 'fail'):
        shp = [int(x) for x in R.integers(2, 5, int(R.integers(2, 4)))]
        X = train.data(dict(shape=shp, kind='uniform', seed=seed))
        h = train.Harness(kind, X, [2] if kind in ('cp', 'ncp') else [1] * len(shp) if len(shp) == 2 else [2] * len(shp), tol=a.get('tol', 0.0), vi=a['vi'], verbose=a['verbose'])
        with ctx.sut('build %s' % kind):
            h.build()
        if a['a'] == 'fail':
            at = 1 + seed % (a['steps'] + 2)

            def watch(when, sess, x, n):
                if when == 'pre' and n == (1 if kind == 'hosvd' else at):
                    raise Stop()
            try:
                h.train(a['steps'], watch=watch, keep_log=True)
            except Stop:
                ctx.ev('failed_trainings')
        else:
            with ctx.sut('train %s' % kind):
                h.train(a['steps'], keep_log=True)
            ctx.ev('early_stops', kind != 'hosvd' and len(h.hist) < a['steps'])
            with ctx.sut('predict'):
                h.model.predict(*[0] * len(shp))
            ctx.ev('trainings')
        return False, [os.path.basename(h.sumdir)]
    T = R.normal(size=(3, 4, 2)).astype(np.float32)
    M = [R.normal(size=(n, 3)).astype(np.float32) for n in (3, 4, 2)]
    if a['a'] == 'ops':
        from tensorD.base import ops
        ctx.ev('operations')
        with ctx.sut('operations'):
            t, N = tf.constant(T), [tf.constant(x) for x in M]
            u = ops.unfold(t, 1)
            ops.fold(u, 1, [3, 4, 2]); ops.t2mat(t, [2, 0], -1); ops.vec_to_tensor(ops.vectorize(t), [3, 4, 2])
            ops.mul(t, t, [0, 1], [0, 1]); ops.inner(t, t); ops.ttm(t, N, transpose=True); ops.ttm(t, N[:1] + N[2:], skip_matrices_index=1, transpose=True)
            for n in [int(x) for x in R.integers(1, 8, 2)]:          # of any order, shape and type
                x = tf.constant(R.normal(size=R.integers(1, 4, n)).astype(str(R.choice(['float32', 'float64', 'int32', 'complex64']))))
                m = int(R.integers(n))
                d = x.get_shape().as_list()
                ops.fold(ops.unfold(x, m), m, d); ops.t2mat(x, [m], -1); ops.vec_to_tensor(ops.vectorize(x), d); ops.mul(x, x, [m], [m]); ops.inner(x, x)
                y = [tf.constant(R.normal(size=(2, k))) for k in d]
                if x.dtype == tf.float64:
                    ops.ttm(x, y); ops.ttm(x, y[m:m + 1], axis=[m])
                z = [tf.constant(R.normal(size=(int(k), 2))) for k in R.integers(1, 4, int(R.integers(1, 6)))]
                ops.khatri(z); ops.khatri(z, reverse=True); ops.kron(z); ops.max_single_value_mul(z)
                ctx.ev('orders_varied')
            ops.hadamard([t[:, :, 0]] * 3); ops.kron(N, 1, True); ops.khatri(N, [0], True); ops.xcb(t, N[2], N[1]); ops.max_single_value_mul(N, 0)
    elif a['a'] == 'type':
        from tensorD.base.type import DTensor, KTensor, TTensor
        ctx.ev('operations')
        with ctx.sut('tensor types'):
            d = DTensor(tf.constant(T))
            (d + d) - d * 2
            d.unfold(1); d.t2mat([0], -1); d.vectorize(); d.get_shape(); d.mul(d, 0, 0); d[1]
            KTensor(M).extract(); KTensor(M, np.ones(3, np.float32)).extract()
            TTensor(R.normal(size=(3, 3, 3)).astype(np.float32), M).extract()
    elif a['a'] == 'loss':
        from tensorD import loss
        ctx.ev('losses')
        with ctx.sut('losses'):
            loss.l2(tf.constant(T), tf.constant(T + 1)); loss.rmse(tf.constant(T), tf.constant(T + 1)); loss.rmse_ignore_zero(tf.constant(T), tf.constant(T + 1))
    elif a['a'] == 'reader':
        from tensorD.dataproc.reader import TensorReader
        ctx.ev('reader')
        with open('amb/in.csv', 'w') as f:
            f.write('0,1,2,0.5\n1,0,0,2.5\n')
        with ctx.sut('reader'):
            r = TensorReader('amb/in.csv')
            r.read()
            r.full_data, r.sparse_data
        ctx.check(open('amb/in.csv').read() == '0,1,2,0.5\n1,0,0,2.5\n', 'the reader changes the file it reads')
    elif a['a'] == 'data':
        from tensorD.demo import DataGenerator as D
        draw_twice(ctx, 'the CP data generator', lambda: [D.synthetic_data_cp([3, 4, 2], 2)])
        draw_twice(ctx, 'the Tucker data generator', lambda: [D.synthetic_data_tucker([3, 4, 2], [2, 2, 2])])
        return True, []
    elif a['a'] == 'pair_np':
        from tensorD.base import pitf_ops_numpy as P
        ctx.ev('pairwise')
        draw_twice(ctx, 'the NumPy generator of matrices', lambda: list(P.generate((4, 3), 2)) + [P.subspace((4, 3), 2, 'A'), P.subspace((4, 3), 2, 'B')])
        draw_twice(ctx, 'the NumPy generator of samples', lambda: list(P.sample3D_rule((3, 4, 2), 6)))
        s0 = rngs()
        with ctx.sut('NumPy pairwise operators'):
            spl = P.sample3D_rule((3, 4, 2), 6)
            s0 = rngs()
            P.centralization(M[0]); P.SVT(M[0], 0.1); P.shrink(M[0], 0.1, mode='complicated'); P.Pomega_tensor(spl, T, T.shape, 6); P.cone_projection_operator(np.ones(3), 0.5)
            P.adjoint_operator(spl, np.ones(6), T.shape, 6, 0)
        ctx.check(s0 == rngs(), 'a deterministic NumPy operator draws from the random generator')
        return True, []
    elif a['a'] == 'pair_tf':
        from tensorD.base import pitf_ops as P
        ctx.ev('pairwise')
        with ctx.sut('TensorFlow pairwise operators'):
            spl = P.sample3D_rule((3, 4, 2), 6)
            P.generate((4, 3), 2); P.subspace((4, 3), 2, 'A'); P.centralization(tf.constant(M[0])); P.SVT(tf.constant(M[0]), 0.1)
            P.shrink(tf.constant(M[0]), 0.1, mode='complicated'); P.Pomega_tensor(spl, tf.constant(T), 6)
            P.cone_projection_operator(tf.constant(np.ones(3, np.float32)), tf.constant(0.5))
    elif a['a'] == 'pitf_np':
        from tensorD.factorization import pitf_numpy
        from tensorD.factorization.env import Environment
        from tensorD.dataproc.provider import Provider
        ctx.ev('pairwise')
        m = pitf_numpy.PITF_np(Environment(Provider(), summary_path='amb'))
        A = pitf_numpy.PITF_np.PITF_np_Args(1, 0.3, 0.1, 6, steps=2)
        with contextlib.redirect_stdout(io.StringIO()):
            draw_twice(ctx, 'the NumPy factorisation', lambda: list(m.exact_recovery(A, T.astype(float)))[:4])
        return True, TXT
    elif a['a'] == 'pitf':
        from tensorD.factorization.env import Environment
        from tensorD.factorization.pitf import PITF
        from tensorD.dataproc.provider import Provider
        ctx.ev('pairwise')
        p = Provider()
        t = tf.constant(T[:2, :2])
        p.full_tensor = lambda: t
        d = 'pitf%d' % next(train._uid)
        with ctx.sut('PITF'), contextlib.redirect_stdout(io.StringIO()):
            m = PITF(Environment(p, summary_path=d))
            m.build_model(PITF.PITF_Args(rank=1, delt=0.3, tao=0.1, sample_num=3, validation_internal=-1))
            m.train(2)
        return False, TXT | {d}
    elif a['a'] == 'reject':
        from tensorD.base import ops
        from tensorD.base.error import TensorErr
        from tensorD import loss
        ctx.ev('rejected')
        for f in (lambda: ops.ttm(tf.constant(T), M, axis=[0, 1, 2], skip_matrices_index=1, transpose=True), lambda: ops.inner(tf.constant(T), tf.constant(T[:2])),
                  lambda: loss.rmse(tf.constant(T), tf.constant(T[:2]))):
            try:
                f()
                ctx.fail('misuse is accepted')
            except (ValueError, TensorErr):
                pass
    return False, []
