"""C26 leak monitor: threads, file descriptors and graph nodes of the process over repeated trainings."""
import gc, os, time
import numpy as np
from rtm import gen, train
RULE = ('one case = one model and a sequence of trainings with different stop reasons; after every training /proc/self/fd is searched for files '
        'below the working directory, and threads, descriptors and graph nodes are counted against those after the first two trainings; '
        'distinct by (model, stop reason, configuration); non-trivial = at least three trainings')
ASSUMPTIONS = ['a thread is given 20 s to end after train returned', 'thread pools that TensorFlow starts once per process are absorbed by the first two trainings']
REQUIRED = ['assertions', 'trainings', 'fd_probes', 'thread_probes', 'graph_probes', 'stop_limit', 'stop_tol', 'stop_stall', 'cp', 'ncp', 'nt', 'hosvd', 'hooi', 'pitf', 'pitf_np']


def cases(tier, rng):
    res = []
    for i in range(60 if tier == 'quick' else 600):
        kind = train.KINDS[i % 5]
        shp = train.shape_of(rng, rng.choice([2, 3, 3, 4]), maxd=5, cap=100, mind=2)
        stop = rng.choice(['limit', 'tol', 'stall']) if i >= 15 else ['limit', 'tol', 'stall'][i // 5]
        res.append(dict(kind=kind, shape=shp, ranks=train.ranks_for(rng, kind, shp), seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6),
                        vi=rng.choice([-1, 2]), verbose=rng.random() < 0.3, steps=rng.choice([1, 2, 5, 12]) if stop == 'limit' else 40, stop=stop,
                        tol=dict(limit=0.0, tol=0.9, stall=1e-3)[stop], times=rng.choice([5, 6, 9, 20 if tier != 'quick' else 7]),
                        data=rng.choice(['uniform', 'normal', 'noisycp']) if stop != 'stall' else 'uniform'))
    for i in range(3 if tier == 'quick' else 20):
        res.append(dict(kind='pitf', shape=[2, 3, 2], spn=6, steps=rng.choice([1, 2, 5]), seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), times=6))
        res.append(dict(kind='pitf_np', shape=[3, 2, 4], spn=10, steps=rng.choice([1, 2, 5]), seed=rng.randrange(2 ** 31), gseed=1, times=6))
    for i in range(5 if tier == 'quick' else 30):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 8))
    return res


def fds():
    res = []
    for f in os.listdir('/proc/self/fd'):
        try:
            res.append(os.readlink('/proc/self/fd/' + f))
        except OSError:
            pass
    return res


def threads():
    return len(os.listdir('/proc/self/task'))


def run(c, ctx):
    import tensorflow as tf
    kind = c['kind']
    ctx.ev(kind)
    X = train.data(dict(shape=c['shape'], kind=c.get('data', 'uniform'), seed=c['seed']))
    base = os.getcwd()
    mine = lambda: [f for f in fds() if f.startswith(base + '/') and not f.endswith('.py')]
    with gen.G(c['gseed']) as g:
        if kind == 'pitf':
            from tensorD.factorization.env import Environment
            from tensorD.factorization.pitf import PITF
            from tensorD.dataproc.provider import Provider
            p = Provider()
            t = tf.constant(X)
            p.full_tensor = lambda: t
            m = PITF(Environment(p, summary_path=os.path.join(base, 'leak%d' % next(train._uid))))
            with ctx.sut('PITF build'):
                m.build_model(PITF.PITF_Args(rank=2, delt=0.8, tao=0.5, sample_num=c['spn']))
            go = lambda: m.train(c['steps'])
        elif kind == 'pitf_np':
            from tensorD.factorization.env import Environment
            from tensorD.factorization.pitf_numpy import PITF_np
            from tensorD.dataproc.provider import Provider
            m = PITF_np(Environment(Provider(), summary_path=os.path.join(base, 'leak%d' % next(train._uid))))
            go = lambda: m.exact_recovery(PITF_np.PITF_np_Args(1, 0.1, 1.0, c['spn'], steps=c['steps']), X.astype(np.float64))
        else:
            h = train.Harness(kind, X, list(c['ranks']), tol=c['tol'], vi=c['vi'], verbose=c['verbose'])
            with ctx.sut('build'):
                h.build()

            def go():
                h.train(c['steps'], keep_log=True)
                n = 0 if kind == 'hosvd' else len(h.hist)
                if kind == 'hosvd' or n == c['steps']:
                    ctx.ev('stop_limit')
                elif h.hist[-1][1] < c['tol']:
                    ctx.ev('stop_tol')
                else:
                    ctx.ev('stop_stall')
        ref = None
        for k in range(c['times']):
            with ctx.sut('training number %d' % (k + 1)):
                go()
            ctx.ev('trainings')
            left = mine()
            ctx.ev('fd_probes'); ctx.ev('thread_probes'); ctx.ev('graph_probes')
            if not ctx.check(not left, '%s: training number %d returned and left files open: %s' % (kind, k + 1, left[:3])):
                return
            ops = len(g.g.get_operations())
            if k < 2:
                ref = (ops, None, None)
                if k == 1:
                    gc.collect(); time.sleep(0.02)
                    ref = (ops, threads(), len(fds()))
                else:
                    first_ops = ops
                continue
            ctx.check(ops == ref[0] == first_ops, '%s: training number %d added nodes to the graph (%d, %d after the first)' % (kind, k + 1, ops, first_ops))
        # what has accumulated over the trainings after the second one
        gc.collect()
        t0 = time.time()
        while (threads() > ref[1] or len(fds()) > ref[2]) and time.time() - t0 < 20:
            time.sleep(0.02)
        # pools of TensorFlow may grow by a thread or two once; a leak grows with every training
        extra = c['times'] - 2
        ctx.check(threads() - ref[1] < extra, '%s: %d trainings left %d more threads' % (kind, extra, threads() - ref[1]))
        ctx.check(len(fds()) - ref[2] < extra, '%s: %d trainings left %d more open files: %s' % (kind, extra, len(fds()) - ref[2], fds()[-5:]))
    ctx.peak('extra threads per training', max(0, threads() - ref[1]) / extra)
    ctx.peak('extra descriptors per training', max(0, len(fds()) - ref[2]) / extra)
    ctx.sig(kind, c.get('stop'), c.get('vi'), c.get('verbose'), c['steps'])
