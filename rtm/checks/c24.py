"""C24 the event file read back the moment train returns."""
import glob, os, shutil, time
import numpy as np
from rtm import gen, train
RULE = ('one case = one model, configuration and stop reason; the event file is parsed (checksummed records) directly after train returns and '
        'every record is matched against the validation steps and the returned history; also for a second training in another '
        'directory and for two models in one graph; distinct by (model, interval, verbosity, steps, stop); non-trivial = at least one event')
ASSUMPTIONS = ['trainings that share a summary directory start at least a second apart (TensorFlow names the file after the second)', 'tags may carry the suffix that TensorFlow adds for uniqueness']
REQUIRED = ['assertions', 'events_read', 'scalar_summaries', 'metadata_records', 'graphs', 'early_stops', 'trained_again_with_other_steps', 'same_directory', 'cp', 'ncp', 'nt', 'hosvd', 'hooi', 'pitf']


def cases(tier, rng):
    res = []
    for i in range(170 if tier == 'quick' else 2000):
        kind = train.KINDS[i % 5]
        order = rng.choice([2, 3, 3, 4])
        shp = train.shape_of(rng, order, maxd=5, cap=120)
        res.append(dict(kind=kind, shape=shp, ranks=train.ranks_for(rng, kind, shp), seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6),
                        vi=rng.choice([-1, -1, 1, 2, 3, 4, 7, 10, 25, 100]), verbose=rng.random() < 0.25, steps=rng.choice([1, 2, 3, 4, 6, 8, 9, 12, 13]) if rng.random() < 0.95 else rng.choice([50, 101]),
                        tol=rng.choice([0, 0, 0.05, 0.3, 0.01]), other=rng.random() < 0.3, again=rng.random() < 0.4,
                        data=rng.choice(['uniform', 'normal', 'noisycp', 'sparse', 'int', 'lowcp_pos'])))
    for i in range(6 if tier == 'quick' else 40):
        res.append(dict(kind='pitf', shape=[rng.randint(2, 4) for _ in range(3)], spn=rng.choice([6, 10]), steps=rng.choice([1, 2, 5, 7, 12]), vi=rng.choice([-1, 2, 3]),
                        seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), again=True, verbose=False))
    for i in range(5 if tier == 'quick' else 50):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 8))
    for i in range(8 if tier == 'quick' else 60):       # the second training logs to the directory of the first
        res.append(dict(res[30 + i], same=True))
    for i in range(5 if tier == 'quick' else 20):       # more than a thousand steps
        res.append(dict(res[20 + i], steps=rng.choice([1001, 1030]), vi=rng.choice([-1, 100, 500]), tol=0, verbose=False))
    return res


def read(d, ctx):
    """(scalars: {(base tag): [(step, value)]}, metadata tags, number of graph records); every byte of every file must parse"""
    import tensorflow as tf
    scal, meta, graphs = {}, [], 0
    files = sorted(glob.glob(os.path.join(d, '*tfevents*')))
    for f in files:
        for e in tf.train.summary_iterator(f):
            ctx.ev('events_read')
            kind = e.WhichOneof('what')
            if kind == 'summary':
                for v in e.summary.value:
                    x = v.simple_value if v.HasField('simple_value') else float(tf.make_ndarray(v.tensor))
                    scal.setdefault(v.tag, []).append((e.step, x))
                    ctx.ev('scalar_summaries')
            elif kind == 'tagged_run_metadata':
                meta.append(e.tagged_run_metadata.tag)
                rm = tf.RunMetadata()
                rm.ParseFromString(e.tagged_run_metadata.run_metadata)
                ctx.check(len(rm.step_stats.dev_stats) > 0, 'run metadata %s is empty' % meta[-1])
                ctx.ev('metadata_records')
            elif kind == 'graph_def':
                gd = tf.GraphDef()
                gd.ParseFromString(e.graph_def)
                graphs += len(gd.node) > 5
                ctx.ev('graphs')
    return scal, meta, graphs, files


def redirect(env):
    """the environment points to another summary directory from now on"""
    class Elsewhere(type(env)):
        summary_path = os.path.join(os.getcwd(), 'log%d' % next(train._uid), 'x')
    env.__class__ = Elsewhere
    return Elsewhere.summary_path


def strip(tag):
    """tag without the suffix that makes it unique"""
    base = tag.rsplit('/', 1)[-1]
    p = base.rsplit('_', 1)
    return p[0] if len(p) == 2 and p[1].isdigit() else base


def judge(ctx, d, steps_expected, values, where, metadata=True):
    with ctx.sut('%s: reading the event file' % where):
        scal, meta, graphs, files = read(d, ctx)
    if not ctx.check(files, '%s: no event file' % where):
        return
    ctx.check(graphs >= 1, '%s: the graph is not in the event file' % where)
    by = {}
    for tag, entries in scal.items():
        by.setdefault(strip(tag), []).extend(entries)
    ctx.check(set(by) == set(values), '%s: summaries %s, expected %s' % (where, sorted(scal), sorted(values)))
    for name, vals in values.items():
        got = by.get(name, [])
        ctx.check(sorted(s for s, _ in got) == steps_expected, '%s: %s is logged for the steps %s, validation steps are %s' % (
            where, name, sorted(s for s, _ in got), steps_expected))
        for s, x in got:
            if s in vals:
                ctx.check(abs(x - vals[s]) <= 1e-6 * abs(vals[s]) + 1e-37, '%s: %s of step %d is logged as %.9g, the history says %.9g' % (where, name, s, x, vals[s]))
    if metadata:
        ctx.check(sorted(meta) == sorted('step%d' % s for s in steps_expected), '%s: run metadata %s, validation steps are %s' % (where, sorted(meta), steps_expected))


def run(c, ctx):
    kind = c['kind']
    ctx.ev(kind)
    if kind == 'pitf':
        return run_pitf(c, ctx)
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed']))
    with gen.G(c['gseed']):
        if c['other']:
            h0 = train.Harness('cp', X, [2], tol=0.0)
            h0.build().train(2)
        h = train.Harness(kind, X, list(c['ranks']), tol=c['tol'], vi=c['vi'], verbose=c['verbose'], explicit=c['seed'] % 2 == 0)
        with ctx.sut('build'):
            h.build()
        if c.get('same'):
            return same_directory(c, ctx, h, kind)
        for rep in range(2 + c['seed'] % 2 if c['again'] else 1):
            if rep:           # the following trainings make another number of steps
                c = dict(c, steps=1 + (c['seed'] // 7 * rep + c['steps']) % 15)
                ctx.ev('trained_again_with_other_steps')
            d = h.sumdir if not rep else redirect(h.env)
            with ctx.sut('train'):
                h.train(c['steps'], keep_log=True)
            if kind == 'hosvd':
                from rtm import oracle
                want = train.hist_errors(X, h.model.full)[0]
                tol = 1e-4 * want + 1e-5 * np.abs(X).max()
                scal, meta, graphs, files = read(d, ctx)
                vals = [(strip(t), s, x) for t, es in scal.items() for s, x in es]
                ctx.check([(t, s) for t, s, _ in vals] == [('loss', 1)], 'HOSVD logs %s' % vals)
                ctx.check(all(abs(x - want) <= tol for _, _, x in vals), 'HOSVD logs the loss %s, the result has %.9g' % (vals, want))
                ctx.check(meta == ['step1'] and graphs >= 1, 'HOSVD: metadata %s, graphs %d' % (meta, graphs))
            else:
                n = len(h.hist)
                ctx.ev('early_stops', n < c['steps'])
                steps = sorted(k for k in range(1, n + 1) if c['verbose'] or k == 1 or k == c['steps'] or (c['vi'] > 0 and k % c['vi'] == 0))
                judge(ctx, d, steps, dict(loss={k: float(h.hist[k - 1][0]) for k in range(1, n + 1)},
                                          relative_residual={k: float(h.hist[k - 1][1]) for k in range(1, n + 1)}),
                      '%s vi=%s verbose=%s %d of %d steps%s' % (kind, c['vi'], c['verbose'], n, c['steps'], ' (training %d)' % (rep + 1) if rep else ''))
            shutil.rmtree(d, ignore_errors=True)
    ctx.sig(kind, c['vi'], c['verbose'], c['steps'], c['tol'])


def same_directory(c, ctx, h, kind):
    """two trainings of one model log to one directory: nothing of either may be missing when the second one returns"""
    want = {}
    tags = []
    for rep in range(2):
        if rep:
            time.sleep(1.1)          # TensorFlow names the file after the second
        k = c['steps'] if not rep else 1 + (c['seed'] // 7 + c['steps']) % 9
        with ctx.sut('train'):
            h.train(k, keep_log=True)
        if kind == 'hosvd':
            want.setdefault('loss', []).append(1)
            tags.append('step1')
        else:
            n = len(h.hist)
            steps = [j for j in range(1, n + 1) if c['verbose'] or j == 1 or j == k or (c['vi'] > 0 and j % c['vi'] == 0)]
            for name in ('loss', 'relative_residual'):
                want.setdefault(name, []).extend(steps)
            tags += ['step%d' % j for j in steps]
        scal, meta, graphs, files = read(h.sumdir, ctx)
        got = {}
        for tag, es in scal.items():
            got.setdefault(strip(tag), []).extend(s for s, _ in es)
        for name in set(want) | set(got):
            ctx.check(sorted(got.get(name, [])) == sorted(want.get(name, [])), '%s: after %d trainings into one directory it has %s for the steps %s, the validation steps are %s' % (
                kind, rep + 1, name, sorted(got.get(name, [])), sorted(want.get(name, []))))
        ctx.check(sorted(meta) == sorted(tags), '%s: after %d trainings into one directory it has the metadata %s, expected %s' % (kind, rep + 1, sorted(meta), sorted(tags)))
    ctx.ev('same_directory')
    shutil.rmtree(h.sumdir, ignore_errors=True)
    ctx.sig('same', kind, c['vi'], c['steps'])


def run_pitf(c, ctx):
    import tensorflow as tf
    from tensorD.factorization.env import Environment
    from tensorD.factorization.pitf import PITF
    from tensorD.dataproc.provider import Provider
    train.install()
    X = train.data(dict(shape=c['shape'], kind='uniform', seed=c['seed']))
    with gen.G(c['gseed']):
        p = Provider()
        t = tf.constant(X)
        p.full_tensor = lambda: t
        first = os.path.join(os.getcwd(), 'log%d' % next(train._uid))
        env = Environment(p, summary_path=first)
        m = PITF(env)
        with ctx.sut('PITF build'):
            m.build_model(PITF.PITF_Args(rank=2, delt=0.8, tao=0.5, sample_num=c['spn'], validation_internal=c['vi']))
        for rep in range(2):
            d = first if not rep else redirect(env)
            with ctx.sut('PITF train'):
                c = dict(c, steps=c['steps'] if not rep else 1 + (c['seed'] // 7 + c['steps']) % 9)
                m.train(c['steps'])
            scal, meta, graphs, files = read(d, ctx)
            steps = [k for k in range(1, c['steps'] + 1) if k in (1, c['steps']) or (c['vi'] > 0 and k % c['vi'] == 0)]
            by = {}
            for tag, es in scal.items():
                by.setdefault(strip(tag).replace(' ', '_'), []).extend(es)
            ctx.check(set(by) == {'error_rate', 'loss'}, 'PITF logs %s' % sorted(scal))
            for name, es in by.items():
                ctx.check(sorted(s for s, _ in es) == steps, 'PITF logs %s for the steps %s, validation steps are %s' % (name, [s for s, _ in es], steps))
                ctx.check(all(np.isfinite(x) for _, x in es), 'PITF logs %s' % es)
            ctx.check(graphs >= 1, 'PITF: the graph is not in the event file')
            shutil.rmtree(d, ignore_errors=True)
    ctx.sig('pitf', c['vi'], c['steps'], c['spn'])
