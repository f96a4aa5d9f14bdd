"""C22 isolation between models and between successive trainings."""
import copy, os
import numpy as np
from rtm import gen, pairwise, pristine, train
RULE = ('one case = 2..4 models and a random history of build / train / train-inside-another-training / train again / build again, also from replaced data, in one shared graph or in '
        'separate ones, with shared or separate provider, summary directory and environment; after every action all published results that must '
        'not have changed are compared bit by bit, and every trained result with the same model alone in a fresh process whose '
        'random operations have the same seeds; distinct by (kinds, sharing, history); non-trivial = at least two trainings')
ASSUMPTIONS = ['the seed of a random operation is a function of graph seed and number of random operations created before, so a model alone is '
               'the same number of them first', 'results compared to a relative 2e-3 (bit-identical in practice)']
REQUIRED = ['assertions', 'trainings', 'nested_trainings', 'retrainings', 'rebuilds', 'arrays_overwritten', 'bystanders_compared', 'alone_compared', 'early_stops', 'held_arrays', 'held_histories', 'data_replaced', 'shared_graph',
            'separate_graphs', 'shared_provider', 'shared_summary', 'shared_environment', 'shared_arguments', 'fresh_processes', 'pairwise_trainings', 'pairwise_alone_compared']


def cases(tier, rng):
    res = []
    for i in range(72 if tier == 'quick' else 900):
        n = rng.choice([2, 2, 3, 3, 4])
        ms = []
        prov = rng.random() < 0.5
        shp0 = train.shape_of(rng, rng.choice([2, 3, 3, 4]), maxd=5, cap=100)
        for j in range(n):
            kind = train.KINDS[(i + rng.randrange(5) * (j > 0)) % 5]
            share = prov and j > 0 and rng.random() < 0.5           # the same argument object as an earlier model of the same class
            if share:
                kind = ms[0]['kind']
            shp = shp0 if prov else train.shape_of(rng, rng.choice([2, 3, 3, 4]), maxd=5, cap=100)
            ms.append(dict(kind=kind, shape=shp, ranks=train.ranks_for(rng, kind, shp), steps=rng.choice([1, 2, 3, 5]), vi=rng.choice([-1, 2]),
                           verbose=rng.random() < 0.2, seed=0 if prov else j + 1, share=share,
                           tol=rng.choice([0, 0, 0.003, 0.05, 0.45, 1.5]), scale=ms[0]['scale'] if prov and j else rng.choice([1, 1, 0.1, 10, 1000])))
            if ms[j]['tol']:
                ms[j]['steps'] = rng.choice([1, 3, 5, 8])
            if share:
                ms[j].update({k: ms[0][k] for k in ('ranks', 'vi', 'verbose', 'tol')})
        built, hist = set(), []
        for _ in range(rng.randint(2 * n, 3 * n + 3)):
            todo = [j for j in range(n) if j not in built]
            if todo and (not built or rng.random() < 0.5):
                j = rng.choice(todo)
                built.add(j)
                hist.append(['build', j])
            else:
                j = rng.choice(sorted(built))
                if len(built) > 1 and rng.random() < 0.3:
                    k = rng.choice([x for x in sorted(built) if x != j])
                    hist.append(['nest', j, k, rng.randint(1, 4)])
                else:
                    hist.append(['train', j])
        for j in range(n):
            if j not in built:
                hist.append(['build', j])
            hist.append(['train', j])
        if rng.random() < 0.5:          # a model is built again with other arguments, and trained again
            for _ in range(rng.randint(1, 2)):
                j = rng.randrange(n)
                hist.append(['rebuild', j, train.ranks_for(rng, ms[j]['kind'], ms[j]['shape']), rng.choice([1, 2, 3, 4]), rng.choice([-1, 2])])
                if rng.random() < 0.5:
                    hist.append(['train', rng.randrange(n)])
                hist.append(['train', j])
        if rng.random() < 0.4:          # the caller overwrites the arrays that were published for it
            j = rng.randrange(n)
            hist += [['scribble', j], ['train', rng.randrange(n)], ['train', j]]
        if rng.random() < 0.4:          # the provider gets other data, and models are built again from it
            shp = shp0 if rng.random() < 0.5 else train.shape_of(rng, rng.choice([2, 3]), maxd=5, cap=100)
            who = [rng.randrange(n)] if not prov else sorted(rng.sample(range(n), rng.randint(1, n)))
            if not prov and shp != shp0:
                shp = train.shape_of(rng, rng.choice([2, 3]), maxd=5, cap=100)
            hist.append(['redata', who[0], shp, rng.randrange(2 ** 31)])
            for j in who:
                hist += [['rebuild', j, train.ranks_for(rng, ms[j]['kind'], shp), rng.choice([1, 2, 3, 4]), rng.choice([-1, 2])], ['train', j]]
            hist.append(['train', rng.choice(who)])
        res.append(dict(models=ms, history=hist, seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), graph=rng.choice(['shared', 'shared', 'separate']),
                        prov=prov, summary=rng.random() < 0.4, env=rng.random() < 0.6, data=rng.choice(['uniform', 'int', 'noisycp', 'normal', 'sparse'])))
    for i in range(10 if tier == 'quick' else 120):       # pairwise models among each other and with dense ones
        ms = []
        for j in range(rng.choice([2, 3])):
            kind = 'pitf' if j == 0 else rng.choice(['pitf', 'np', 'np', 'dense'])
            shp = [rng.randint(2, 4) for _ in range(3)]
            ms.append(dict(kind=kind, shape=shp, rank=rng.choice([1, 2]), delt=rng.choice([0.05, 0.1, 0.3]), tao=rng.choice([0.01, 0.1, 0.5]), spn=rng.choice([6, 9]),
                           vi=rng.choice([-1, 2, 3]), steps=rng.choice([1, 3, 6]), npseed=rng.randrange(2 ** 31), dense=rng.choice(train.KINDS), seed=rng.randrange(2 ** 31)))
        hist = [['build', j] for j in range(len(ms))] + [['train', rng.randrange(len(ms))] for _ in range(len(ms) + 2)]
        if rng.random() < 0.5:
            tail = hist[1:]
            rng.shuffle(tail)
            hist = hist[:1] + tail
        hist += [['train', j] for j in range(len(ms))]
        if rng.random() < 0.5:
            hist += [['nest', 0, rng.randrange(1, len(ms)), rng.randint(1, 4)], ['train', 0]]
        if rng.random() < 0.5:
            hist += [['build', 0], ['train', 0]]
        res.append(dict(pairwise=ms, history=hist, gseed=rng.randrange(1, 10 ** 6), summary=rng.random() < 0.4))
    return res


def graph_id(g):
    """how many random operations with automatic seeds the graph has"""
    from tensorflow.python.framework import random_seed
    return random_seed._graph_to_seed_dict.get(g, 0)


def same_hist(h, h0):
    if len(h) != len(h0):
        return False
    return np.array_equal(np.asarray(h, dtype=float), np.asarray(h0, dtype=float), equal_nan=True)


def pad(g, n):
    from tensorflow.python.framework import random_seed
    while graph_id(g) < n:
        random_seed.get_seed(None)


def run_pairwise(c, ctx):
    ms = c['pairwise']
    Xs = [train.data(dict(shape=m['shape'], kind='uniform', seed=m['seed'])) for m in ms]
    hs, pads, ref, want = {}, {}, {}, {}
    with gen.G(c['gseed']) as g:
        for act in c['history']:
            j = act[1]
            m = ms[j]
            what = '%s with %s: %s' % (c['history'], [(x['kind'], x['dense']) if x['kind'] == 'dense' else x['kind'] for x in ms], act)
            if act[0] == 'build' or j not in hs:
                if j not in hs:
                    hs[j] = pairwise.Pitf(Xs[j], m) if m['kind'] == 'pitf' else pairwise.PitfNp(Xs[j], m) if m['kind'] == 'np' else train.Harness(
                        m['dense'], Xs[j], [2] if m['dense'] in ('cp', 'ncp') else [2] * 3, vi=m['vi'])
                pads[j] = graph_id(g.g)
                want.pop(j, None)
                with ctx.sut('build %s' % m['kind']):
                    hs[j].build()
                if act[0] == 'build':
                    continue
            if act[0] == 'nest':
                k = act[2]
                ran = []

                def watch(when, sess, x, n):
                    if when == 'pre' and n == act[3] and not ran:
                        ran.append(1)
                        hs[k].train(ms[k]['steps'])
                with ctx.sut('pairwise training with another one inside'):
                    got = hs[0].train(m['steps'], watch=watch)
                ctx.ev('nested_trainings', len(ran))
            else:
                with ctx.sut('train %s' % m['kind']):
                    got = hs[j].train(m['steps'])
            ctx.ev('pairwise_trainings')
            if m['kind'] == 'dense':
                s = hs[j].snap()
                if j in ref:
                    w = train.same(ref[j], s) if j in want else 0.0
                    ctx.check(w is not None and w <= 2e-3, '%s: training again differs from the first training by %s' % (what, w))
                ref[j], want[j] = s, True
                continue
            if j not in want:
                job = dict(gseed=c['gseed'], pad=pads[j], X=Xs[j].copy(), m=m, steps=m['steps'])
                want[j] = pristine.alone(pairwise=job)
                ctx.ev('fresh_processes', want[j] is not None)
                if want[j] is None:
                    with ctx.sut('%s alone' % m['kind']):
                        want[j] = pairwise.alone(**job)
            w = {k: v for k, v in want[j].items() if k in got} if act[0] == 'nest' else want[j]
            d = pairwise.differ(got, w)
            ctx.ev('pairwise_alone_compared')
            ctx.check(d is None, '%s: what the model reports is not what it reports alone: %s' % (what, d))
            ctx.check(len(got) >= 2, '%s: nothing is reported' % what)
    ctx.sig('pairwise', [m['kind'] for m in ms], c['history'])


def run(c, ctx):
    if 'pairwise' in c:
        return run_pairwise(c, ctx)
    from tensorD.dataproc.provider import Provider
    ms, n = [dict(m) for m in c['models']], len(c['models'])
    Xs = [train.data(dict(shape=m['shape'], kind=c['data'], seed=c['seed'] + m['seed'], scale=m['scale'])) for m in ms]
    ctx.ev('shared_graph' if c['graph'] == 'shared' else 'separate_graphs')
    ctx.ev('shared_provider', c['prov']); ctx.ev('shared_summary', c['summary'])
    sd = os.path.join(os.getcwd(), 'shared%d' % next(train._uid)) if c['summary'] else None

    def harness(m, X, provider, sumdir, env=None):
        return train.Harness(m['kind'], X, list(m['ranks']), tol=m['tol'], vi=m['vi'], verbose=m['verbose'], provider=provider, sumdir=sumdir, env=env)
    prov, env = None, None
    source = list(Xs)           # what the providers give
    if c['prov']:
        prov = Provider()
        prov.full_tensor = lambda: source[0]
    if c['graph'] == 'shared':
        g0 = gen.G(c['gseed'])
        graphs = [g0] * n
    else:
        graphs = [gen.G(c['gseed'] + j) for j in range(n)]
    hs, pads, result, held, hists = [None] * n, [None] * n, [None] * n, [[] for _ in range(n)], [None] * n
    oldhist = [[] for _ in range(n)]
    for j in range(n):
        with graphs[j]:
            own = prov
            if own is None:
                own = Provider()
                own.full_tensor = lambda j=j: source[j]
            hs[j] = harness(ms[j], Xs[j], own, sd, env)
            if c['prov'] and c['summary'] and c['env']:
                env = hs[j].env
    ctx.ev('shared_environment', env is not None)
    shared = hs[0].args_cls(**hs[0].kw)
    for j in range(n):
        if j == 0 or ms[j]['share']:
            hs[j].args = shared
            ctx.ev('shared_arguments', j > 0)
    alone, stale = {}, set()

    def bystanders(active, what):
        for j in range(n):
            if j in active or j in stale:
                continue
            if result[j] is None:
                ctx.check(hs[j].model.full is None and hs[j].model.factors is None and not hs[j].model.train_finish,
                          '%s: model %d (%s) publishes something without being trained' % (what, j, ms[j]['kind']))
            else:
                ctx.ev('bystanders_compared')
                w = train.same(result[j], hs[j].snap())
                ctx.check(w == 0.0 and hs[j].model.train_finish, '%s: published result of bystander %d (%s) changed by %s' % (what, j, ms[j]['kind'], w))
        for j in range(n):
            for arrs, copies in held[j]:
                ctx.ev('held_arrays', len(arrs))
                ctx.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(arrs, copies)),
                          '%s: arrays that model %d (%s) published earlier were overwritten' % (what, j, ms[j]['kind']))
        for j in range(n):
            for h, h0 in oldhist[j]:
                ctx.ev('held_histories')
                ctx.check(same_hist(h, h0), '%s: a history that model %d (%s) returned earlier was changed: %s, was %s' % (what, j, ms[j]['kind'], str(h)[:200], str(h0)[:200]))

    def after_train(j, what):
        ctx.ev('early_stops', ms[j]['kind'] != 'hosvd' and len(hs[j].hist) < ms[j]['steps'])
        ctx.ev('trainings'); ctx.ev('retrainings', result[j] is not None and j not in stale)
        m = hs[j].model
        arrs = list(m.factors) + [m.full] + ([] if ms[j]['kind'] in ('cp', 'ncp') else [m.core])
        held[j].append((arrs, [np.array(a, copy=True) for a in arrs]))
        s = hs[j].snap()
        if result[j] is not None and j not in stale:
            w = train.same(result[j], s)
            ctx.check(w is not None and w <= 2e-3, '%s: training again differs from the first training by %s' % (what, w))
        stale.discard(j)
        result[j] = s
        hists[j] = hs[j].hist
        if ms[j]['kind'] != 'hosvd':
            oldhist[j].append((hists[j], copy.deepcopy(hists[j])))
        if j not in alone:
            gs = c['gseed'] if c['graph'] == 'shared' else c['gseed'] + j
            alone[j] = pristine.alone(gseed=gs, pad=pads[j], X=Xs[j].copy(), steps=ms[j]['steps'], **{k: ms[j][k] for k in ('kind', 'ranks', 'tol', 'vi', 'verbose')})
            ctx.ev('fresh_processes', alone[j] is not None)
            if alone[j] is None:            # no answer from a process of its own: in this one
                with gen.G(gs) as g:
                    pad(g.g, pads[j])
                    h = harness(ms[j], Xs[j].copy(), None, None)
                    with ctx.sut('%s alone' % ms[j]['kind']):
                        h.build().train(ms[j]['steps'])
                    alone[j] = (h.snap(), h.hist)
        w = train.same(alone[j][0], s)
        ctx.ev('alone_compared'); ctx.ev('alone_bit_identical', w == 0.0)
        ctx.check(w is not None and w <= 2e-3, '%s: result of model %d (%s) differs by %s from the one it has alone' % (what, j, ms[j]['kind'], w))
        if ms[j]['kind'] != 'hosvd':
            a, b = np.asarray(alone[j][1], dtype=float), np.asarray(hists[j], dtype=float)
            ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=2e-3, atol=2e-3 * (np.abs(a).max() + 1e-6)), '%s: history of model %d differs from the one it has alone' % (
                what, j))

    trained = 0
    for act in c['history']:
        j = act[1]
        what = '%s in %s graph(s), %s' % (c['history'], c['graph'], act)
        with graphs[j]:
            if act[0] == 'build':
                pads[j] = graph_id(graphs[j].g)
                with ctx.sut('build %d' % j):
                    hs[j].build()
                bystanders([], what)
            elif act[0] == 'scribble':
                m = hs[j].model
                x0 = [x.copy() for x in Xs]
                for arr in list(m.factors) + [m.full] + ([] if ms[j]['kind'] in ('cp', 'ncp') else [m.core]):
                    if isinstance(arr, np.ndarray) and arr.flags.writeable:
                        arr[...] = 7
                        ctx.ev('arrays_overwritten')
                held[j] = []
                stale.add(j)
                ctx.check(all(np.array_equal(p, q) for p, q in zip(x0, Xs)), '%s: overwriting published arrays changes the data' % what)
                bystanders([j], what)
            elif act[0] == 'redata':
                new = train.data(dict(shape=act[2], kind=c['data'], seed=act[3]))
                for k in (range(n) if c['prov'] else [j]):
                    source[k] = new
                ctx.ev('data_replaced')
                bystanders([], what)
            elif act[0] == 'rebuild':
                if source[j] is not Xs[j]:
                    Xs[j] = source[j]
                pads[j] = graph_id(graphs[j].g)
                ms[j].update(ranks=act[2], steps=act[3], vi=act[4])
                hs[j].reargue(list(act[2]), act[4])
                with ctx.sut('build %d again' % j):
                    hs[j].build()
                ctx.ev('rebuilds')
                alone.pop(j, None)
                stale.add(j)
                w = None if hs[j].model.full is None else train.same(result[j], hs[j].snap())
                ctx.check(hs[j].model.full is None or w == 0.0, '%s: building the model again changes its published result by %s' % (what, w))
                bystanders([], what)
            elif act[0] == 'train':
                with ctx.sut('train %d (%s)' % (j, ms[j]['kind'])):
                    hs[j].train(ms[j]['steps'])
                trained += 1
                after_train(j, what)
                bystanders([j], what)
            else:
                k, at = act[2], act[3]
                ran = []

                def watch(when, sess, x, count):
                    if when == 'pre' and count == at and not ran:
                        ran.append(1)
                        with graphs[k]:
                            hs[k].train(ms[k]['steps'])
                with ctx.sut('train %d (%s) with training of %d (%s) inside' % (j, ms[j]['kind'], k, ms[k]['kind'])):
                    hs[j].train(ms[j]['steps'], watch=watch)
                if ran:
                    ctx.ev('nested_trainings')
                    after_train(k, what)
                trained += 1
                after_train(j, what)
                bystanders([j, k], what)
    if trained > 1:
        ctx.sig([m['kind'] for m in ms], c['graph'], c['prov'], c['summary'], c['history'])
