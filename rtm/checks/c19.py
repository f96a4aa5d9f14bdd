"""C19 non-negativity and finiteness of the non-negative models."""
import numpy as np
from rtm import gen, train
RULE = ('one case = one model, tensor, rank and seed; every published state of the training is inspected entry by entry; distinct by '
        '(model, shape, ranks, data kind, scale, steps); non-trivial = more than one step')
ASSUMPTIONS = ['finite float32 data whose squares do not overflow']
REQUIRED = ['assertions', 'trainings_with_tolerance', 'early_stops', 'states', 'entries', 'ncp', 'nt', 'long_trainings', 'negative_data', 'states_with_zero_entries']


def cases(tier, rng):
    res = []
    for i in range(220 if tier == 'quick' else 3000):
        kind = ['ncp', 'nt'][i % 2]
        order = rng.choice([2, 3, 3, 3, 4, 5])
        shp = train.shape_of(rng, order, maxd=7, cap=300)
        res.append(dict(kind=kind, shape=shp, ranks=[rng.choice([1, 2, 3, 4, 6, 9])] if kind == 'ncp' else [rng.randint(1, min(5, n + 2)) for n in shp],
                        seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6), R=rng.randint(1, 4),
                        data=rng.choice(['uniform', 'normal', 'normal', 'sparse', 'noisycp', 'lowcp', 'lowcp_pos', 'zslice', 'sparse_mixed', 'sparse_mixed',
                                         'negative', 'negative', 'spike', 'int']),
                        scale=rng.choice([1, 1, 1e-4, 1e-2, 100, 1e5]), tol=rng.choice([0, 0, 0, 1e-3]),
                        steps=rng.choice([1, 2, 3, 5, 8]) if rng.random() < 0.6 else rng.choice([40, 100, 250])))
    for i in range(8 if tier == 'quick' else 80):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 20))
    for i in range(4 if tier == 'quick' else 40):
        res.append(dict(res[20 + i], steps=1030, tol=0))
    return res


def run(c, ctx):
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'], scale=c['scale'], R=c['R']))
    with gen.G(c['gseed']):
        h = train.Harness(c['kind'], X, list(c['ranks']), tol=c['tol'])
        with ctx.sut('build/train'):
            h.build()
            states, hist = h.trajectory(c['steps'], ctx)
    if c['seed'] % 2 and not c['tol']:
        train.early(ctx, c['kind'], X, c['ranks'], c['gseed'], states, hist, c['seed'])
    ctx.ev(c['kind']); ctx.ev('long_trainings', c['steps'] >= 40); ctx.ev('negative_data', bool((X < 0).any()))
    for k, s in enumerate(states):
        ctx.ev('states')
        parts = [('factor %d' % i, f) for i, f in enumerate(s['factors'])] + [('full tensor', s['full'])]
        if c['kind'] == 'nt':
            parts.append(('core', s['core']))
        zero = False
        for name, a in parts:
            a = np.asarray(a)
            ctx.ev('entries', a.size)
            if not ctx.check(np.isfinite(a).all(), 'step %d: %s of %s has a NaN or infinity' % (k + 1, name, c['kind'])):
                return
            ctx.check((a >= 0).all(), 'step %d: %s of %s has the negative entry %.3g' % (k + 1, name, c['kind'], a.min()))
            zero |= bool((a == 0).any())
        ctx.ev('states_with_zero_entries', zero)
        ctx.check(np.isfinite(np.asarray(hist[k], dtype=float)).all(), 'step %d: history entry %s' % (k + 1, hist[k]))
    if c['kind'] == 'ncp':
        lam = np.asarray(h.model.lambdas)
        ctx.check(lam.size == c['ranks'][0] and np.all(lam == 1), 'weights are %s' % lam)
    if len(states) > 1:
        ctx.sig(c['kind'], c['shape'], c['ranks'], c['data'], c['scale'], c['steps'])
