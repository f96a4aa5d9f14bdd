"""C13 published result is one coherent snapshot, for every stop reason."""
import numpy as np
from rtm import gen, oracle, train
RULE = ('one case = one model, data set and configuration, trained 3..5 times: to step limits, to a tolerance placed between two residuals '
        'of the trajectory (stop on a step that is not validated) and to a stall; every published part is checked after each training; '
        'distinct by (model, shape, ranks, data kind, stop pattern, interval); non-trivial = more than one entry')
ASSUMPTIONS = ['data with a non-zero entry']
REQUIRED = ['assertions', 'trainings', 'predictions', 'early_stops_unvalidated', 'documented_uses', 'cp', 'ncp', 'nt', 'hosvd', 'hooi']
EPS = 1.2e-7


def cases(tier, rng):
    res = []
    for i in range(190 if tier == 'quick' else 2400):
        kind = ['cp', 'ncp', 'nt', 'hooi', 'hosvd', 'cp', 'ncp', 'nt', 'hooi'][i % 9]
        order = rng.choice([2, 3, 3, 3, 4, 5])
        shp = train.shape_of(rng, order)
        c = dict(kind=kind, shape=shp, ranks=train.ranks_for(rng, kind, shp), seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6),
                 data=rng.choice(['uniform', 'normal', 'sparse', 'int', 'noisycp', 'lowcp', 'lowcp_pos', 'zslice', 'sparse_mixed']),
                 scale=rng.choice([1, 1, 1, 0.01, 100]), vi=rng.choice([-1, -1, 2, 3, 5, 10, 100]), verbose=rng.random() < 0.15,
                 steps=rng.choice([1, 2, 3, 6, 11]) if rng.random() < 0.96 else rng.choice([60, 110]), ranktype=rng.choice(['list', 'list', 'tuple']))
        res.append(c)
    for i in range(5 if tier == 'quick' else 40):       # the scale and the arguments of the documentation
        kind = train.KINDS[i % 5]
        res.append(dict(kind=kind, shape=[20, 20, 20], ranks=[10] if kind in ('cp', 'ncp') else [10, 10, 10], seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6),
                        data='noisycp', scale=1, vi=rng.choice([1, -1]), verbose=False, steps=rng.choice([20, 100]), ranktype='list', doc=True))
    for i in range(9 if tier == 'quick' else 90):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 8))
    for i in range(9 if tier == 'quick' else 45):       # more than a thousand steps
        res.append(dict(res[20 + i], steps=rng.choice([1001, 1030]), vi=rng.choice([-1, 100, 500]), tol=0, verbose=False))
    return res


def judge(ctx, h, X, steps, label):
    kind, m = h.kind, h.model
    s = h.snap()
    ctx.ev('trainings'); ctx.ev(kind)
    where = '%s after %s' % (kind, label)
    if s['full'] is None or s['factors'] is None:
        ctx.fail('%s: nothing is published' % where); return s
    R = [h.ranks[0]] * X.ndim if kind in ('cp', 'ncp') else list(h.ranks)
    ok = ctx.check(s['full'].shape == X.shape, '%s: full tensor has shape %s' % (where, s['full'].shape))
    ok &= ctx.check([f.shape for f in s['factors']] == [(n, r) for n, r in zip(X.shape, R)], '%s: factor shapes %s for ranks %s' % (
        where, [f.shape for f in s['factors']], R))
    if kind in ('cp', 'ncp'):
        ok &= ctx.check(np.size(s['lambdas']) == R[0], '%s: weights have shape %s' % (where, np.shape(s['lambdas'])))
    else:
        ok &= ctx.check(np.shape(s['core']) == tuple(R), '%s: core has shape %s for ranks %s' % (where, np.shape(s['core']), R))
    ctx.check(m.train_finish is True or m.train_finish == True, '%s: train_finish is %r' % (where, m.train_finish))
    if not ok:
        return s
    ref, mag = train.recon(kind, s)
    terms = sum(R) + 6 * X.ndim
    oracle.close(ctx, 'full_vs_parts', s['full'], ref, mag, terms, np.float32, '%s: full tensor vs reconstruction from the published parts' % where)
    if kind != 'hosvd':
        ctx.check(isinstance(h.hist, list) and 1 <= len(h.hist) <= steps, '%s: history of length %s for %d steps' % (
            where, len(h.hist) if h.hist is not None else None, steps))
        n = X.size
        for name, got, want in zip(('RMSE', 'relative residual'), h.hist[-1], train.hist_errors(X, s['full'])):
            unit = np.sqrt((mag ** 2).mean()) if name == 'RMSE' else np.sqrt((mag ** 2).sum() / (X.astype(float) ** 2).sum())
            if name == 'RMSE':
                unit *= np.sqrt(n / max(1, np.count_nonzero(X)))
            tol = 8 * (n + 8) * EPS * want + 16 * terms * EPS * unit + 1e-30
            ctx.peak('hist_' + name, abs(got - want) / tol)
            ctx.check(abs(got - want) <= tol, '%s: last history entry says %s %.8g, the published full tensor has %.8g' % (where, name, got, want))
    r = np.random.default_rng(5)
    idx = list(np.ndindex(*X.shape))
    if len(idx) > 40:
        idx = [idx[i] for i in r.choice(len(idx), 40, replace=False)] + [idx[0], idx[-1]]
    with ctx.sut('%s: predict' % where):
        got = [m.predict(*i) for i in idx]
    for i, v in zip(idx, got):
        ctx.ev('predictions')
        ctx.check(np.ndim(v) == 0 and float(v) == float(s['full'][i]), '%s: predict%s is %r, the full tensor has %r' % (where, i, v, s['full'][i]))
    return s


def run(c, ctx):
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'], scale=c['scale']))
    ranks = tuple(c['ranks']) if c['ranktype'] == 'tuple' and c['kind'] not in ('cp', 'ncp') and c['kind'] != 'nt' else list(c['ranks'])
    if c.get('doc'):
        with gen.G(c['gseed']):
            h = train.Harness(c['kind'], X, ranks, tol=None, vi=c['vi'], explicit=False)
            with ctx.sut('%s as documented' % c['kind']):
                h.build()
                h.train(c['steps'])
            ctx.ev('documented_uses')
            judge(ctx, h, X, c['steps'], 'train(%d) with default arguments' % c['steps'])
        ctx.sig('documented', c['kind'], c['vi'], c['steps'])
        return
    with gen.G(c['gseed']):
        h = train.Harness(c['kind'], X, ranks, tol=0.0, vi=c['vi'], verbose=c['verbose'])
        with ctx.sut('%s build' % c['kind']):
            h.build()
        with ctx.sut('%s train(%d)' % (c['kind'], c['steps'])):
            h.train(c['steps'])
        judge(ctx, h, X, c['steps'], 'train(%d)' % c['steps'])
        if c['kind'] == 'hosvd':
            with ctx.sut('hosvd train()'):
                h.hist = h.model.train()
            judge(ctx, h, X, 1, 'train()')
        else:
            with ctx.sut('train(12)'):
                h.train(12)
            judge(ctx, h, X, 12, 'train(12)')
    if c['kind'] != 'hosvd':
        rel = [b for _, b in h.hist]
        # a tolerance between two residuals of the trajectory stops the same trajectory there
        cands = [k for k in range(1, len(rel)) if rel[k] < 0.999 * min(rel[:k]) and (k + 1) % c['vi' if c['vi'] > 0 else 'steps'] != 0]
        tols = []
        if cands:
            k = cands[c['seed'] % len(cands)]
            tols.append((0.5 * (rel[k] + min(rel[:k])), 30))
        tols.append((0.3, 40))
        tols.append((1e-3, 25))
        for tol, steps in tols:
            with gen.G(c['gseed']):
                h2 = train.Harness(c['kind'], X, ranks, tol=tol, vi=c['vi'], verbose=c['verbose'])
                with ctx.sut('%s train(%d), tol=%g' % (c['kind'], steps, tol)):
                    h2.build().train(steps)
                judge(ctx, h2, X, steps, 'train(%d) with tol=%.4g, stopped after %d steps' % (steps, tol, len(h2.hist)))
                n = len(h2.hist)
                ctx.ev('early_stops', n < steps)
                ctx.ev('early_stops_unvalidated', 1 < n < steps and not c['verbose'] and (c['vi'] == -1 or n % c['vi']))
    if X.size > 1:
        ctx.sig(c['kind'], c['shape'], c['ranks'], c['data'], c['vi'], c['verbose'], c['steps'])
