"""C14 accuracy of the history at every step; observation settings do not disturb the training."""
import os
import numpy as np
from rtm import gen, train
RULE = ('one case = one model and data set, trained with 4..6 observation settings (interval, verbosity, summary directory, step count); '
        'the state after every step is read while it trains and compared with the history entry of this step and with the other '
        'settings; distinct by (model, shape, ranks, data kind, settings); non-trivial = at least two steps')
ASSUMPTIONS = ['data with a non-zero entry', 'settings are compared on short trainings with a relative difference of 2e-3 (bit-identical in '
               'practice)']
REQUIRED = ['assertions', 'history_entries_checked', 'settings_compared', 'tolerance_stops', 'final_states', 'long_histories', 'cp', 'ncp', 'nt', 'hooi']
EPS = 1.2e-7


def cases(tier, rng):
    res = []
    for i in range(120 if tier == 'quick' else 1600):
        kind = ['cp', 'ncp', 'nt', 'hooi'][i % 4]
        order = rng.choice([2, 3, 3, 3, 4, 5])
        shp = train.shape_of(rng, order)
        sets = []
        for j in range(rng.choice([3, 4])):
            sets.append([rng.choice([-1, 1, 2, 3, 4, 5, 7, 10, 25, 50]), rng.random() < 0.4, rng.choice(['auto', 'nested', 'dots'])])
        res.append(dict(kind=kind, shape=shp, ranks=train.ranks_for(rng, kind, shp), seed=rng.randrange(2 ** 31),
                        gseed=rng.randrange(1, 10 ** 6), settings=sets,
                        data=rng.choice(['uniform', 'normal', 'sparse', 'int', 'noisycp', 'lowcp', 'zslice', 'sparse_mixed', 'negative']),
                        scale=rng.choice([1, 1, 0.01, 100]), steps=rng.choice([2, 3, 4, 6, 8, 9, 12]) if rng.random() < 0.93 else rng.choice([40, 75, 120]), more=rng.randint(1, 5)))
    for i in range(8 if tier == 'quick' else 80):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 8))
    for i in range(4 if tier == 'quick' else 20):       # more than a thousand steps
        res.append(dict(res[20 + i], steps=1030, settings=[[100, False, 'auto'], [-1, True, 'auto']], more=1))
    for i in range(4 if tier == 'quick' else 16):       # thousands of steps
        kind = ['cp', 'ncp', 'nt', 'hooi'][i % 4]
        shp = train.shape_of(rng, 3, maxd=4, cap=40)
        n = rng.randint(2100, 3600) if tier == 'quick' else rng.randint(4100, 11000)
        res.append(dict(kind=kind, long=True, shape=shp, ranks=train.ranks_for(rng, kind, shp), seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6),
                        steps=n, short=rng.randint(5, 40), data=rng.choice(['uniform', 'normal', 'noisycp']), vi=rng.choice([-1, 1000])))
    return res


def entry_tolerances(kind, s, X, want):
    _, mag = train.recon(kind, s)
    n = X.size
    m = np.abs(np.asarray(s['full'], dtype=float)) + np.abs(X)
    terms = 6 * X.ndim
    u1 = np.sqrt((m ** 2).sum() / max(1, np.count_nonzero(X)))
    u2 = np.sqrt((m ** 2).sum() / (X.astype(float) ** 2).sum())
    return [8 * (n + 8) * EPS * w + 4 * EPS * u for w, u in zip(want, (u1, u2))]


def check_hist(ctx, kind, X, states, hist, where):
    for k, (s, e) in enumerate(zip(states, hist)):
        want = train.hist_errors(X, s['full'])
        tols = entry_tolerances(kind, s, X, want)
        if not ctx.check(len(e) == 2, '%s: history entry %d has %d parts' % (where, k + 1, len(e))):
            return
        for name, got, w, tol in zip(('RMSE', 'relres'), e, want, tols):
            ctx.ev('history_entries_checked')
            tol += 1e-30
            ctx.peak(name, abs(float(got) - w) / tol)
            ctx.check(abs(float(got) - w) <= tol, '%s: history says %s %.9g after step %d, the model of that step has %.9g (tolerance %.2g)' % (
                where, name, float(got), k + 1, w, tol))


def final_entry(ctx, h, X, hist, where):
    """the last entry belongs to the state in which the training ended, and there is one entry per state passed through"""
    ctx.ev('final_states')
    check_hist(ctx, h.kind, X, [h.final], hist[-1:], where + ', final state (entry numbered 1 here is the last)')


def run_long(c, ctx):
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed']))
    kind = c['kind']
    hists = []
    with gen.G(c['gseed']):
        h = train.Harness(kind, X, list(c['ranks']), tol=0.0, vi=c['vi'])
        with ctx.sut('%s training for %d steps' % (kind, c['steps'])):
            h.build()
            for n in (c['short'], c['steps']):
                hists.append(h.train(n))
        h.final = h.snap()
    short, hist = hists
    where = '%s, %d steps' % (kind, c['steps'])
    ctx.check(len(short) == c['short'] and len(hist) == c['steps'], '%s: histories of %d and %d entries for %d and %d steps without a tolerance' % (
        where, len(short), len(hist), c['short'], c['steps']))
    ctx.check(all(np.isfinite(float(x)) for e in hist for x in e), '%s: entries are not finite' % where)
    final_entry(ctx, h, X, hist, where)
    for k in range(min(8, len(short), len(hist))):
        dh = max(abs(float(a) - float(b)) / (max(abs(float(a)), abs(float(b))) + 0.01) for a, b in zip(short[k], hist[k]))
        ctx.check(dh <= 2e-3, '%s: history entry %d is %s, in a training of %d steps it is %s' % (where, k + 1, hist[k], c['short'], short[k]))
    ctx.ev('long_histories')
    ctx.sig(kind, 'long', c['steps'])


def run(c, ctx):
    if c.get('long'):
        return run_long(c, ctx)
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'], scale=c['scale']))
    kind = c['kind']

    def fresh(vi, verbose, sdir, steps, tol=0.0):
        d = None
        if sdir == 'nested':
            d = os.path.join(os.getcwd(), 'a%d' % next(train._uid), 'b', 'c')
        elif sdir == 'dots':
            d = os.path.join(os.getcwd(), 'x', '..', 'sum mary-%d' % next(train._uid))
        g = gen.G(c['gseed'])
        g.__enter__()
        h = train.Harness(kind, X, list(c['ranks']), tol=tol, vi=vi, verbose=verbose, sumdir=d)
        with ctx.sut('%s build/train(%d) vi=%s verbose=%s' % (kind, steps, vi, verbose)):
            h.build()
            if d is not None:
                os.makedirs(d, exist_ok=True)
            st, hist = h.trajectory(steps, ctx)
        g.__exit__(None, None, None)
        ctx.ev('trainings')
        return h, st, hist
    h, st, hist = fresh(-1, False, 'auto', c['steps'])
    final_entry(ctx, h, X, hist, '%s, plain' % kind)
    ctx.ev(kind)
    ctx.check(isinstance(hist, list), 'the history is a %s' % type(hist).__name__)
    if not ctx.check(1 <= len(hist) <= c['steps'], 'history of length %d for %d steps' % (len(hist), c['steps'])):
        return
    check_hist(ctx, kind, X, st, hist, '%s, plain' % kind)
    for vi, verbose, sdir in c['settings'] + [[-1, False, 'more']]:
        steps = c['steps'] + (c['more'] if sdir == 'more' else 0)
        h2, st2, hist2 = fresh(vi, verbose, sdir, steps)
        lab = '%s vi=%s verbose=%s %s' % (kind, vi, verbose, sdir)
        check_hist(ctx, kind, X, st2, hist2, lab)
        final_entry(ctx, h2, X, hist2, lab)
        ctx.ev('settings_compared')
        if sdir == 'more':
            # more requested steps: same states, unless the shorter one had stopped early (then the same stop)
            if len(hist) < c['steps']:
                ctx.check(len(hist2) == len(hist), '%s: %d steps requested: stops at %d; %d requested: stops at %d' % (
                    lab, c['steps'], len(hist), steps, len(hist2)))
            else:
                ctx.check(len(hist2) >= len(hist), '%s: asked for %d steps it makes %d, asked for %d it makes %d' % (
                    lab, c['steps'], len(hist), steps, len(hist2)))
        else:
            if not ctx.check(len(hist2) == len(hist), '%s: %d steps instead of %d' % (lab, len(hist2), len(hist))):
                continue
        for k in range(8, min(len(hist), len(hist2))):
            # later steps: rounding may have been amplified where it is not bit-identical
            dh = abs(float(hist[k][1]) - float(hist2[k][1])) / (abs(float(hist[k][1])) + 0.01)
            ctx.ev('late_entries_compared')
            ctx.check(dh <= 5e-2, '%s: history entry %d is %s, without these settings %s' % (lab, k + 1, hist2[k], hist[k]))
        for k in range(min(len(st), len(st2), 8)):
            w = train.same(st[k], st2[k])
            ctx.ev('states_compared'); ctx.ev('states_bit_identical', w == 0.0)
            ctx.peak('setting', (w or 0) / 2e-3)
            # zero-ish residual histories carry rounding only: compare absolutely on the scale of one
            dh = max(abs(float(a) - float(b)) / (max(abs(float(a)), abs(float(b))) + (0.01 if i else 0.01 * c['scale'])) for i, (a, b) in
                     enumerate(zip(hist[k], hist2[k])))
            ctx.check(w is not None and w <= 2e-3, '%s: state after step %d differs by %s from the one without these settings' % (lab, k + 1, w))
            ctx.check(dh <= 2e-3, '%s: history entry %d is %s, without these settings %s' % (lab, k + 1, hist2[k], hist[k]))
    # the same history, cut where a tolerance ends the training
    rel = [float(b) for _, b in hist]
    cands = [k for k in range(1, len(rel)) if rel[k] < 0.99 * min(rel[:k]) and 0.5 * (rel[k] + min(rel[:k])) < 1]
    tols = [0.5 * (rel[k] + min(rel[:k])) for k in cands[:1] + cands[-1:]] + [0.05]
    for j, tol in enumerate(tols):
        vi, verbose, sdir = c['settings'][j % len(c['settings'])]
        h3, st3, hist3 = fresh(vi, verbose, sdir, len(rel) + 3, tol)
        lab = '%s vi=%s verbose=%s tol=%.5g' % (kind, vi, verbose, tol)
        ctx.ev('tolerance_trainings')
        ctx.ev('tolerance_stops', len(hist3) < len(rel) + 3)
        check_hist(ctx, kind, X, st3, hist3, lab)
        final_entry(ctx, h3, X, hist3, lab)
        for k in range(min(len(hist), len(hist3), 8)):
            dh = max(abs(float(a) - float(b)) / (max(abs(float(a)), abs(float(b))) + (0.01 if i else 0.01 * c['scale'])) for i, (a, b) in
                     enumerate(zip(hist[k], hist3[k])))
            ctx.check(dh <= 2e-3, '%s: history entry %d is %s, with tolerance 0 it is %s' % (lab, k + 1, hist3[k], hist[k]))
    if len(hist) > 1:
        ctx.sig(kind, c['shape'], c['ranks'], c['data'], c['settings'])
