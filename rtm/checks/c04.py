"""C04 tensor-times-matrix."""
import numpy as np
from rtm import gen, oracle
RULE = ('one case = one tensor (order 1..15), a set of modes with a matrix each, an addressing style (position, axes as list, tuple or range in two '
        'random orders, skip int/list, single matrix), transposed or not; distinct by (shape, modes, style, transpose, dtype, '
        'form); non-trivial = at least one extent > 1')
ASSUMPTIONS = ['at least one matrix remains after skipping', 'one element type per call', 'integers small enough not to overflow']
REQUIRED = ['assertions', 'style_axis', 'style_skip', 'style_pos', 'style_single', 'transposed', 'axis_orders_compared', 'axes_as_tuple', 'axes_as_range', 'skip_fewer_matrices', 'skip_list_fewer_matrices', 'order_above_13', 'large_tensors']


def cases(tier, rng):
    res = []
    n = 2500 if tier == 'quick' else 25000
    for i in range(n + (40 if tier == 'quick' else 400)):
        order = rng.choice([1, 2, 3, 3, 3, 4, 4, 5, 6, 7]) if i % 3 else rng.choice([2, 3, 4])
        if i % 16 in (4, 7, 9, 14):
            order = rng.choice([8, 10, 12, 13, 14, 15])
        if i >= n:
            order = rng.randint(1, 5)
        style = ['axis', 'skip', 'pos', 'single'][i % 4]
        shp = gen.shape(rng, order, cap=200, maxd=5) if i < n else gen.large(rng, order, rng.choice([5000, 20000, 70000, 300000]))
        if style == 'skip' and order == 1:
            style = 'pos'
        c = dict(shape=shp, style=style, transpose=bool((i // 4) % 2), dtype=rng.choice(gen.ARITH_DTYPES),
                 form=rng.choice(gen.FORMS), seed=rng.randrange(2 ** 31), kind=rng.choice(['normal', 'wide', 'sparse']),
                 new=[rng.choice([1, 2, 3, 4, shp[k]]) for k in range(order)])
        if i >= n:
            c['new'] = [rng.choice([1, 2, 3, 5, 12]) if m > 300 else min(m, 80) for m in shp]
            if c['dtype'] == 'float16':
                c['dtype'] = 'float32'
        if style == 'axis':
            k = rng.randint(1, order)
            c['axes'] = rng.sample(range(order), k)
            p = list(range(k)); rng.shuffle(p)
            c['perm'] = p
        elif style == 'skip':
            k = rng.randint(0 if i % 5 == 0 else 1, order - 1)
            sk = rng.sample(range(order), k)
            given = order if rng.random() < 0.6 else rng.randint(1, order)      # matrices for the first modes only
            sk = [m for m in sk if m < given]
            if len(sk) == given:
                sk = sk[1:]
            k = len(sk)
            c['given'] = given
            c['axes'] = [m for m in range(given) if m not in sk]
            c['skip'] = sk
            c['skind'] = rng.choice(['list', 'int', 'tuple']) if k == 1 else rng.choice(['list', 'tuple'])
        elif style == 'pos':
            c['axes'] = list(range(rng.randint(1, order)))
        else:
            c['axes'] = [0] if rng.random() < 0.5 else [rng.randrange(order)]
        res.append(c)
    return res


def run(c, ctx):
    from tensorD.base import ops
    shp, dt, tr = c['shape'], c['dtype'], c['transpose']
    sc = 0.25 if dt == 'float16' else 1
    X = gen.array(c['seed'], shp, dt, c['kind'])
    X = (X * sc).astype(dt)
    Ms = []
    for k in range(len(shp)):
        s = [c['new'][k], shp[k]]
        M = gen.array(c['seed'] + 1 + k, s[::-1] if tr else s, dt, 'normal')
        Ms.append((M * sc).astype(dt))
    ctx.ev('large_tensors', X.size >= 5000)
    if (len(shp) > 7 or X.size >= 5000) and np.dtype(dt).kind == 'i':      # keep the exact comparison within the type
        X, Ms = X % 3 - 1, [M % 3 - 1 for M in Ms]
    if len(shp) > 7 and dt == 'float16':
        Ms = [np.clip(M, -.25, .25) for M in Ms]
    with gen.G() as g:
        t = g.t(X, c['form'])
        m = [g.t(M, c['form']) for M in Ms]
        ax = c['axes']
        ctx.ev('order_above_13', len(shp) > 13)
        ctx.ev('style_' + c['style']); ctx.ev('transposed', tr)
        with ctx.sut('ttm %s' % c['style']):
            if c['style'] == 'axis':
                l1 = [m[i] for i in ax]
                a1 = list(ax)
                outs = [ops.ttm(t, l1, axis=a1, transpose=tr)]
                ax2 = [ax[i] for i in c['perm']]
                ctx.ev('axes_as_tuple')
                ctx.ev('axes_as_range', ax2 == list(range(len(ax2))))
                outs.append(ops.ttm(t, [m[i] for i in ax2], axis=range(len(ax2)) if ax2 == list(range(len(ax2))) else tuple(ax2), transpose=tr))
                ctx.check(len(l1) == len(ax) and a1 == list(ax), 'ttm modified the lists of its caller')
                ctx.ev('axis_orders_compared', ax2 != list(ax))
            elif c['style'] == 'skip':
                sk = c['skip'][0] if c['skind'] == 'int' else (tuple if c['skind'] == 'tuple' else list)(c['skip'])
                l1 = list(m[:c['given']])
                ctx.ev('skip_fewer_matrices', c['given'] < len(m))
                ctx.ev('skip_list_fewer_matrices', c['given'] < len(m) and c['skind'] != 'int' and len(c['skip']) > 0)
                outs = [ops.ttm(t, l1, transpose=tr, skip_matrices_index=sk)]
                ctx.check(len(l1) == c['given'] and (c['skind'] == 'int' or list(sk) == c['skip']), 'ttm modified the lists of its caller')
            elif c['style'] == 'pos':
                outs = [ops.ttm(t, [m[i] for i in ax], transpose=tr)]
            else:
                outs = [ops.ttm(t, m[ax[0]], transpose=tr) if ax == [0] else ops.ttm(t, m[ax[0]], axis=list(ax), transpose=tr)]
            got = g.run(outs)
    WX, WM = oracle.wide(X), [oracle.wide(M) for M in Ms]
    ref = oracle.ttm(WX, [(WM[i], i) for i in ax], tr)
    mag = oracle.ttm(np.abs(WX), [(np.abs(WM[i]), i) for i in ax], tr)
    n = int(sum(shp[i] for i in ax)) + 4 * len(ax)
    for o in got:
        oracle.close(ctx, 'ttm', o, ref, mag, oracle.terms(n), dt, 'ttm(%s)' % {k: c[k] for k in ('style', 'axes', 'transpose')})
    if X.size > 1:
        ctx.sig(shp, ax, c['style'], tr, dt, c['form'])
