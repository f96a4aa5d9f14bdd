"""C31 cone projection: nearest-point certificate (Moreau decomposition) and closed form on both implementations."""
import numpy as np
from rtm import gen
RULE = ('one case = vector and number (inside the cone, in the polar cone, in between, on both boundaries, zero vector); both implementations are '
        'executed and their result is projected again; distinct by (region, length, scale); non-trivial = in-between points')
ASSUMPTIONS = ['compared at 1e-5 (float32) and 1e-11 (float64) of norm plus number']
REQUIRED = ['assertions', 'certificates', 'inside', 'polar', 'between', 'boundary', 'zero_vectors', 'np', 'tf']


def cases(tier, rng):
    res = []
    for i in range(220 if tier == 'quick' else 3000):
        res.append(dict(n=rng.choice([1, 2, 3, 5, 20, 300, 5000]), scale=10.0 ** rng.choice([-9, -3, 0, 0, 0, 3, 9]), seed=rng.randrange(2 ** 31),
                        where=rng.choice(['inside', 'polar', 'between', 'between', 'between', 'edge', 'polaredge', 'zero+', 'zero-', 'zero0', 't0', 'nearly']),
                        dtype=rng.choice(['float32', 'float64']), form=rng.choice(['const', 'ph', 'var']), tform=rng.choice(['same', 'python'])))
    return res


def run(c, ctx):
    r = np.random.default_rng(c['seed'])
    x = r.normal(size=c['n']) * c['scale']
    w = c['where']
    nx = np.linalg.norm(x)
    if w.startswith('zero'):
        x = x * 0
    t = dict(inside=nx * r.uniform(1.01, 4), polar=-nx * r.uniform(1.01, 4), between=nx * r.uniform(-0.99, 0.99), edge=nx, polaredge=-nx, t0=0.0,
             nearly=nx * (1 + r.choice([-1, 1]) * 1e-4) * r.choice([-1, 1])).get(w, dict([('zero+', c['scale']), ('zero-', -c['scale']), ('zero0', 0.0)]).get(w))
    x, t = x.astype(c['dtype']), np.dtype(c['dtype']).type(t)
    if w in ('edge', 'polaredge'):
        x = np.zeros_like(x)
        x[0] = c['scale']
        t = np.dtype(c['dtype']).type(c['scale'] if w == 'edge' else -c['scale'])
    x64, t64 = x.astype(np.float64), float(t)
    nx = np.linalg.norm(x64)
    if nx <= t64:
        wx, wt, reg = x64, t64, 'inside'
    elif nx <= -t64:
        wx, wt, reg = 0 * x64, 0.0, 'polar'
    else:
        a = (nx + t64) / 2
        wx, wt, reg = x64 / nx * a, a, 'between'
    ctx.ev(reg); ctx.ev('zero_vectors', nx == 0); ctx.ev('boundary', w in ('edge', 'polaredge'))
    ev = 1e-5 if c['dtype'] == 'float32' else 1e-11
    tol = ev * (nx + abs(t64)) + 1e-30
    from tensorD.base import pitf_ops_numpy as PN, pitf_ops as PT
    arg = float(t) if c['tform'] == 'python' else t
    keep = x.copy()
    with ctx.sut('the NumPy cone projection'):
        p = PN.cone_projection_operator(x, arg)
        p2 = PN.cone_projection_operator(np.broadcast_to(np.asarray(p[0], dtype=c['dtype']), x.shape).copy(), p[1])
    ctx.check(np.array_equal(x, keep), 'the NumPy cone projection changed its argument')
    judge(ctx, 'np', w, x64, t64, p, p2, wx, wt, tol)
    with gen.G() as g:
        xt = g.t(x, c['form'])
        tt = arg if c['tform'] == 'python' else g.t(np.asarray(t), c['form'])
        with ctx.sut('the TensorFlow cone projection'):
            a = PT.cone_projection_operator(xt, tt)
            b = PT.cone_projection_operator(*a)
            p, p2 = g.run((list(a), list(b)))
    judge(ctx, 'tf', w, x64, t64, p, p2, wx, wt, tol)
    if reg == 'between':
        ctx.sig(w, c['n'], c['scale'], c['dtype'])


def judge(ctx, impl, w, x, t, p, p2, wx, wt, tol):
    ctx.ev(impl)
    what = '%s projection of x=%s t=%r' % (impl, x[:5].tolist(), t)
    for name, q in (('', p), ('projected again: ', p2)):
        if not ctx.check(isinstance(q, (tuple, list)) and len(q) == 2, '%s: %sreturns %r' % (what, name, q)):
            return
        qx = np.asarray(q[0], dtype=np.float64)
        ctx.check(qx.shape in (x.shape, ()) and (qx.shape == x.shape or qx == 0), '%s: %sshape %s' % (what, name, qx.shape))
        qx, qt = np.broadcast_to(qx, x.shape), float(q[1])
        e = max(np.abs(qx - wx).max(), abs(qt - wt))
        ctx.peak(impl, e / tol)
        ctx.check(e <= tol, '%s: %s%s %r, nearest point of the cone is %s %r' % (what, name, qx[:5].tolist(), qt, wx[:5].tolist(), wt))
        # certificate: in the cone, remainder in the polar cone, orthogonal
        rx, rt = x - qx, t - qt
        ctx.check(np.linalg.norm(qx) <= qt + 5 * tol and np.linalg.norm(rx) <= -rt + 5 * tol and abs(qx @ rx + qt * rt) <= 10 * tol * (np.linalg.norm(x) + abs(t)),
                  '%s: %snot the nearest point of the cone' % (what, name))
        ctx.ev('certificates')
