"""Harness around the five dense models: builds and trains them through the public interface, observes what they publish,
and can watch, delay or fail every session call."""
import itertools, os, shutil, threading
import numpy as np
from rtm.core import Runaway

KINDS = ('cp', 'ncp', 'nt', 'hosvd', 'hooi')
ITER = ('cp', 'ncp', 'nt', 'hooi')
_uid = itertools.count()
_tls = threading.local()
_installed = [False]
CONFIG = [None]           # session configuration for sessions made without one


def hooks():
    if not hasattr(_tls, 'hooks'):
        _tls.hooks = []
    return _tls.hooks


def install():
    """every session call of this process reports to the hooks of its thread"""
    if _installed[0]:
        return
    _installed[0] = True
    from tensorflow.python.client import session as S
    orig = S.BaseSession.run
    oinit = S.BaseSession.__init__

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        hs = list(hooks())
        for h in hs:
            h('pre', self, fetches)
        r = orig(self, fetches, feed_dict, options, run_metadata)
        for h in hs:
            h('post', self, r)
        return r

    def init(self, target='', graph=None, config=None):
        oinit(self, target, graph, config if config is not None or CONFIG[0] is None else CONFIG[0]())
    S.BaseSession.run = run
    S.BaseSession.__init__ = init


def elsewhere(g, fn, limit=150):
    """fn() in another thread, with g as its default graph; its result or exception, Runaway if it does not end"""
    box = []

    def body():
        try:
            with g.as_default():
                box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(limit)
    if not box:
        raise Runaway('a call from another thread does not return within %d s' % limit)
    if not box[0][0]:
        raise box[0][1]
    return box[0][1]


def cls(kind):
    from tensorD.factorization.cp import CP_ALS
    from tensorD.factorization.ncp import NCP_BCU
    from tensorD.factorization.ntucker import NTUCKER_BCU
    from tensorD.factorization.tucker import HOSVD, HOOI
    return dict(cp=(CP_ALS, CP_ALS.CP_Args), ncp=(NCP_BCU, NCP_BCU.NCP_Args), nt=(NTUCKER_BCU, NTUCKER_BCU.NTUCKER_Args),
                hosvd=(HOSVD, HOSVD.HOSVD_Args), hooi=(HOOI, HOOI.HOOI_Args))[kind]


class Harness(object):
    """build/train/observe one model in the default graph"""

    def __init__(self, kind, X, ranks, tol=0.0, vi=-1, verbose=False, sumdir=None, provider=None, explicit=True, env=None):
        install()
        from tensorD.factorization.env import Environment
        from tensorD.dataproc.provider import Provider
        self.kind, self.X, self.ranks = kind, X, ranks
        if provider is None:
            provider = Provider()
            provider.full_tensor = lambda: X
        self.provider = provider
        self.sumdir = sumdir or os.path.join(os.getcwd(), 'sum%d' % next(_uid))
        self.env = env or Environment(provider, summary_path=self.sumdir)
        self.cls, self.args_cls = cls(kind)
        kw = {}
        kw['rank' if kind in ('cp', 'ncp') else 'ranks'] = ranks[0] if kind in ('cp', 'ncp') else ranks
        if kind != 'hosvd':
            if tol is not None:
                kw['tol'] = tol
            if vi != -1 or explicit:
                kw['validation_internal'] = vi
            if verbose or explicit:
                kw['verbose'] = verbose
        self.kw = kw
        self.model = self.cls(self.env)
        self.args = None          # an argument object to build from, if it is shared or kept
        self.runs = 0
        self.hist = None

    def reargue(self, ranks, vi):
        """other arguments for the next build"""
        self.args = None
        self.ranks = ranks
        self.kw['rank' if self.kind in ('cp', 'ncp') else 'ranks'] = ranks[0] if self.kind in ('cp', 'ncp') else ranks
        if self.kind != 'hosvd':
            self.kw['validation_internal'] = vi

    def build(self):
        self.model.build_model(self.args_cls(**self.kw) if self.args is None else self.args)
        return self

    def train(self, steps, watch=None, keep_log=False):
        limit = 60 * (steps + 10)
        n = [0]

        def guard(when, sess, x):
            if when == 'pre':
                n[0] += 1
                if n[0] > limit:
                    raise Runaway('%d session calls for %d requested steps' % (n[0], steps))
            if watch is not None:
                watch(when, sess, x, n[0])
        hs = hooks()
        hs.append(guard)
        try:
            self.hist = self.model.train(steps) if self.X.shape[0] % 3 else self.model.train(steps=steps)
        finally:
            hs.remove(guard)
            self.runs = n[0]
            if not keep_log:
                shutil.rmtree(self.sumdir, ignore_errors=True)
        return self.hist

    def trajectory(self, steps, ctx, min_steps=1):
        """all published states of ONE training: read off between session calls; if the model does not publish between
        steps, train again with 1, 2, ... steps (same seed, so the same trajectory)"""
        states, last = [], [None, None]

        def look(when, sess, x, n):
            if when == 'pre' and n > 1:
                f, g = self.model.factors, self.model.full
                if f is not None and g is not None and f is not last[0] and g is not last[1]:
                    last[:] = [f, g]
                    states.append(self.snap(inrun=True))
        last[:] = [self.model.factors, self.model.full]
        self.train(steps, watch=look)
        if self.model.factors is not last[0]:
            states.append(self.snap(inrun=True))
        hist = self.hist
        self.final, self.read = self.snap(inrun=True), len(states)
        if len(states) == len(hist) and all(self.coherent(s) for s in states[:-1]):
            ctx.ev('states_read_in_one_training', len(states))
            # the core of a Tucker model is updated before the factors of the same step: states are read when the factors and the
            # full tensor have changed, so all parts belong together (and are seen to)
            return states, hist
        states = []
        for k in range(1, len(hist) + 1):
            self.train(k)
            states.append(self.snap(inrun=True))
        self.hist = hist
        ctx.ev('states_read_by_retraining', len(states))
        return states, hist

    def coherent(self, s):
        if s['full'] is None or (self.kind not in ('cp', 'ncp') and s['core'] is None):
            return False
        try:
            ref, mag = recon(self.kind, s)
        except Exception:
            return False
        return ref.shape == s['full'].shape and not np.any(np.abs(ref - s['full']) > 1e-3 * mag + 1e-30)

    def snap(self, inrun=False):
        s = snapshot(self.kind, self.model)
        if inrun and self.kind == 'ncp':
            s['lambdas'] = None       # all one, and published only when the training returns
        return s


def cp_(a):
    return None if a is None else np.array(a, copy=True)


def snapshot(kind, m):
    d = dict(factors=None if m.factors is None else [cp_(f) for f in m.factors], full=cp_(m.full))
    if kind in ('cp', 'ncp'):
        d['lambdas'] = cp_(m.lambdas)
    else:
        d['core'] = cp_(m.core)
    d['finish'] = m.train_finish
    return d


def flat(s):
    out = [np.asarray(a, dtype=float).reshape(-1) for a in s['factors']] + [np.asarray(s['full'], dtype=float).reshape(-1)]
    if s.get('lambdas') is not None:
        out.append(np.asarray(s['lambdas'], dtype=float).reshape(-1))
    if s.get('core') is not None:
        out.append(np.asarray(s['core'], dtype=float).reshape(-1))
    return out


def early(ctx, kind, X, ranks, gseed, states, hist, seed, build=None):
    """the same training with tolerances (stops on the residual, stalls) and other observation settings ends in the state that the
    judged trajectory has after this many steps"""
    from rtm import gen
    rel = [float(b) for _, b in hist]
    r = np.random.default_rng(seed)
    low = [0.5 * (rel[k] + min(rel[:k])) for k in range(1, len(rel)) if rel[k] < 0.99 * min(rel[:k])]
    tols = [float(r.choice([0.3, 0.1, 0.02, 1e-3]))] + ([float(r.choice(low))] if low else [])
    for tol in tols:
        vi, verbose = int(r.choice([-1, -1, 2, 3])), bool(r.random() < 0.15)
        n = len(states) + int(r.integers(0, 3))
        with gen.G(gseed):
            h = Harness(kind, X, list(ranks), tol=tol, vi=vi, verbose=verbose)
            what = '%s with tol=%.4g vi=%s verbose=%s' % (kind, tol, vi, verbose)
            with ctx.sut('%s: build/train(%d)' % (what, n)):
                if build is None:
                    h.build()
                else:
                    build(h)
                got = h.train(n)
            s = h.snap(inrun=True)
        k = len(got)
        if not ctx.check(1 <= k <= n, '%s: history of %d entries' % (what, k)):
            return
        ctx.ev('trainings_with_tolerance')
        if k <= min(len(states), 12):
            ctx.ev('early_stops', k < n)
            w = same(states[k - 1], s)
            ctx.check(w is not None and w <= 2e-3, '%s: the result after %d of %d steps differs by %s from the state of this step without a tolerance' % (what, k, n, w))


def same(a, b, rtol=0.0):
    """worst difference of two snapshots relative to the largest entry of each part; None if shapes differ"""
    fa, fb = flat(a), flat(b)
    if [x.shape for x in fa] != [x.shape for x in fb]:
        return None
    w = 0.0
    for x, y in zip(fa, fb):
        if x.size == 0 or np.array_equal(x, y):
            continue
        sc = max(np.abs(x).max(), np.abs(y).max(), 1e-30)
        d = np.abs(x - y).max() / sc
        if not d == d:
            return np.inf
        w = max(w, d)
    return w


def data(spec):
    """spec: shape, kind, seed, scale, R -> float32 array"""
    r = np.random.default_rng(spec['seed'])
    s, k = spec['shape'], spec['kind']
    R = spec.get('R', 2)
    if k in ('lowcp', 'lowcp_pos', 'noisycp'):
        A = [r.random((n, R)) + 0.1 if k != 'lowcp' else r.normal(size=(n, R)) for n in s]
        X = np.ones([1] * len(s) + [R])
        for i, a in enumerate(A):
            X = X * a.reshape([1] * i + [s[i]] + [1] * (len(s) - i - 1) + [R])
        X = X.sum(-1)
        if k == 'noisycp':
            X = X + 0.05 * np.abs(X).max() * np.abs(r.normal(size=s))
    elif k in ('lowtucker', 'lowtucker_pos'):
        f = r.random if k.endswith('pos') else r.standard_normal
        ranks = spec['ranks']
        X = f(ranks)
        for i, n in enumerate(s):
            X = np.moveaxis(np.tensordot(f((n, ranks[i])), X, (1, i)), 0, i)
    elif k == 'normal':
        X = r.normal(size=s)
    elif k == 'uniform':
        X = r.random(s)
    elif k == 'sparse':
        X = r.random(s) * (r.random(s) < 0.4)
    elif k == 'sparse_mixed':
        X = r.normal(size=s) * (r.random(s) < 0.5)
    elif k == 'int':
        X = r.integers(0, 10, s).astype(float)
    elif k == 'negative':
        X = -r.random(s) - 0.1
    elif k == 'zslice':
        X = r.normal(size=s)
        for ax in range(len(s)):
            if s[ax] > 1:
                X[tuple([slice(None)] * ax + [int(r.integers(s[ax]))])] = 0
    elif k == 'arange':
        X = np.arange(int(np.prod(s))).reshape(s).astype(float)
    elif k == 'graded':          # singular values that fall over four decades or more
        m = min(s)
        core = np.zeros([m] * len(s))
        core[tuple([np.arange(m)] * len(s))] = np.logspace(0, -r.uniform(3, 5), m) if m > 1 else 1.0
        X = core
        for i, n in enumerate(s):
            X = np.moveaxis(np.tensordot(np.linalg.qr(r.normal(size=(n, m)))[0], X, (1, i)), 0, i)
    elif k == 'takeover':        # a weak block and a strong one: a start on the weak one moves over to the strong one late
        X = 0.01 * r.random(s)
        X[tuple(slice(0, (n + 1) // 2) for n in s)] += r.uniform(0.05, 0.5)
        X[tuple(slice(n // 2, None) for n in s)] += 1 + 0.3 * r.random([n - n // 2 for n in s])
    elif k == 'spike':
        X = np.zeros(s); X[tuple(int(r.integers(n)) for n in s)] = 1
    else:
        raise ValueError(k)
    X = (X * spec.get('scale', 1.0)).astype(np.float32)
    if not X.any():
        X[tuple(0 for _ in s)] = spec.get('scale', 1.0)
    return X


def shape_of(rng, order, maxd=6, cap=220, mind=1, wide=0.1):
    if rng.random() < wide:         # beyond the usual sizes: more modes, or extents of tens
        if rng.random() < 0.4:
            order = rng.choice([6, 6, 7])
            maxd, cap = 3, 800
        else:
            order, maxd, cap, mind = min(order, 3), rng.choice([12, 24, 40]), 4000, 2
    while True:
        s = [rng.choice([1] + list(range(2, maxd + 1)) * 2) if mind == 1 else rng.randint(mind, maxd) for _ in range(order)]
        p = 1
        for x in s:
            p *= x
        if 2 <= p <= cap:
            return s


def tucker_ranks(rng, shape, kind):
    """ranks for which the model is defined: HOSVD/HOOI need the unfoldings (of the projections) to have that many columns"""
    while True:
        top = 4 if max(shape) < 10 else 11
        if kind == 'nt':
            return [rng.randint(1, min(top, n + 1)) for n in shape]
        r = [rng.randint(1, min(n, top)) for n in shape]
        p = 1
        for x in r:
            p *= x
        if all(x * x <= p for x in r):      # r_n <= product of the other ranks
            return r


LARGE = [[60, 50, 40], [30, 25, 20], [40, 40, 40], [300, 12, 8], [8, 300, 12], [12, 8, 300], [200, 90], [90, 200], [1500, 4, 3], [3, 4, 1500], [20, 12, 10, 8], [700, 3]]


def enlarge(rng, c, kind, steps=8):
    """the same kind of case on a tensor of thousands of entries, with ranks to match"""
    c = dict(c, large=True, seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6))
    shp = c['shape'] = list(rng.choice(LARGE))
    if kind in ('cp', 'ncp'):
        r = [rng.choice([2, 5, 10, 17, 20])]
        if 'ranks' in c:
            c['ranks'] = r
        else:
            c['R'] = r[0]
    else:
        while True:
            r = [rng.randint(2, min(n + (kind == 'nt'), 9)) for n in shp]
            if kind == 'nt' or all(x * x <= np.prod(r) for x in r):
                break
        c['ranks'] = r
        if 'tr' in c:
            c['tr'] = [rng.randint(1, x) for x in r]
    if 'steps' in c:
        c['steps'] = rng.randint(2, steps)
    return c


def ranks_for(rng, kind, shape):
    if kind in ('cp', 'ncp'):
        return [rng.choice([1, 2, 2, 3, 3, 4, 5]) if max(shape) < 10 or rng.random() < 0.5 else rng.randint(6, 14)]
    return tucker_ranks(rng, shape, kind)


def hist_errors(X, full):
    """(zero-ignoring RMSE, relative residual) from the definition, in double precision"""
    X, F = X.astype(np.float64), np.asarray(full, dtype=np.float64)
    d = (X - F)
    return np.sqrt((d[X != 0] ** 2).mean()), np.sqrt((d ** 2).sum()) / np.sqrt((X ** 2).sum())


def recon(kind, s):
    """(reconstruction, magnitude) from published parts in double precision"""
    from rtm import oracle
    if kind in ('cp', 'ncp'):
        lam = s['lambdas']
        lam = np.ones(s['factors'][0].shape[1]) if lam is None and kind == 'ncp' else np.asarray(lam, dtype=float).reshape(-1)
        return oracle.kruskal(s['factors'], lam), oracle.kruskal([np.abs(a) for a in s['factors']], np.abs(lam))
    return oracle.tucker(s['core'], s['factors']), oracle.tucker(np.abs(s['core']), [np.abs(a) for a in s['factors']])
