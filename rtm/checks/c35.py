"""C35 the shipped demonstration and experiment programs, run as programs."""
import builtins, contextlib, io, os, re, runpy, shutil, sys
import numpy as np
from rtm import core, train
RULE = ('one case = one program of tensorD/demo and tensorD/ex, or the example of README.md, run to its end as __main__ on random data with random arguments; recorded are the '
        'models it builds and trains, the data they get, the history the training returns, everything printed and every file written; '
        'distinct by (program, arguments, random data); non-trivial = at least one training of two or more steps')
ASSUMPTIONS = ['files outside the scratch directory and summary directories are redirected into it, the MovieLens file is a random one of smaller extents',
               'trainings of more steps than the case allows are cut to that number, so that a program ends in seconds']
DEMO = {'cp_demo': 'cp', 'ncp_demo': 'ncp', 'ntucker_demo': 'nt', 'tucker_demo': 'hooi', 'multigraph_demo': 'hooi'}
EX = {'cp_ex': 'cp', 'ncp_ex': 'ncp', 'ntucker_ex': 'nt', 'tucker_ex': 'hooi'}
ML = {'ml_cp': 'cp', 'ml_ncp': 'ncp', 'ml_ntucker': 'nt', 'ml_tucker': 'hooi'}
REQUIRED = ['assertions', 'trainings', 'lines_compared', 'long_histories', 'readme'] + list(DEMO) + list(EX) + list(ML)


def cases(tier, rng):
    res = []
    q = tier == 'quick'

    def add(prog, n, **kw):
        for i in range(n):
            res.append(dict(prog=prog, seed=rng.randrange(2 ** 31), cap=rng.choice([2, 9, 30, 51] if q or i % 2 else [400, 2000]), **kw))
    for p in DEMO:
        add(p, 4 if q else 30)
    add('readme', 4 if q else 30)
    for p in EX:
        for _ in range(24 if q else 300):
            N = [rng.randint(2, 9) for _ in range(3)]
            g = rng.randint(1, min(N))
            add(p, 1, N=N, g=g, d=rng.randint(1, g) if 'tucker' in p else rng.randint(1, 5), time=rng.randint(0, 40))
    for p in list(ML) * (3 if q else 20):
        add(p, 1, N=[rng.randint(20, 24) for _ in range(3)], entries=rng.choice([30, 400, 2000]))
    for p in [*EX, *ML] * (1 if q else 3):           # what the program does with a history of all the steps it asks for
        res.append(dict([r for r in res if r['prog'] == p][0], long=True, cap=2, seed=rng.randrange(2 ** 31)))
    rng.shuffle(res)
    return res


def files(scratch):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(scratch, 'files')) for f in fs)


@contextlib.contextmanager
def watched(c, scratch, csv):
    """records the trainings; no effect of the program leaves the scratch directory"""
    from tensorD.factorization.env import Environment
    from tensorD.dataproc.reader import TensorReader
    seen, undo, reads, envs = [], [], [], {}

    def patch(obj, name, new):
        undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)
    opn, einit, rread = builtins.open, Environment.__init__, TensorReader.read

    def redirected(path):
        return os.path.join(scratch, 'files', os.path.abspath(path).lstrip('/'))

    def open_(file, mode='r', *a, **k):
        if isinstance(file, (str, os.PathLike)):
            p = os.path.abspath(os.fspath(file))
            if not p.startswith(scratch):
                if any(m in mode for m in 'wax+'):
                    file = redirected(p)
                    os.makedirs(os.path.dirname(file), exist_ok=True)
                elif csv is not None and p.endswith('.csv') and not os.path.exists(p):
                    file = csv
        return opn(file, mode, *a, **k)

    def init(self, *a, **k):
        sp = k.pop('summary_path', a[1] if len(a) > 1 else None)
        einit(self, *a[:1], summary_path=sp if sp is None else os.path.join(scratch, 'logs', os.path.abspath(sp).lstrip('/')), **k)

    def read(self, full_shape=None):
        reads.append(full_shape)
        return rread(self, full_shape if full_shape is None else [n for n in c['N']])
    patch(builtins, 'open', open_)
    patch(io, 'open', open_)
    patch(Environment, '__init__', init)
    patch(TensorReader, 'read', read)
    for kind in train.KINDS:
        cls = train.cls(kind)[0]

        def cinit(self, env, *a, orig=cls.__init__, **k):
            envs[id(self)] = (self, env)
            orig(self, env, *a, **k)
        patch(cls, '__init__', cinit)

        def tr(self, *a, orig=cls.train, kind=kind, **k):
            steps = a[0] if a else k.pop('steps', None)
            r = orig(self, *([min(steps, c['cap'])] if steps is not None else []), **k)
            last = r
            if c.get('long') and steps is not None:        # as if it had made every step
                R = np.random.RandomState(c['seed'] % 2 ** 32)
                r = [[np.float32(v), np.float32(w)] for v, w in R.rand(max(1, steps - R.randint(0, 3)), 2) * 10.0 ** R.randint(-6, 4, (1, 2))]
            seen.append(dict(last=last, kind=kind, model=self, steps=steps, hist=r, full=np.array(self.full), factors=[np.array(f) for f in self.factors],
                             X=np.array(envs[id(self)][1].full_data())))
            return r
        patch(cls, 'train', tr)
    try:
        yield seen, reads
    finally:
        for obj, name, old in reversed(undo):
            setattr(obj, name, old)


def run(c, ctx):
    import tensorflow as tf
    prog = c['prog']
    ctx.ev(prog)
    scratch = os.path.join(os.getcwd(), 'prog%d' % next(train._uid))
    os.makedirs(scratch)
    csv = want = None
    if prog in ML:
        rng = np.random.RandomState(c['seed'] % 2 ** 32)
        flat = rng.choice(int(np.prod(c['N'])), c['entries'], replace=False)
        want = np.zeros(c['N'])
        want.ravel()[flat] = rng.randint(1, 6, c['entries'])
        csv = os.path.join(scratch, 'u1.base.csv')
        with open(csv, 'w') as f:
            for q in flat:
                i = np.unravel_index(q, c['N'])
                f.write('%d,%d,%d,%d\n' % (i + (want[i],)))
    argv = [prog] + ([str(v) for v in c['N'] + [c['g'], c['d'], c['time']]] if prog in EX else [])
    np.random.seed(c['seed'] % 2 ** 32)
    tf.reset_default_graph()
    tf.set_random_seed(1 + c['seed'] % 10 ** 6)
    out, old = io.StringIO(), sys.argv
    try:
        path = os.path.join(core.REPO, 'tensorD', 'demo' if prog in DEMO else 'ex', prog + '.py')
        if prog == 'readme':
            blocks = re.findall(r'```python\n(.*?)```', open(os.path.join(core.REPO, 'README.md')).read(), re.S)
            blocks = [b for b in blocks if '.train(' in b]
            if not blocks:
                raise core.Skip('no example')
            path = os.path.join(scratch, 'readme.py')
            with open(path, 'w') as f:
                f.write(blocks[0])
        sys.argv = argv
        with watched(c, scratch, csv) as (seen, reads):
            with ctx.sut('the program %s' % ' '.join(argv)), contextlib.redirect_stdout(out):
                runpy.run_path(path, run_name='__main__')
        judge(c, ctx, seen, out.getvalue(), files(scratch), want, ' '.join(argv))
    finally:
        sys.argv = old
        tf.reset_default_graph()
        shutil.rmtree(scratch, ignore_errors=True)


def rank(M):
    s = np.linalg.svd(M, compute_uv=False)
    return int((s > 1e-5 * s[0]).sum()) if s.size and s[0] > 0 else 0


def judge(c, ctx, seen, text, written, want, where):
    prog = c['prog']
    kind = dict(DEMO, readme='cp', **EX, **ML)[prog]
    runs = 3 if prog == 'multigraph_demo' else 1
    if not ctx.check(len(seen) == runs and all(s['kind'] == kind for s in seen), '%s trains %s, and should train %s %d times' % (where, [s['kind'] for s in seen], kind, runs)):
        return
    for i, s in enumerate(seen):
        ctx.ev('trainings')
        X, h = s['X'].astype(float), s['last']
        sc = np.sqrt(np.mean(X ** 2)) + 1e-30
        ctx.check(s['steps'] is None or s['steps'] >= 1, '%s trains %s steps' % (where, s['steps']))
        ctx.check(len(h) >= 1 and np.isfinite(np.asarray(h, float)).all(), '%s: history %s' % (where, str(h)[:200]))
        rmse, rel = train.hist_errors(X, s['full'])
        ctx.check(abs(h[-1][0] - rmse) <= 2e-3 * sc + 1e-2 * rmse and abs(h[-1][1] - rel) <= 2e-3 + 1e-2 * rel,
                  '%s: the history ends with %s, the result has %s' % (where, h[-1], (rmse, rel)))
        ctx.check(s['full'].shape == X.shape and all(f.shape[0] == n for f, n in zip(s['factors'], X.shape)), '%s: result of shape %s for data %s' % (where, s['full'].shape, X.shape))
        R = [f.shape[1] for f in s['factors']]
        if prog in EX:
            ctx.check(list(X.shape) == c['N'], '%s: data of shape %s' % (where, X.shape))
            ctx.check(R == [c['d']] * 3, '%s: factors with %s columns' % (where, R))
            ctx.check(X.min() >= 0, '%s: negative data' % where)
            if prog != 'tucker_ex':         # these make data without noise
                ranks = [rank(np.moveaxis(X, n, 0).reshape(X.shape[n], -1)) for n in range(3)]
                ctx.ev('noise_free_data')
                ctx.check(max(ranks) <= c['g'], '%s: data of multilinear rank %s' % (where, ranks))
        elif prog in ML:
            ctx.check(np.array_equal(X, want), '%s: trains on a tensor that is not the one of the file (%d entries differ)' % (where, (X != want).sum() if X.shape == want.shape else -1))
            ctx.check(R == [20] * 3, '%s: factors with %s columns' % (where, R))
        elif prog == 'multigraph_demo':
            ctx.check(np.array_equal(X, np.arange(60).reshape(3, 4, 5) + i), '%s: tensor %d is %s' % (where, i, X.ravel()[:5]))
            ctx.check(R == [2] * 3, '%s: factors with %s columns' % (where, R))
            d = float(np.sum(s['full'] - s['X']))
            nums = [float(v) for v in re.findall(r'^\s*(?:np\.float\d+\()?([-+]?\d+\.?\d*(?:e[-+]?\d+)?)\)?\s*$', text, re.M)]
            ctx.check(any(abs(v - d) <= 1e-6 * max(1, abs(d)) for v in nums), '%s: prints %s, the difference sums to %r' % (where, nums, d))
        else:
            n = 40 if prog == 'readme' else 20
            ctx.check(X.shape == (n,) * 3 and R == [10] * 3, '%s: data of shape %s, %s columns' % (where, X.shape, R))
    if prog in EX:
        line = [l for l in text.splitlines() if 'gR=' in l]
        nums = [int(v) for v in re.findall(r'\d+', line[0].split('with')[-1])] if line else None
        ctx.check(nums == c['N'] + [c['g'], c['d'], c['time']], '%s: announces %r' % (where, line))
    if prog in EX or prog in ML:
        if ctx.check(len(written) == 1, '%s: writes the files %s' % (where, written)):
            got = [[float(v) for v in l.split(',')] for l in open(written[0]) if l.strip()]
            h = seen[0]['hist']
            ctx.ev('lines_compared', len(got)); ctx.ev('long_histories', len(h) > 1000)
            ctx.check(len(got) == len(h) and all(len(a) == 2 and abs(a[0] - b[0]) <= 1e-9 + 1e-6 * abs(b[0]) and abs(a[1] - b[1]) <= 1e-9 + 1e-6 * abs(b[1]) for a, b in zip(got, h)),
                      '%s: the file has %d lines %s, the history %d entries %s' % (where, len(got), got[:2], len(h), h[:2]))
    else:
        ctx.check(not written, '%s: writes the files %s' % (where, written))
    ctx.sig(prog, c['seed'])
