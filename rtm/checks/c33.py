"""C33 what a training prints, parsed and compared with what it returns, publishes and logs."""
import contextlib, glob, io, os, re, shutil
import numpy as np
from rtm import gen, train
RULE = ('one case = one model, configuration and stop reason, trained once or twice (the second time possibly disturbed by a failure); everything '
        'written to standard output during the training is captured, and its report lines are matched one by one against the returned history, the '
        'validation steps and the published result; distinct by (model, interval, verbosity, steps, stop); non-trivial = at least one report line')
ASSUMPTIONS = ['a report line is one with "step" and a number or with "finish" and a number; the rest of its wording is free',
               'the printed numbers are compared to the digits printed']
REQUIRED = ['assertions', 'report_lines', 'final_lines', 'early_stops', 'failed_trainings', 'cp', 'ncp', 'nt', 'hosvd', 'hooi', 'pitf', 'pitf_np']
NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)'


def cases(tier, rng):
    res = []
    for i in range(120 if tier == 'quick' else 1500):
        kind = train.KINDS[i % 5]
        shp = train.shape_of(rng, rng.choice([2, 3, 3, 4]), maxd=5, cap=120)
        res.append(dict(kind=kind, shape=shp, ranks=train.ranks_for(rng, kind, shp), seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6),
                        vi=rng.choice([-1, -1, 1, 2, 3, 4, 7, 10, 100]), verbose=rng.random() < 0.2, steps=rng.choice([1, 2, 3, 4, 6, 9, 12, 13, 31]),
                        tol=rng.choice([0, 0, 0.05, 0.3, 0.01]), again=rng.random() < 0.4, fail=rng.random() < 0.4, scale=rng.choice([1, 1, 100, 0.1]),
                        data=rng.choice(['uniform', 'normal', 'noisycp', 'sparse', 'int', 'lowcp_pos'])))
    for i in range(6 if tier == 'quick' else 40):
        res.append(dict(kind='pitf', shape=[rng.randint(2, 4) for _ in range(3)], spn=rng.choice([6, 10]), steps=rng.choice([1, 2, 5, 7, 12]),
                        vi=rng.choice([-1, 1, 2, 3]), seed=rng.randrange(2 ** 31), gseed=rng.randrange(1, 10 ** 6)))
        res.append(dict(kind='pitf_np', shape=[rng.randint(2, 4) for _ in range(3)], spn=rng.choice([6, 10]), steps=rng.choice([1, 2, 5, 12]), seed=rng.randrange(2 ** 31)))
    for i in range(5 if tier == 'quick' else 50):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 8))
    for i in range(5 if tier == 'quick' else 20):       # more than a thousand steps
        res.append(dict(res[20 + i], steps=rng.choice([1001, 1030]), vi=rng.choice([-1, 100, 500]), tol=0, verbose=False))
    return res


def parse(text):
    """([(step, {name: (value, printed)})], [final line], ...)"""
    steps, finals = [], []
    for line in text.splitlines():
        m = re.search(r'\bstep\s*[=:]?\s*(\d+)', line)
        vals = {k.lower().strip(): v for k, v in re.findall(r'([A-Za-z][A-Za-z ]*?)\s*[=:]\s*(%s)' % NUM, line)}
        if 'finish' in line and re.search(r'\d', line):
            finals.append((line, vals))
        elif m:
            vals.pop('step', None)
            steps.append((int(m.group(1)), vals))
    return steps, finals


def digits(s, x):
    """the printed number s is x to the digits printed (and to single precision)"""
    if 'nan' in s or 'inf' in s:
        return not np.isfinite(float(x))
    dec = len(re.split('[eE]', s)[0].split('.')[1]) if '.' in s else 0
    return abs(float(s) - float(x)) <= 0.51 * 10.0 ** -dec + 1e-6 * abs(float(x))


def one(ctx, vals, want, where):
    for name, x in want.items():
        keys = [k for k in vals if any(a in k for a in name.split('|'))]
        if not ctx.check(keys, '%s does not show the %s: %s' % (where, name.split('|')[0], vals)):
            continue
        ctx.check(all(digits(vals[k], x) for k in keys), '%s shows %s, the training has %s = %.10g' % (where, vals, name.split('|')[0], float(x)))


def run(c, ctx):
    kind = c['kind']
    ctx.ev(kind)
    if kind == 'pitf':
        return run_pitf(c, ctx)
    if kind == 'pitf_np':
        return run_np(c, ctx)
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'], scale=c['scale']))
    with gen.G(c['gseed']):
        h = train.Harness(kind, X, list(c['ranks']), tol=c['tol'], vi=c['vi'], verbose=c['verbose'], explicit=c['seed'] % 2 == 0)
        with ctx.sut('build'):
            h.build()
        for rep in range(2 + c['seed'] % 2 if c['again'] else 1):
            if rep:           # the following trainings make another number of steps
                c = dict(c, steps=1 + (c['seed'] // 7 * rep + c['steps']) % 15)
                ctx.ev('trained_again_with_other_steps')
            if c['fail']:
                stopped(c, ctx, h)
            out = io.StringIO()
            with ctx.sut('train'), contextlib.redirect_stdout(out):
                h.train(c['steps'])
            judge(c, ctx, h, X, out.getvalue(), '%s vi=%s verbose=%s tol=%s%s' % (kind, c['vi'], c['verbose'], c['tol'], ' (again)' if rep else ''))
    ctx.sig(kind, c['vi'], c['verbose'], c['steps'], c['tol'])


class Stop(Exception):
    pass


def stopped(c, ctx, h):
    """a training that fails on its way does not announce that it finished"""
    calls = {'hosvd': 1}.get(c['kind'], 1 + c['seed'] % (c['steps'] + 2))

    def watch(when, sess, x, n):
        if when == 'pre' and n == calls:
            raise Stop()
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            h.train(c['steps'], watch=watch)
    except Stop:
        ctx.ev('failed_trainings')
        ctx.check(not parse(out.getvalue())[1], '%s: a training that failed announces %r' % (c['kind'], out.getvalue()[-200:]))


def judge(c, ctx, h, X, text, where):
    steps, finals = parse(text)
    ctx.ev('report_lines', len(steps)); ctx.ev('final_lines', len(finals))
    if not ctx.check(len(finals) == 1, '%s: %d lines announce the end: %r' % (where, len(finals), text[-300:])):
        return
    line, vals = finals[0]
    if c['kind'] == 'hosvd':
        want = train.hist_errors(X, h.model.full)[0]
        keys = [k for k in vals if 'rmse' in k]
        ctx.check(keys and all(abs(float(vals[k]) - want) <= 1e-6 + 1e-4 * want + 1e-5 * np.abs(X).max() for k in keys), '%s: %r, the result has RMSE %.9g' % (where, line, want))
        ctx.check(not steps, '%s: report lines for steps %s' % (where, [s for s, _ in steps]))
        return
    n = len(h.hist)
    ctx.ev('early_stops', n < c['steps'])
    expected = [k for k in range(1, n + 1) if c['verbose'] or k == 1 or k == c['steps'] or (c['vi'] > 0 and k % c['vi'] == 0)]
    ctx.check([s for s, _ in steps] == expected, '%s: reports for the steps %s, validation steps are %s (%d of %d executed)' % (
        where, [s for s, _ in steps], expected, n, c['steps']))
    for s, v in steps:
        if 1 <= s <= n:
            one(ctx, v, {'rmse|loss': h.hist[s - 1][0], 'relerr|relative|residual': h.hist[s - 1][1]}, '%s: report of step %d' % (where, s))
    one(ctx, vals, {'rmse|loss': h.hist[-1][0]}, '%s: the final line %r' % (where, line))
    m = re.search(r'(\d+)\s*steps', line)
    ctx.check(m is not None and int(m.group(1)) == n, '%s: the final line says %r, %d steps were executed' % (where, line, n))


def run_pitf(c, ctx):
    import tensorflow as tf
    from tensorD.factorization.env import Environment
    from tensorD.factorization.pitf import PITF
    from tensorD.dataproc.provider import Provider
    X = train.data(dict(shape=c['shape'], kind='uniform', seed=c['seed']))
    d = os.path.join(os.getcwd(), 'log%d' % next(train._uid))
    with gen.G(c['gseed']):
        p = Provider()
        t = tf.constant(X)
        p.full_tensor = lambda: t
        m = PITF(Environment(p, summary_path=d))
        out = io.StringIO()
        with ctx.sut('PITF'), contextlib.redirect_stdout(out):
            m.build_model(PITF.PITF_Args(rank=2, delt=0.8, tao=0.5, sample_num=c['spn'], validation_internal=c['vi']))
            m.train(c['steps'])
    log = {}
    for f in glob.glob(os.path.join(d, '*tfevents*')):
        for e in tf.train.summary_iterator(f):
            if e.WhichOneof('what') == 'summary':
                for v in e.summary.value:
                    x = v.simple_value if v.HasField('simple_value') else float(tf.make_ndarray(v.tensor))
                    log.setdefault(e.step, {})['erate|error' if 'error' in v.tag else 'rmse|loss'] = x
    shutil.rmtree(d, ignore_errors=True)
    steps, finals = parse(out.getvalue())
    ctx.ev('report_lines', len(steps)); ctx.ev('final_lines', len(finals))
    expected = [k for k in range(1, c['steps'] + 1) if k in (1, c['steps']) or (c['vi'] > 0 and k % c['vi'] == 0)]
    ctx.check([s for s, _ in steps] == expected, 'PITF vi=%d: reports for the steps %s, validation steps are %s' % (c['vi'], [s for s, _ in steps], expected))
    for s, v in steps:
        if s in log:
            one(ctx, v, log[s], 'PITF: report of step %d' % s)
    if ctx.check(len(finals) == 1, 'PITF: %d lines announce the end' % len(finals)):
        one(ctx, finals[0][1], log.get(c['steps'], {}), 'PITF: the final line %r' % finals[0][0])
    ctx.sig('pitf', c['vi'], c['steps'], c['spn'])


def run_np(c, ctx):
    from tensorD.factorization import pitf_numpy
    from tensorD.factorization.env import Environment
    from tensorD.dataproc.provider import Provider
    X = train.data(dict(shape=c['shape'], kind='uniform', seed=c['seed'])).astype(float)
    np.random.seed(c['seed'] % 2 ** 32)
    m = pitf_numpy.PITF_np(Environment(Provider(), summary_path=os.path.join(os.getcwd(), 'np')))
    out = io.StringIO()
    with ctx.sut('PITF_np'), contextlib.redirect_stdout(out):
        _, _, _, _, If, Ef, Rf = m.exact_recovery(pitf_numpy.PITF_np.PITF_np_Args(2, 0.3, 0.1, c['spn'], steps=c['steps']), X)
    steps, _ = parse(out.getvalue())
    ctx.ev('report_lines', len(steps))
    ctx.check([s for s, _ in steps] == list(If), 'PITF_np: reports for the steps %s, executed are %s' % ([s for s, _ in steps], list(If)))
    for (s, v), e, r in zip(steps, Ef, Rf):
        one(ctx, v, {'erate|error': e, 'rmse|loss': r}, 'PITF_np: report of step %d' % s)
    ctx.sig('pitf_np', c['steps'], c['spn'])
