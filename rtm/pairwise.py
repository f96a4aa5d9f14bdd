"""The pairwise models behind one face: what they report, log and write is all they publish."""
import contextlib, glob, io, os, re, shutil
import numpy as np
from rtm import train


def numbers(text):
    return np.array([float(x) for x in re.findall(r'(?<![\w.])[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)(?![\w])', text)])


class Pitf(object):
    """the TensorFlow model in the default graph"""
    kind = 'pitf'

    def __init__(self, X, m, sumdir=None, env=None, files=True):
        import tensorflow as tf
        from tensorD.factorization.env import Environment
        from tensorD.factorization.pitf import PITF
        from tensorD.dataproc.provider import Provider
        train.install()
        self.m, self.files = m, files
        self.sumdir = sumdir or os.path.join(os.getcwd(), 'pw%d' % next(train._uid))
        if env is None:
            p = Provider()
            t = tf.constant(X)
            p.full_tensor = lambda: t
            env = Environment(p, summary_path=self.sumdir)
        self.env = env
        self.model = PITF(env)
        self.args_cls = PITF.PITF_Args

    def build(self):
        m = self.m
        with contextlib.redirect_stdout(io.StringIO()):
            self.model.build_model(self.args_cls(rank=m['rank'], delt=m['delt'], tao=m['tao'], sample_num=m['spn'], validation_internal=m['vi']))
        return self

    def finished(self):
        f = self.model.train_finish
        return bool(f() if callable(f) else f)

    def train(self, steps, capture=True, watch=None):
        """{name: numbers} of everything the training reports"""
        import tensorflow as tf
        out = io.StringIO()
        n = [0]

        def count(when, sess, x):
            n[0] += when == 'pre'
            watch(when, sess, x, n[0])
        if watch is not None:
            train.hooks().append(count)
        try:
            if capture:
                with contextlib.redirect_stdout(out):
                    self.model.train(steps)
            else:
                self.model.train(steps)
        finally:
            if watch is not None:
                train.hooks().remove(count)
        res = {}
        for f in sorted(glob.glob(os.path.join(self.sumdir, '*tfevents*'))):
            for e in tf.train.summary_iterator(f):
                if e.WhichOneof('what') == 'summary':
                    for v in e.summary.value:
                        x = v.simple_value if v.HasField('simple_value') else float(tf.make_ndarray(v.tensor))
                        res.setdefault('error' if 'error' in v.tag else 'loss', []).append([e.step, x])
        shutil.rmtree(self.sumdir, ignore_errors=True)
        res = {k: np.array(sorted(v)).reshape(-1) for k, v in res.items()}
        if capture and watch is None:
            res['printed'] = numbers(out.getvalue())
        if self.files and watch is None:
            for f in ('pitf_y.txt', 'pitf_e2.txt'):
                if os.path.exists(f):
                    res[f] = numbers(open(f).read())
        return res


class PitfNp(object):
    """the NumPy model; its samples come from the state of the global generator"""
    kind = 'np'

    def __init__(self, X, m):
        from tensorD.factorization.env import Environment
        from tensorD.factorization.pitf_numpy import PITF_np
        from tensorD.dataproc.provider import Provider
        self.m, self.X = m, X.astype(np.float64)
        self.model = PITF_np(Environment(Provider(), summary_path=os.path.join(os.getcwd(), 'pw%d' % next(train._uid))))
        self.args_cls = PITF_np.PITF_np_Args

    def build(self):
        return self

    def train(self, steps):
        m = self.m
        state = np.random.get_state()
        np.random.seed(m['npseed'])
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                r = self.model.exact_recovery(self.args_cls(m['rank'], m['delt'], m['tao'], m['spn'], steps=steps), self.X)
        finally:
            np.random.set_state(state)
        res = {'part%d' % i: np.asarray(x, dtype=float).reshape(-1) for i, x in enumerate(r)}
        res['printed'] = numbers(out.getvalue())
        return res


def differ(a, b, rtol=2e-3):
    """the name of a part that differs, or None"""
    if set(a) != set(b):
        return 'the parts %s and %s' % (sorted(a), sorted(b))
    for k in sorted(a):
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return '%s: %d and %d numbers' % (k, x.size, y.size)
        if not np.allclose(x, y, rtol=rtol, atol=rtol * (np.abs(x[np.isfinite(x)]).max() if np.isfinite(x).any() else 1) + 1e-12, equal_nan=True):
            i = int(np.nanargmax(np.abs(x - y)))
            return '%s: number %d is %.9g and %.9g' % (k, i, x[i], y[i])
    return None


def alone(gseed, pad, X, m, steps):
    """for a process of its own"""
    from rtm import gen
    from rtm.checks import c22
    with gen.G(gseed) as g:
        c22.pad(g.g, pad)
        return (Pitf(X, m) if m['kind'] == 'pitf' else PitfNp(X, m)).build().train(steps)
