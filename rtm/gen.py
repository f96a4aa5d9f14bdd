"""Generators: everything is a function of a JSON-able spec, so that every case can be replayed."""
import numpy as np

MOVE_DTYPES = ['float32', 'float64', 'int32', 'int64', 'float16', 'complex64', 'complex128', 'int16', 'uint8', 'int8', 'bool']
ARITH_DTYPES = ['float32', 'float64', 'int32', 'int64', 'complex64', 'complex128', 'float16']
FORMS = ['const', 'ph', 'var']


def shape(rng, order, cap=400, maxd=7, ones=0.2, big=True):
    """extents with a bounded product; includes unit, equal and now and then large extents"""
    if big and order <= 4 and rng.random() < 0.1:
        maxd, cap, ones = 40, max(cap, 1500), 0.1
    while True:
        if rng.random() < 0.15:
            d = rng.randint(1, maxd)
            s = [d] * order
        else:
            s = [1 if rng.random() < ones else rng.randint(2, maxd) for _ in range(order)]
        p = 1
        for x in s:
            p *= x
        if p <= cap:
            return s
        maxd = max(2, maxd - 1) if rng.random() < 0.3 else maxd
        if rng.random() < 0.1:
            ones = min(0.7, ones + 0.1)


def large(rng, order, target=None):
    """extents of a large tensor: beyond 2^12, 2^16 or 2^20 entries, balanced or with one or two long modes"""
    target = target or rng.choice([5000, 20000, 70000, 70000, 300000, 1100000])
    style = rng.choice(['balanced', 'one', 'two'])
    n = {'balanced': order, 'one': 1, 'two': 2}[style]
    lng = rng.sample(range(order), min(n, order))
    s = [rng.choice([1, 2, 2, 3]) if k not in lng else 0 for k in range(order)]
    left = target / float(np.prod([x for x in s if x] or [1]))
    for j, k in enumerate(lng):
        f = left ** (1.0 / (len(lng) - j))
        s[k] = max(2, int(np.ceil(f * (rng.uniform(0.7, 1.4) if j < len(lng) - 1 else 1))))
        left /= s[k]
    return s


def array(seed, shp, dtype, kind='normal'):
    r = np.random.default_rng(seed)
    dt = np.dtype(dtype)
    n = int(np.prod(shp)) if len(shp) else 1
    if kind == 'index':
        a = np.arange(n).reshape(shp)
        return (a % 2 == 1) if dt == bool else a.astype(dt)
    if dt == bool:
        return r.random(shp) < 0.5
    if dt.kind in 'iu':
        lo = 0 if dt.kind == 'u' else -9
        a = r.integers(lo, 10, shp)
        return a.astype(dt)
    if kind == 'sparse':
        a = r.normal(size=shp) * (r.random(shp) < 0.4)
    elif kind == 'wide' and dt != np.float16:
        a = r.normal(size=shp) * 10.0 ** r.integers(-6, 7, shp)
    elif kind == 'positive':
        a = r.random(shp)
    else:
        a = r.normal(size=shp)
    if dt.kind == 'c':
        a = a + 1j * r.normal(size=shp)
    a = np.asarray(a, dtype=dt).reshape(shp)
    if kind == 'special' and dt.kind == 'f' and a.size:
        sp = np.array([np.nan, np.inf, -np.inf, -0.0, 0.0, np.finfo(dt).tiny / 4, np.finfo(dt).max], dtype=dt)
        flat = a.reshape(-1)
        k = r.integers(1, a.size + 1)
        flat[r.choice(a.size, k, replace=False)] = sp[r.integers(0, len(sp), k)]
    return a


class G(object):
    """A fresh graph in which arrays become constants, placeholders or variables."""
    def __init__(self, seed=7):
        import tensorflow as tf
        self.tf = tf
        self.g = tf.Graph()
        self.feed = {}
        self.vars = False
        with self.g.as_default():
            tf.set_random_seed(seed)

    def __enter__(self):
        self._c = self.g.as_default()
        self._c.__enter__()
        return self

    def __exit__(self, *a):
        return self._c.__exit__(*a)

    def t(self, arr, form='const'):
        tf = self.tf
        if form == 'const':
            return tf.constant(arr)
        if form == 'var':
            self.vars = True
            return tf.Variable(arr)
        if form == 'np':
            return arr
        p = tf.placeholder(tf.as_dtype(arr.dtype), shape=arr.shape)
        self.feed[p] = arr
        return p

    def run(self, fetches):
        tf = self.tf
        with tf.Session(graph=self.g) as s:
            if self.vars:
                s.run(tf.global_variables_initializer())
            return s.run(fetches, feed_dict=self.feed)
