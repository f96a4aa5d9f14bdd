"""C05 hadamard / kron / khatri with skip and reverse."""
from functools import reduce
import numpy as np
from rtm import gen, oracle
RULE = ('one case = one list of 1..6 compatible matrices (now and then up to 18 / 30, mostly with unit extents) with a skip (None/int/list/tuple) and a direction, for one of the three '
        'products; distinct by (product, shapes, skip, reverse, dtype, form); non-trivial = at least two matrices remain')
ASSUMPTIONS = ['at least one matrix remains after skipping', 'one element type per call', 'integers small enough not to overflow']
REQUIRED = ['assertions', 'hadamard', 'kron', 'khatri', 'reversed', 'skip_list', 'skip_int', 'more_than_nine_matrices', 'large_results']


def cases(tier, rng):
    res = []
    for i in range(2500 if tier == 'quick' else 30000):
        op = ['hadamard', 'kron', 'khatri'][i % 3]
        n = rng.randint(1, 4 if op == 'kron' else 6)
        skn = rng.choice(['none', 'int', 'list', 'tuple'])
        skip = rng.sample(range(n), 1 if skn == 'int' else rng.randint(0, n - 1)) if skn != 'none' and n > 1 else None
        if skip is None:
            skn = 'none'
        many = i % 12 in (1, 2)
        if many:
            n = rng.randint(10, 18 if op == 'kron' else 30)
            sp = set(rng.sample(range(n), 3))
            shapes = [[rng.choice([2, 3]) if q in sp else 1, (rng.choice([2, 3]) if q in sp and q % 2 else 1)] for q in range(n)]
            if op == 'khatri':
                shapes = [[s[0], 2] for s in shapes]
            skip = None if skn == 'none' else rng.sample(range(n), 1 if skn == 'int' else rng.randint(0, 2))
        elif op == 'hadamard':
            s = gen.shape(rng, rng.choice([2, 2, 2, 1, 3]), cap=60)
            shapes = [s] * n
        elif op == 'khatri':
            r = rng.randint(1, 5)
            shapes = [[rng.randint(1, 4), r] for _ in range(n)]
        else:
            shapes = [[rng.randint(1, 4), rng.randint(1, 4)] for _ in range(n)]
        res.append(dict(op=op, shapes=shapes, skip=skip, skn=skn, reverse=op != 'hadamard' and rng.random() < 0.5,
                        dtype=rng.choice(gen.ARITH_DTYPES), form=rng.choice(gen.FORMS), kind=rng.choice(['normal', 'wide', 'sparse']),
                        seed=rng.randrange(2 ** 31)))
    for i in range(36 if tier == 'quick' else 360):
        op = ['hadamard', 'kron', 'khatri'][i % 3]
        n = rng.randint(2, 4)
        if op == 'hadamard':
            shapes = [gen.large(rng, 2)] * n
        elif op == 'khatri':
            r = rng.choice([1, 3, 17, 40, 130])
            shapes = [[q, r] for q in rng.choice([[300, 200], [2000, 5, 3], [40, 30, 20], [9, 10, 11, 12], [70000, 1], [150, 4, 60]])]
            rng.shuffle(shapes)
            if r > 40:
                shapes = [[min(q, 60), r] for q, r in shapes][:2]
        else:
            shapes = rng.choice([[[60, 3], [50, 40]], [[300, 1], [300, 2]], [[1, 400], [3, 200]], [[20, 7], [10, 8], [5, 20]], [[12, 5], [6, 7], [5, 6], [4, 4]], [[70000, 1], [1, 3]]])
            rng.shuffle(shapes)
        skn = rng.choice(['none', 'none', 'int', 'list'])
        skip = None if skn == 'none' else rng.sample(range(len(shapes)), 1)
        res.append(dict(op=op, shapes=shapes, skip=skip, skn=skn, reverse=op != 'hadamard' and rng.random() < 0.5, large=True,
                        dtype=rng.choice(['float32', 'float64', 'int32', 'int64', 'complex64']), form=rng.choice(gen.FORMS), kind='normal', seed=rng.randrange(2 ** 31)))
    return res


def run(c, ctx):
    from tensorD.base import ops
    dt = c['dtype']
    Ms = [gen.array(c['seed'] + i, s, dt, 'normal' if len(c['shapes']) > 3 else c['kind']) for i, s in enumerate(c['shapes'])]
    if np.dtype(dt).kind == 'i':
        Ms = [m % 4 - 1 for m in Ms]
    if dt == 'float16':
        Ms = [(m / 2).astype(dt) for m in Ms]
    Ms = [m.astype(dt) for m in Ms]
    keep = [i for i in range(len(Ms)) if c['skip'] is None or i not in c['skip']]
    sk = None if c['skip'] is None else c['skip'][0] if c['skn'] == 'int' else (tuple if c['skn'] == 'tuple' else list)(c['skip'])
    with gen.G() as g:
        m = [g.t(M, c['form']) for M in Ms]
        orig = list(m)
        kw = {} if sk is None and c['seed'] % 2 else dict(skip_matrices_index=sk)
        if c['op'] != 'hadamard' and (c['reverse'] or c['seed'] % 3):
            kw['reverse'] = c['reverse']
        with ctx.sut('%s(%s)' % (c['op'], kw)):
            t = getattr(ops, c['op'])(m, **kw)
            got = g.run([t])[0]
    ctx.check(len(m) == len(orig) and all(x is y for x, y in zip(m, orig)), '%s modified the list of its caller' % c['op'])
    ctx.check(sk is None or c['skn'] == 'int' or list(sk) == c['skip'], '%s modified the skip list' % c['op'])
    seq = keep[::-1] if c['reverse'] else keep
    W = [oracle.wide(Ms[i]) for i in seq]
    f = {'hadamard': lambda l: reduce(np.multiply, l), 'kron': oracle.kron, 'khatri': oracle.khatri}[c['op']]
    ref, mag = f(W), f([np.abs(w) for w in W])
    ctx.ev('more_than_nine_matrices', len(Ms) > 9)
    ctx.ev('large_results', ref.size >= 5000)
    ctx.ev(c['op']); ctx.ev('reversed', c['reverse']); ctx.ev('skip_' + c['skn'])
    oracle.close(ctx, c['op'], got, ref, mag, 2 * len(W), dt, '%s skip=%s reverse=%s' % (c['op'], sk, c['reverse']))
    if len(keep) > 1:
        ctx.sig(c['op'], c['shapes'], sk, c['reverse'], dt, c['form'])
