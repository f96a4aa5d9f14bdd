"""C03 contraction and inner product."""
import numpy as np
from rtm import gen, oracle
RULE = ('one case = two tensors and a pairing of k contracted axes (0..all, in any order, int/list/tuple) or an inner product; '
        'distinct by (shapes, axes, dtype, forms); non-trivial = more than one product summed or more than one free entry')
ASSUMPTIONS = ['integers small enough not to overflow', 'both operands have one element type']
REQUIRED = ['assertions', 'mul_observed', 'inner_observed', 'full_contractions', 'unsorted_axes', 'large_tensors']


def cases(tier, rng):
    res = []
    for i in range(2500 if tier == 'quick' else 30000):
        op = 'inner' if i % 5 == 0 else 'mul'
        oa, ob = (rng.randint(1, 5), rng.randint(1, 5)) if i % 7 else (rng.randint(1, 11), rng.randint(1, 11))
        sa = gen.shape(rng, oa, cap=150, maxd=5, big=op == 'inner')
        c = dict(op=op, dtype=rng.choice(gen.ARITH_DTYPES), fa=rng.choice(gen.FORMS), fb=rng.choice(gen.FORMS),
                 kind=rng.choice(['normal', 'wide', 'sparse']), seed=rng.randrange(2 ** 31), sa=sa)
        if op == 'inner':
            c['sb'] = sa
        else:
            k = rng.choice([0, 1, 1, 2, 2, 3, min(oa, ob)])
            k = min(k, oa, ob)
            aa, ba = rng.sample(range(oa), k), rng.sample(range(ob), k)
            sb = gen.shape(rng, ob, cap=150, maxd=5, big=False)
            for x, y in zip(aa, ba):
                sb[y] = sa[x]
            c.update(sb=sb, aa=aa, ba=ba, ka=rng.choice(['list', 'tuple', 'int']), kb=rng.choice(['list', 'tuple', 'int']),
                     self=(rng.random() < 0.1))
            if c['self']:
                c['sb'] = sa; k = rng.randint(0, oa); c['aa'] = rng.sample(range(oa), k); c['ba'] = list(c['aa'])
        res.append(c)
    for i in range(40 if tier == 'quick' else 400):
        c = dict(op=['inner', 'mul', 'mul'][i % 3], dtype=rng.choice(['float32', 'float64', 'int32', 'int64', 'complex64', 'complex128']), fa=rng.choice(gen.FORMS),
                 fb=rng.choice(gen.FORMS), kind=rng.choice(['normal', 'sparse']), seed=rng.randrange(2 ** 31), sa=gen.large(rng, rng.randint(1, 5)), large=True)
        if c['op'] == 'inner':
            c['sb'] = c['sa']
        else:
            oa, ob = len(c['sa']), rng.randint(1, 4)
            lng = [q for q in range(oa) if c['sa'][q] > 5]
            k = rng.randint(1, min(oa, ob))
            aa = rng.sample(range(oa), k)
            sb = gen.shape(rng, ob, cap=8, maxd=3, big=False)
            ba = rng.sample(range(ob), k)
            for x, y in zip(aa, ba):
                sb[y] = c['sa'][x]
            while np.prod(c['sa'], dtype=float) / np.prod([c['sa'][x] for x in aa]) * np.prod([n for q, n in enumerate(sb) if q not in ba], initial=1) > 3e6:
                sb = [n if q in ba else max(1, n - 1) for q, n in enumerate(sb)]
            c.update(sb=sb, aa=aa, ba=ba, ka=rng.choice(['list', 'tuple', 'int']), kb=rng.choice(['list', 'tuple', 'int']), self=False)
            if i % 2:      # operands the other way round
                c.update(sa=c['sb'], sb=c['sa'], aa=c['ba'], ba=c['aa'])
        res.append(c)
    return res


def ax(v, k):
    return v[0] if k == 'int' and len(v) == 1 else tuple(v) if k == 'tuple' else list(v)


def run(c, ctx):
    from tensorD.base import ops
    A = gen.array(c['seed'], c['sa'], c['dtype'], c['kind'])
    B = A if c.get('self') else gen.array(c['seed'] + 1, c['sb'], c['dtype'], c['kind'])
    if c['dtype'] == 'float16':
        A, B = (A / 4).astype('float16'), (B / 4).astype('float16')
    WA, WB = oracle.wide(A), oracle.wide(B)
    with gen.G() as g:
        a = g.t(A, c['fa'])
        b = a if c.get('self') else g.t(B, c['fb'])
        if c['op'] == 'inner':
            with ctx.sut('inner'):
                got = g.run(ops.inner(a, b))
            ref, mag, n = np.sum(WA * WB), np.sum(np.abs(WA * WB)), A.size
            ctx.ev('inner_observed')
        else:
            aa, ba = ax(c['aa'], c['ka']), ax(c['ba'], c['kb'])
            with ctx.sut('mul(axes %r, %r)' % (aa, ba)):
                t = ops.mul(a, b, aa, ba)
                got = g.run(t)
            ctx.check(aa == ax(c['aa'], c['ka']) and ba == ax(c['ba'], c['kb']), 'mul modified the axis lists of its caller')
            ref = np.tensordot(WA, WB, (c['aa'], c['ba']))
            mag = np.tensordot(np.abs(WA), np.abs(WB), (c['aa'], c['ba']))
            n = int(np.prod([c['sa'][i] for i in c['aa']])) if c['aa'] else 1
            ctx.ev('mul_observed')
            ctx.ev('unsorted_axes', c['aa'] != sorted(c['aa']) or c['ba'] != sorted(c['ba']))
            ctx.ev('full_contractions', len(c['aa']) == len(c['sa']) == len(c['sb']))
    ctx.ev('large_tensors', bool(c.get('large')))
    oracle.close(ctx, c['op'], got, ref, mag, oracle.terms(n), c['dtype'], c['op'])
    if A.size * B.size > 1:
        ctx.sig(c['op'], c['sa'], c['sb'], c.get('aa'), c.get('ba'), c['dtype'], c['fa'], c['fb'])
