"""C07 DTensor: random histories of operations on shared objects against a pure model (exact integer-valued data)."""
import numpy as np
from rtm import gen, oracle
RULE = ('one case = a history of 6..25 operations on a pool of DTensor objects that share and reuse operands, run twice: all results '
        'evaluated at the end, and some in between; every object is re-read after the history; values are integers, so the '
        'comparison is exact; distinct by the sequence of (operation, arguments, shapes); non-trivial = some object is used twice')
ASSUMPTIONS = ['results above 2^24 (single precision) or 2^31 (int32) in the model are not compared']
REQUIRED = ['assertions', 'op_unfold', 'op_t2mat', 'op_vectorize', 'op_mul', 'op_kron', 'op_khatri', 'op_add', 'op_sub', 'op_had',
            'op_getitem', 'op_fold', 'op_shape', 'op_eval', 'objects_reread', 'unfold_of_used_object', 'wrapping_types', 't2mat_of_used_rows', 'large_tensors']


def cases(tier, rng):
    res = []
    for i in range(400 if tier == 'quick' else 6000):
        res.append(dict(seed=rng.randrange(2 ** 31), n=rng.randint(6, 25), dtype=rng.choice(['float32', 'float64', 'int32', 'int64', 'float32', 'complex128', 'uint8', 'int16', 'uint16', 'int8']),
                        base=[gen.shape(rng, rng.randint(1, 5), cap=60, maxd=4, big=False) for _ in range(rng.randint(1, 3))]))
    for i in range(24 if tier == 'quick' else 240):
        res.append(dict(seed=rng.randrange(2 ** 31), n=rng.randint(6, 15), dtype=rng.choice(['float32', 'float64', 'int32', 'int64', 'uint8']), large=True,
                        base=[gen.large(rng, rng.randint(1, 4), rng.choice([5000, 20000, 70000])) for _ in range(2)]))
    return res


def run(c, ctx):
    import random
    from tensorD.base.type import DTensor
    rng = random.Random(c['seed'])
    dt = np.dtype(c['dtype'])
    # the small integer types wrap around, in TensorFlow as in NumPy; they have no products in TensorFlow
    wraps = dt.itemsize <= 2
    big = {'float32': 2 ** 24, 'int32': 2 ** 31 - 1, 'float64': 2 ** 52, 'int64': 2 ** 52, 'complex128': 2 ** 50}.get(c['dtype'], 1e9)
    mag = lambda a: np.abs(a if a.dtype.kind == 'c' else a.astype(float)).max(initial=0)
    log = []
    with gen.G() as g:
        tf = g.tf
        pool = []

        def fresh(shape, form=None):
            gen_ = np.random.default_rng(rng.randrange(2 ** 31))
            a = gen_.integers(-3, 4, shape)
            a = (a + 1j * gen_.integers(-2, 3, shape) if dt.kind == 'c' else a).astype(dt)
            form = form or rng.choice(['np', 'const', 'ph'])
            return a, (a.copy() if form == 'np' else g.t(a, form))

        def add(obj, ref):
            pool.append(dict(o=obj, r=ref.astype(dt), used=0, held=obj.T))

        def operand(shape, allow_scalar=True):   # arrays and scalars for + - * only
            """DTensor of that shape from the pool if there is one, a tensor, an array or a scalar"""
            k = rng.random()
            same = [p for p in pool if list(p['r'].shape) == list(shape)]
            if k < 0.45 and same:
                p = rng.choice(same); p['used'] += 1
                return p['o'], p['r']
            if k < 0.55 and allow_scalar:
                s = rng.randint(0 if dt.kind == 'u' else -3, 3)
                return s, np.array(s)
            a, t = fresh(shape, None if allow_scalar else rng.choice(['const', 'ph']))
            if rng.random() < 0.4:
                d = DTensor(t); add(d, a)
                return d, a
            return t, a

        ctx.ev('large_tensors', bool(c.get('large')))
        for s in c['base']:
            a, t = fresh(s)
            with ctx.sut('DTensor()'):
                d = DTensor(t)
            add(d, a)
            if isinstance(t, np.ndarray):
                t[...] = 9     # the object must hold its own value
        todo = []
        mids = []
        last = last_op = None
        for step in range(c['n']):
            small = [p for p in pool if p['r'].size <= (120 if not c.get('large') else 300000) and (wraps or mag(p['r']) < 1000)]
            p = last if last in small and rng.random() < 0.3 else rng.choice(small)
            last = p
            o, r, nd = p['o'], p['r'], p['r'].ndim
            op = last_op if last_op and rng.random() < 0.3 else rng.choice(['unfold', 'unfold', 'unfold', 't2mat', 'vectorize', 'mul', 'kron', 'khatri', 'add', 'sub', 'had', 'getitem',
                             'fold', 'shape', 'eval'])
            if wraps and op in ('mul', 'kron', 'khatri'):
                op = rng.choice(['add', 'sub', 'had'])
                ctx.ev('wrapping_types')
            last_op = op
            if op in ('kron', 'khatri') and nd != 2:
                two = [q for q in small if q['r'].ndim == 2]
                if two:
                    p = rng.choice(two)
                else:
                    a, t = fresh([rng.randint(1, 3), rng.randint(1, 3)])
                    add(DTensor(t), a); p = pool[-1]
                o, r, nd = p['o'], p['r'], 2
            used_before = p['used']
            p['used'] += 1
            new = ref = None
            with ctx.sut('DTensor.%s' % op):
                if op == 'unfold':
                    if nd == 0:
                        continue
                    m = rng.randrange(nd)
                    new = o.unfold(m) if m or rng.random() < 0.5 else o.unfold()
                    ref = oracle.unfold(r, m); arg = m
                    ctx.ev('unfold_of_used_object', used_before > 0)
                elif op == 't2mat':
                    ax = list(range(nd)); rng.shuffle(ax); k = rng.randint(0, nd)
                    ra, ca = ax[:k], ax[k:]
                    if p.get('rows') and rng.random() < 0.6:      # same rows, other columns (or the other way round)
                        ra = list(rng.choice(p['rows']))
                        ca = [x for x in ax if x not in ra]
                        if rng.random() < 0.3:
                            ra, ca = ca, ra
                        ctx.ev('t2mat_of_used_rows')
                    p.setdefault('rows', []).append(list(ra))
                    arg = (ra, ca)
                    ref = oracle.t2mat(r, ra, ca)
                    l1, l2 = list(ra), list(ca)
                    new = o.t2mat(l1, -1 if ca == sorted(ca) and rng.random() < 0.5 else l2)
                    ctx.check(l1 == ra and l2 == ca, 't2mat modified its arguments')
                elif op == 'vectorize':
                    new, ref, arg = o.vectorize(), r.reshape(-1), None
                elif op == 'mul':
                    k = rng.randint(0, min(nd, 2))
                    aa = rng.sample(range(nd), k)
                    zero = nd > 0 and rng.random() < 0.25
                    if zero:
                        k, aa = 1, [0]
                    sb = [rng.randint(1, 3) for _ in range(rng.randint(k, 3) or 1)]
                    ba = [0] if zero else rng.sample(range(len(sb)), k)
                    for x, y in zip(aa, ba):
                        sb[y] = r.shape[x]
                    q, qr = operand(sb, False)
                    if not isinstance(q, DTensor):
                        q = DTensor(q); add(q, qr)
                    i1 = aa[0] if k == 1 and rng.random() < 0.5 else list(aa)
                    i2 = ba[0] if k == 1 and rng.random() < 0.5 else list(ba)
                    how = rng.randrange(4)
                    if aa == ba == [0] and how < 3:      # axis 0 of both is what the signature says for axes that are not given
                        new = [lambda: o.mul(q), lambda: o.mul(q, a_axis=i1), lambda: o.mul(q, b_axis=i2)][how]()
                        ctx.ev('default_axes')
                    elif how == 0:
                        new = o.mul(tensor=q, b_axis=i2, a_axis=i1)
                    else:
                        new = o.mul(q, i1, i2)
                    ref, arg = np.tensordot(r, qr, (aa, ba)), (aa, ba)
                elif op == 'kron':
                    q, qr = operand([rng.randint(1, 3), rng.randint(1, 3)], False)
                    new, ref, arg = o.kron(q), np.kron(r, qr), qr.shape
                elif op == 'khatri':
                    q, qr = operand([rng.randint(1, 3), r.shape[1]], False)
                    new, ref, arg = o.khatri(q), oracle.khatri([r, qr]), qr.shape
                elif op in ('add', 'sub', 'had'):
                    q, qr = operand(r.shape)
                    if op == 'add':
                        new, ref = o + q, r + qr
                    elif op == 'sub':
                        new, ref = o - q, r - qr
                    else:
                        new, ref = o * q, r * qr
                    arg = type(q).__name__
                elif op == 'getitem':
                    if nd == 0 or 0 in r.shape:
                        continue
                    k = rng.random()
                    idx = rng.randrange(r.shape[0]) if k < 0.4 else slice(0, rng.randint(1, r.shape[0])) if k < 0.7 else \
                        tuple(rng.randrange(s) for s in r.shape)
                    t = o[idx]
                    arg = str(idx)
                    todo.append((t, np.asarray(r[idx]).astype(dt), op, arg))
                elif op == 'fold':
                    if nd == 0:
                        continue
                    m = rng.randrange(nd)
                    u = oracle.unfold(r, m)
                    src = g.t(u, rng.choice(['const', 'ph']))
                    new, ref, arg = DTensor.fold(src, m, list(r.shape)), r, m
                elif op == 'shape':
                    arg = None
                    ctx.check(o.get_shape().as_list() == list(r.shape), 'get_shape() is %s for a tensor of shape %s' % (o.get_shape(), r.shape))
                    ctx.check(None in list(o.shape) or list(o.shape) == list(r.shape), '.shape is %s for a tensor of shape %s' % (o.shape, r.shape))
                elif op == 'eval':
                    arg = None
                    with tf.Session(graph=g.g) as s:
                        v = o.eval(g.feed, s) if rng.random() < 0.5 else o.eval(feed_dict=g.feed, session=s)
                    mids.append((v, r, 'eval'))
            ctx.ev('op_' + op)
            log.append((op, str(arg), r.shape))
            if new is not None:
                if not isinstance(new, DTensor):
                    ctx.fail('%s does not return a DTensor but %s' % (op, type(new)))
                    return
                ref = np.asarray(ref)
                todo.append((new.T, ref.astype(dt), op, str(arg)))
                if mag(ref) < big / 16:
                    add(new, ref)
        with ctx.sut('evaluating the history'):
            got = g.run([t for t, _, _, _ in todo])
            held = g.run([p['o'].T for p in pool])
    for v, (t, ref, op, arg) in zip(got, todo):
        if mag(ref) > big:
            continue
        ctx.check(v.shape == ref.shape and v.dtype == ref.dtype and np.array_equal(v, ref),
                  'DTensor.%s(%s) is not what the operation gives on the tensor held' % (op, arg), got=v, expected=ref,
                  history=log[:40])
    for v, r, op in mids:
        ctx.check(np.array_equal(v, r), 'eval() differs from the tensor held', history=log[:40])
    for v, p in zip(held, pool):
        ctx.ev('objects_reread')
        ctx.check(p['o'].T is p['held'] and np.array_equal(v, p['r']), 'a DTensor holds another tensor after the history', history=log[:40])
    if any(p['used'] > 1 for p in pool):
        ctx.sig(log)
