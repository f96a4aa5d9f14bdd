"""C11 the tensor reader, against the list of entries that was written to the file."""
import os, random
import numpy as np
from rtm import gen, oracle
RULE = ('one case = 1..3 generated files (order 1..6, any line order, blank lines, padding, quoting, CRLF, extreme doubles, csv/txt) read '
        'by one process, some twice or with an explicit shape; distinct by (shape, density, layout options); non-trivial = two entries or more')
ASSUMPTIONS = ['no position is listed twice', 'indices are non-negative and within an explicitly given shape']
REQUIRED = ['assertions', 'files_read', 'explicit_shape', 'unsorted_files', 'blank_lines', 'extreme_values', 'read_twice', 'array_shape', 'large_extents', 'file_changed', 'long_files']


def cases(tier, rng):
    res = []
    for i in range(500 if tier == 'quick' else 6000):
        fs = []
        for _ in range(rng.randint(1, 3)):
            order = rng.choice([1, 2, 3, 3, 4, 5, 6])
            fs.append(dict(shape=gen.shape(rng, order, cap=300), seed=rng.randrange(2 ** 31), density=rng.choice([0.05, 0.3, 0.7, 1.0]),
                           ext=rng.choice(['csv', 'txt']), order=rng.choice(['sorted', 'shuffled', 'reversed']), blank=rng.random() < 0.4,
                           pad=rng.random() < 0.3, quote=rng.random() < 0.2, crlf=rng.random() < 0.2, final_newline=rng.random() < 0.7,
                           values=rng.choice(['normal', 'extreme', 'ints', 'exp']), full=rng.choice(['none', 'none', 'list', 'tuple', 'same', 'array', 'array32']),
                           twice=rng.random() < 0.3, dotted=rng.random() < 0.2))
        if i % 8 == 0:
            # extents and counts beyond any small integer type, held in few lines or in many
            big = rng.choice([[1, 70001], [66000], [40000, 2], [300, 300], [3, 1, 33000], [257, 130, 2]])
            fs[0].update(shape=big, density=rng.choice([0.0002, 0.001, 0.02]), blank=False)
        res.append(dict(files=fs))
    for i in range(3 if tier == 'quick' else 12):           # tens of thousands of lines
        f = dict(res[i]['files'][0], shape=[[30011, 2], [70001], [41, 43, 23]][i % 3], density=rng.choice([0.5, 0.9]), quote=False, full='none', twice=i % 2 == 0, order=['shuffled', 'sorted', 'reversed'][i % 3])
        res.append(dict(files=[f]))
    return res


def fmt(v, kind, rng):
    if kind == 'ints':
        return str(int(v))
    if kind == 'exp':
        return '%.17e' % v
    return repr(float(v))


def run(c, ctx):
    from tensorD.dataproc.reader import TensorReader
    plans = []
    for n, f in enumerate(c['files']):
        rng = random.Random(f['seed'])
        r = np.random.default_rng(f['seed'])
        shp = f['shape']
        if np.prod(shp) > 1000:
            ents = sorted({tuple(rng.randrange(s) for s in shp) for _ in range(int(np.prod(shp) * f['density']))} | {tuple(s - 1 for s in shp)})
            ctx.ev('large_extents')
        else:
            ents = [ix for ix in np.ndindex(*shp) if rng.random() < f['density']]
        if not ents:
            ents = [tuple(rng.randrange(s) for s in shp)]
        if f['order'] == 'shuffled':
            rng.shuffle(ents)
        elif f['order'] == 'reversed':
            ents.reverse()
        vals = {}
        lines = []
        for ix in ents:
            v = float(r.normal()) * 10.0 ** float(r.integers(-12, 13))
            if f['values'] == 'extreme':
                v = rng.choice([v, 1.7976931348623157e308, 5e-324, -2.2250738585072014e-308, 0.1, 1 / 3, -0.0, 1e22, 123456789.123456789])
            elif f['values'] == 'ints':
                v = float(rng.randint(-1000, 1000))
            s = fmt(v, f['values'], rng)
            vals[ix] = float(s)
            cells = [str(i) for i in ix] + [s]
            if f['pad']:
                cells = [' ' * rng.randint(0, 2) + x + ' ' * rng.randint(0, 2) for x in cells]
            if f['quote']:
                cells = ['"%s"' % x if rng.random() < 0.5 else x for x in cells]
            lines.append(','.join(cells))
            while f['blank'] and rng.random() < 0.3:
                lines.append('')
        if f['blank']:
            lines.insert(0, '')
        ctx.ev('lines_written', len(lines)); ctx.ev('long_files', len(ents) > 20000)
        nl = '\r\n' if f['crlf'] else '\n'
        name = 'f%d%s.%s' % (n, '.v1' if f['dotted'] else '', f['ext'])
        path = os.path.join(os.getcwd(), name)
        with open(path, 'w', newline='') as h:
            h.write(nl.join(lines) + (nl if f['final_newline'] else ''))
        tight = tuple(int(max(ix[k] for ix in ents)) + 1 for k in range(len(shp)))
        if f['full'] == 'same':
            full = list(tight)
        elif f['full'] in ('list', 'tuple', 'array', 'array32'):
            full = [t + rng.randint(0, 3) for t in tight]
        else:
            full = None
        plans.append((f, path, vals, tight, full))
        if len(ents) > 1:
            ctx.sig(shp, f['density'], f['order'], f['values'], f['full'], f['blank'], f['pad'], f['quote'])
    with gen.G() as g:
        obs = []
        for f, path, vals, tight, full in plans:
            rd = TensorReader(path)
            with ctx.sut('reading'):
                if full is None:
                    rd.read()
                else:
                    rd.read(tuple(full) if f['full'] == 'tuple' else np.array(full, np.int32 if f['full'] == 'array32' else np.int64)
                            if f['full'].startswith('array') else list(full))
            obs.append((rd.full_data, rd.sparse_data, vals, tuple(full) if full else tight, f))
            if f['twice']:
                ctx.ev('read_twice')
                if f['seed'] % 3 == 0:
                    # the file has changed in the meantime
                    ctx.ev('file_changed')
                    k = max(vals)
                    vals = {k: vals[k] + 1.0, tuple(0 for _ in k): 2.5}
                    tight = tuple(x + 1 for x in k)
                    with open(path, 'w') as h:
                        h.writelines(','.join([str(x) for x in ix] + [repr(v)]) + '\n' for ix, v in vals.items())
                with ctx.sut('reading again'):
                    rd.read()
                obs.append((rd.full_data, rd.sparse_data, vals, tight, f))
        with ctx.sut('evaluating'):
            got = g.run([(d, s) for d, s, _, _, _ in obs])
    for (d, s), (_, _, vals, shp, f) in zip(got, obs):
        ref = np.zeros(shp)
        for ix, v in vals.items():
            ref[ix] = v
        ctx.ev('files_read'); ctx.ev('explicit_shape', f['full'] != 'none'); ctx.ev('unsorted_files', f['order'] != 'sorted')
        ctx.ev('array_shape', f['full'].startswith('array')); ctx.ev('blank_lines', f['blank']); ctx.ev('extreme_values', f['values'] == 'extreme')
        ctx.check(d.shape == tuple(shp), 'shape %s, expected %s' % (d.shape, shp))
        ctx.check(d.dtype == np.float64, 'element type %s' % d.dtype)
        ctx.check(d.shape == ref.shape and d.tobytes() == ref.tobytes(), 'the dense tensor differs from the file in %s' %
                  (np.argwhere(d != ref)[:3].tolist() if d.shape == ref.shape else 'shape'))
        sp = np.zeros(tuple(int(x) for x in s.dense_shape))
        for ix, v in zip(s.indices, s.values):
            sp[tuple(ix)] = v
        ctx.check(sp.shape == ref.shape and sp.tobytes() == ref.tobytes() and len(s.values) == len(vals) and
                  len({tuple(i) for i in s.indices}) == len(vals), 'the sparse tensor differs from the file')
    for _, path, _, _, _ in plans:
        os.remove(path)
