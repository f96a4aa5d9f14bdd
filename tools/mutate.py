#!/opt/venv/bin/python
"""Systematic small changes to the code under test, each run against the cases of the checks that watch the file.

  mutate.py FILE... [--jobs N] [--cap SECONDS] [--out RESULTS.jsonl] [--only N,N]

A mutant is killed when a case of one of the checks fails; survivors are listed to be judged by hand (equivalent, dead code,
outside every property, or a gap). Works on copies of /repo/tensorD below /tmp/mut; never touches /repo."""
import argparse, ast, copy, importlib, json, os, random, shutil, signal, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
DENSE = ['C13', 'C14', 'C15', 'C33', 'C24', 'C22', 'C25', 'C20', 'C34', 'C10', 'C23']
CHECKS = {
    'base/ops.py': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C10', 'C07', 'C08', 'C16', 'C34'],
    'base/type.py': ['C07', 'C08', 'C10'],
    'loss.py': ['C09', 'C10'],
    'dataproc/reader.py': ['C11', 'C10'],
    'demo/DataGenerator.py': ['C12', 'C34'],
    'factorization/cp.py': ['C16'] + DENSE,
    'factorization/ncp.py': ['C21', 'C19'] + DENSE,
    'factorization/ntucker.py': ['C21', 'C19'] + DENSE,
    'factorization/tucker.py': ['C17', 'C18'] + DENSE,
    'factorization/env.py': DENSE,
    'factorization/pitf.py': ['C30', 'C33', 'C24', 'C25', 'C10', 'C34', 'C14', 'C13', 'C22'],
    'factorization/pitf_numpy.py': ['C30', 'C33', 'C34'],
    'base/pitf_ops.py': ['C27', 'C28', 'C29', 'C31', 'C10', 'C30', 'C34'],
    'base/pitf_ops_numpy.py': ['C27', 'C28', 'C29', 'C31', 'C10', 'C30', 'C34'],
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq, ast.GtE], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Mult], ast.Pow: [ast.Mult],
       ast.MatMult: [ast.Mult]}
ATTR = {'reduce_sum': ['reduce_mean', 'reduce_max'], 'reduce_mean': ['reduce_sum'], 'reduce_max': ['reduce_sum', 'reduce_min'], 'maximum': ['minimum'], 'minimum': ['maximum'],
        'sqrt': ['square', 'abs'], 'square': ['abs'], 'abs': ['identity'], 'argmax': ['argmin'], 'sum': ['mean'], 'mean': ['sum'], 'max': ['min'],
        'random_uniform': ['random_normal'], 'rand': ['randn'], 'randn': ['rand'], 'append': ['count'], 'float64': ['float32'], 'int64': ['int32'],
        'zeros': ['ones'], 'ones': ['zeros'], 'zeros_like': ['ones_like'], 'ones_like': ['zeros_like'], 'assign': ['assign_add'], 'multiply': ['add'],
        'subtract': ['add'], 'add': ['subtract'], 'norm': ['reduce_sum'], 'l2_loss': ['reduce_sum']}


class Mut(ast.NodeTransformer):
    """applies the n-th possible change (or only counts them)"""

    def __init__(self, n):
        self.n, self.i, self.what = n, -1, None

    def hit(self, node, what):
        self.i += 1
        if self.i == self.n:
            self.what = 'line %d: %s' % (getattr(node, 'lineno', 0), what)
            return True
        return False

    def visit_body(self, body):
        out = []
        for st in body:
            doc = isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
            if not doc and isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) and self.hit(st, 'delete `%s`' % ast.unparse(st)[:90]):
                out.append(ast.copy_location(ast.Pass(), st))
                continue
            if doc:
                out.append(st)
                continue
            r = self.visit(st)
            out.append(r)
        for k in range(len(body) - 1):
            if all(isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) for s in (body[k], body[k + 1])):
                if self.hit(body[k], 'swap with next `%s`' % ast.unparse(body[k])[:70]):
                    out[k], out[k + 1] = out[k + 1], out[k]
        return out

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.visit_body(b))
        for f, v in ast.iter_fields(node):
            if isinstance(v, list):
                if v and isinstance(v[0], ast.stmt):
                    continue
                new = []
                for x in v:
                    new.append(self.visit(x) if isinstance(x, ast.AST) else x)
                setattr(node, f, new)
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_Import(self, node):
        return node
    visit_ImportFrom = visit_Import

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            for alt in CMP.get(type(node.ops[0]), []):
                if self.hit(node, '%s -> %s' % (ast.unparse(node), alt.__name__)):
                    node.ops = [alt()]
                    return node
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return node
        for alt in BIN.get(type(node.op), []):
            if self.hit(node, '%s -> %s' % (ast.unparse(node)[:80], alt.__name__)):
                node.op = alt()
                return node
        for side in ('left', 'right'):
            if self.hit(node, '%s -> its %s side' % (ast.unparse(node)[:80], side)):
                return getattr(node, side)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit(node, '%s: and <-> or' % ast.unparse(node)[:80]):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            return node
        for k in range(len(node.values)):
            if self.hit(node, '%s: drop operand %d' % (ast.unparse(node)[:80], k)):
                node.values = node.values[:k] + node.values[k + 1:]
                return node if len(node.values) > 1 else node.values[0]
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.hit(node, '%s -> operand' % ast.unparse(node)[:80]):
            return node.operand
        return node

    def visit_Constant(self, node):
        v = node.value
        alts = []
        if isinstance(v, bool):
            alts = [not v]
        elif isinstance(v, int):
            alts = [v + 1, v - 1]
        elif isinstance(v, float):
            alts = [v * 1.05 + 0.01, -v]
        elif v is None:
            alts = []
        for a in alts:
            if self.hit(node, '%r -> %r' % (v, a)):
                return ast.copy_location(ast.Constant(a), node)
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        for v in (True, False):
            if self.hit(node, 'if %s -> if %s' % (ast.unparse(node.test)[:80], v)):
                node.test = ast.Constant(v)
                return node
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        for v in ('body', 'orelse'):
            if self.hit(node, '%s -> %s' % (ast.unparse(node)[:80], v)):
                return getattr(node, v)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if len(node.args) >= 2 and self.hit(node, '%s: first arguments swapped' % ast.unparse(node)[:80]):
            node.args[0], node.args[1] = node.args[1], node.args[0]
            return node
        for k in range(len(node.keywords)):
            if node.keywords[k].arg not in (None, 'name', 'dtype') and self.hit(node, '%s: without %s' % (ast.unparse(node)[:80], node.keywords[k].arg)):
                node.keywords = node.keywords[:k] + node.keywords[k + 1:]
                return node
        if len(node.args) == 1 and not node.keywords and self.hit(node, '%s -> argument' % ast.unparse(node)[:80]):
            return node.args[0]
        if isinstance(node.func, ast.Name) and node.func.id == 'range' and self.hit(node, '%s reversed' % ast.unparse(node)):
            return ast.copy_location(ast.Call(ast.Name('reversed', ast.Load()), [node], []), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        for a in ATTR.get(node.attr, []):
            if self.hit(node, '%s -> %s' % (ast.unparse(node)[:60], a)):
                node.attr = a
                return node
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and len(node.elts) >= 1 and self.hit(node, '%s -> without the last' % ast.unparse(node)[:80]):
            node.elts = node.elts[:-1]
            return node
        if isinstance(node.ctx, ast.Load) and len(node.elts) >= 2 and self.hit(node, '%s -> first two swapped' % ast.unparse(node)[:80]):
            node.elts[0], node.elts[1] = node.elts[1], node.elts[0]
            return node
        return node

    def visit_Slice(self, node):
        self.generic_visit(node)
        for f in ('lower', 'upper', 'step'):
            if getattr(node, f) is not None and self.hit(node, 'slice %s dropped' % f):
                setattr(node, f, None)
                return node
        return node


def mutants(path):
    src = open(path, newline='').read().replace('\r\n', '\n')
    n = Mut(-1)
    n.visit(ast.parse(src))
    total = n.i + 1
    base = ast.unparse(ast.parse(src))
    for k in range(total):
        t = ast.parse(src)
        m = Mut(k)
        t = m.visit(t)
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t)
            compile(s, path, 'exec')
        except Exception:
            continue
        if s != base:
            yield k, m.what, s


def child(root, rel, checks, cap, seed, out):
    """in a forked process: the cases of the checks in turn until one fails"""
    from rtm import core
    core.REPO = root
    t0 = time.time()
    sys.path.insert(0, root)
    os.makedirs(root + '/w', exist_ok=True)
    os.chdir(root + '/w')
    lists = []
    for c in checks:
        mod = importlib.import_module('rtm.checks.%s' % c.lower())
        cs = mod.cases('quick', random.Random('%s-%s' % (c, seed)))
        random.Random(seed).shuffle(cs)
        lists.append((c, mod, cs))
    ctx, n, res = core.Ctx(), 0, None
    # first the checks of this file alone for half of the time, then all in turn
    own = {'C16', 'C17', 'C18', 'C19', 'C21', 'C30'} & set(checks)
    k, first = 0, [l for l in lists if l[0] in own]
    every, lists = lists, first or lists
    while res is None and time.time() - t0 < cap:
        left = False
        for c, mod, cs in lists:
            if k < len(cs):
                left = True
                json.dump([c, cs[k]], open(root + '/case.json', 'w'), default=str)
                try:
                    st = core.run_case(mod, cs[k], ctx)
                except BaseException as e:
                    res = dict(killed='harness', check=c, msg='%s: %s' % (type(e).__name__, str(e)[:200]))
                    break
                n += 1
                if st == 'fail':
                    res = dict(killed='fail', check=c, msg=ctx.fails[-1]['msg'][:200])
                    break
            if time.time() - t0 > cap:
                break
        k += 1
        if lists is first and (not left or time.time() - t0 > cap / 2):
            lists, k = [l for l in every if l[0] not in own], 0
            left = True
        if not left:
            break
    res = res or dict(killed=None)
    res.update(cases=n, wall=round(time.time() - t0, 1))
    json.dump(res, open(out, 'w'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--cap', type=float, default=90)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out', default='/tmp/mut.jsonl')
    ap.add_argument('--only')
    ap.add_argument('--done', help='results of an earlier run: what it killed is not run again')
    ap.add_argument('--sample', type=float, default=1.0)
    a = ap.parse_args()
    work = '/tmp/mut%d' % os.getpid()
    os.makedirs(work)
    from rtm import core
    for k, v in dict(PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TF_ENABLE_ONEDNN_OPTS='0').items():
        os.environ[k] = v
    core.REPO = '/nonexistent'
    core.load_sut()
    sys.path.remove('/nonexistent')
    import rtm.gen, rtm.train, rtm.oracle
    for c in {c for f in a.files for c in CHECKS[f]}:      # as they are now, whatever becomes of the files
        importlib.import_module('rtm.checks.%s' % c.lower())
    assert 'tensorD' not in sys.modules
    todo, done = [], set()
    if a.done:
        done = {(r['file'], r['what']) for r in map(json.loads, open(a.done)) if r['killed']}
    for f in a.files:
        for k, what, src in mutants('/repo/tensorD/' + f):
            if (f, what) not in done and '= None`' not in what and (a.only is None or str(k) in a.only.split(',')) and random.Random('%s-%d' % (f, k)).random() < a.sample:
                todo.append((f, k, what, src))
    print(len(todo), 'mutants', flush=True)
    running, results = {}, []
    devnull = os.open('/dev/null', os.O_WRONLY)

    def reap(pid, st):
        (f, k, what, src), root, t0 = running.pop(pid)
        try:
            r = json.load(open(root + '/res.json'))
        except Exception:
            r = dict(killed='died', msg='status %s' % st)
        r.update(file=f, n=k, what=what)
        results.append(r)
        with open(a.out, 'a') as o:
            o.write(json.dumps(r) + '\n')
        if not r['killed']:
            print('SURVIVED', f, k, what, r.get('cases'), r.get('wall'), flush=True)
        shutil.rmtree(root, ignore_errors=True)
    while todo or running:
        while todo and len(running) < a.jobs:
            m = todo.pop(0)
            root = '%s/%s-%d' % (work, m[0].replace('/', '_'), m[1])
            os.makedirs(root)
            shutil.copytree('/repo/tensorD', root + '/tensorD', ignore=shutil.ignore_patterns('__pycache__'))
            with open(root + '/tensorD/' + m[0], 'w') as o:
                o.write(m[3])
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgrp()
                    os.dup2(devnull, 1)
                    os.dup2(os.open(root + '/err.txt', os.O_WRONLY | os.O_CREAT), 2)
                    child(root, m[0], CHECKS[m[0]], a.cap, a.seed, root + '/res.json')
                except BaseException as e:
                    json.dump(dict(killed='import', msg=str(e)[:200]), open(root + '/res.json', 'w'))
                finally:
                    os._exit(0)
            running[pid] = (m, root, time.time())
        time.sleep(0.05)
        while running:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                break
            reap(pid, st)
        for pid, (m, root, t0) in list(running.items()):
            if time.time() - t0 > a.cap + 120:
                os.killpg(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                json.dump(dict(killed='hang', msg=open(root + '/case.json').read()[:200]), open(root + '/res.json', 'w'))
                reap(pid, 0)
    shutil.rmtree(work, ignore_errors=True)
    n = len(results)
    print('%d mutants, %d killed, %d survived' % (n, sum(bool(r['killed']) for r in results), sum(not r['killed'] for r in results)))


if __name__ == '__main__':
    main()
