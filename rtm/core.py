"""Worker side of the monitoring framework: set-up of the code under test, verdict recording, case loop.

A check module (rtm/checks/cNN.py) defines
  cases(tier, rng) -> list of JSON-able dicts, each of which fully determines one execution
  run(case, ctx)   -> executes the real code and lets monitors observe it through ctx
  RULE, ASSUMPTIONS, REQUIRED (names of event counters that must be non-zero, else: inconclusive)
"""
import contextlib, hashlib, json, os, sys, time, traceback

REPO = os.environ.get('RTM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_env():
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ['CUDA_VISIBLE_DEVICES'] = ''
    os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
    os.environ.setdefault('TF_NUM_INTEROP_THREADS', '2')
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')


def load_sut():
    """TensorFlow in its own TF1 mode (the project is written for TF 1) and the project from REPO."""
    setup_env()
    import tensorflow.compat.v1 as tf1
    tf1.disable_v2_behavior()
    sys.modules['tensorflow'] = tf1
    tf1.logging.set_verbosity(tf1.logging.FATAL)
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    return tf1


class SutError(Exception):
    """An exception the code under test raised on a valid input."""
    def __init__(self, what, exc, tb):
        super().__init__('%s: %s: %s' % (what, type(exc).__name__, str(exc)[:600]))
        self.exc, self.tb = exc, tb


class Runaway(BaseException):
    pass


class Skip(Exception):
    """The case turned out to be outside the property's domain (counted, not judged)."""


class Ctx(object):
    def __init__(self):
        self.events = {}
        self.fails = []
        self.sigs = set()
        self.case = None
        self.maxerr = {}

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def peak(self, name, v):
        """largest observed error / tolerance ratio: evidence that tolerances have slack and are not vacuous"""
        v = float(v)
        if v == v and v > self.maxerr.get(name, -1.0):
            self.maxerr[name] = v

    def sig(self, *parts):
        self.sigs.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def fail(self, msg, key=None, **detail):
        self.fails.append(dict(msg=str(msg)[:1500], key=key, detail={k: str(v)[:400] for k, v in detail.items()}))

    def check(self, cond, msg, **detail):
        self.ev('assertions')
        if not bool(cond):
            self.fail(msg, **detail)
            return False
        return True

    @contextlib.contextmanager
    def sut(self, what):
        try:
            yield
        except (SutError, Runaway, Skip):
            raise
        except Exception as e:
            raise SutError(what, e, traceback.format_exc()[-1500:])

    def expect(self, exc_types, fn, what):
        """fn must raise one of exc_types"""
        self.ev('rejections_expected')
        try:
            r = fn()
        except exc_types:
            self.ev('rejections_seen')
            return True
        except Exception as e:
            self.fail('%s: raised %s (%s) instead of %s' % (what, type(e).__name__, str(e)[:200], exc_types))
            return False
        self.fail('%s: accepted, returned %r' % (what, str(r)[:200]))
        return False


def run_case(mod, case, ctx):
    ctx.case = case
    before = len(ctx.fails)
    status = 'ok'
    try:
        mod.run(case, ctx)
    except Skip:
        ctx.ev('skipped_cases')
        status = 'skip'
    except SutError as e:
        ctx.fail('exception on valid use: %s' % e, tb=e.tb)
    except Runaway as e:
        ctx.fail('training does not stop: %s' % e)
    except Exception as e:
        # raised below a frame of the code under test: its failure, wherever the harness stood
        if not any(f.filename.startswith(os.path.join(REPO, 'tensorD')) for f in traceback.extract_tb(e.__traceback__)):
            raise
        ctx.fail('exception on valid use: %s: %s' % (type(e).__name__, str(e)[:600]), tb=traceback.format_exc()[-1500:])
    new = ctx.fails[before:]
    for f in new:
        f['case'] = case
    if new:
        status = 'fail'
    return status


def breaks_again(mod, case, e):
    try:
        run_case(mod, case, Ctx())
    except Exception as f:
        return type(f) is type(e)
    return False


def with_parent():
    """a worker ends with the process that started it"""
    try:
        import ctypes, signal
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except Exception:
        pass


def worker(prop, tier, seed, shard, nshards, out_path, only_case=None):
    import importlib, random
    t0 = time.time()
    with_parent()
    load_sut()
    sys.path.insert(0, os.path.join(VERIF))
    mod = importlib.import_module('rtm.checks.%s' % prop.lower())
    ctx = Ctx()
    res = dict(shard=shard, status='running', cases=0, harness_errors=[])

    def flush():
        res.update(events=ctx.events, fails=ctx.fails[:20], nfails=len(ctx.fails), sigs=sorted(ctx.sigs),
                   maxerr=ctx.maxerr, wall=time.time() - t0)
        tmp = out_path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f, default=str)
        os.replace(tmp, out_path)

    if only_case is not None:
        todo = [only_case]
    else:
        rng = random.Random('%s-%s' % (prop, seed))
        allc = mod.cases(tier, rng)
        res['total_cases'] = len(allc)
        todo = [c for i, c in enumerate(allc) if i % nshards == shard]
        res['samples'] = todo[:2]
    last = time.time()
    prog = out_path + '.case'
    budget = float(os.environ.get('RTM_BUDGET', '600' if tier == 'quick' else '780'))
    for c in todo:
        if time.time() - t0 > budget:
            res['not_run'] = len(todo) - res['cases'] - len(res['harness_errors'])
            break
        with open(prog, 'w') as f:
            json.dump(c, f, default=str)
        c0 = time.time()
        try:
            st = run_case(mod, c, ctx)
            ctx.peak('slowest_case_s', time.time() - c0)
        except Exception as e:
            tb = traceback.format_exc()[-3000:]
            if isinstance(e, (MemoryError, OSError)) or not breaks_again(mod, c, e):
                res['harness_errors'].append(dict(case=c, tb=tb))
                if len(res['harness_errors']) > 3:
                    break
                continue
            # the same again: what the code returned has a form that the monitor cannot even read
            ctx.fails.append(dict(msg='what the code under test returned cannot be read by the monitor: %s: %s' % (type(e).__name__, str(e)[:600]), key=None,
                                  detail=dict(tb=tb[-900:]), case=c))
            st = 'fail'
        res['cases'] += 1
        ctx.ev('cases_' + st)
        if len(ctx.fails) >= 6:
            break
        if time.time() - last > 5:
            flush(); last = time.time()
    res['status'] = 'done'
    flush()


if __name__ == '__main__':
    a = json.loads(sys.argv[1])
    worker(**a)
