"""A model alone in a fresh process: a server that has loaded the code but never run it forks one child for every request."""
import os, pickle, select, struct, subprocess, sys, time
_server = [None]


def serve():
    out = os.dup(1)
    os.dup2(2, 1)           # what the trainings print is not part of the answers
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from rtm import core
    core.load_sut()
    from rtm import gen, train
    for kind in train.KINDS:
        train.cls(kind)
    import tensorD.factorization.pitf, tensorD.factorization.pitf_numpy
    from rtm import pairwise
    src = os.fdopen(0, 'rb', closefd=False)
    while True:
        head = src.read(8)
        if len(head) < 8:
            return
        job = pickle.loads(src.read(struct.unpack('>Q', head)[0]))
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    if 'pairwise' in job:
                        ans = (True, pairwise.alone(**job['pairwise']))
                    else:
                        with gen.G(job['gseed']) as g:
                            from rtm.checks import c22
                            c22.pad(g.g, job['pad'])
                            h = train.Harness(job['kind'], job['X'], job['ranks'], tol=job['tol'], vi=job['vi'], verbose=job['verbose'], sumdir=os.path.join(os.getcwd(), 'pristine'))
                            h.build().train(job['steps'])
                            ans = (True, (h.snap(), h.hist))
                except Exception as e:
                    ans = (False, '%s: %s' % (type(e).__name__, str(e)[:500]))
                b = pickle.dumps(ans)
                b = struct.pack('>Q', len(b)) + b
                while b:
                    b = b[os.write(out, b):]
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def start():
    from rtm import core
    env = dict(os.environ, RTM_REPO=core.REPO, PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)


def read(p, n, end):
    b = b''
    while len(b) < n:
        if not select.select([p.stdout], [], [], max(0.1, end - time.time()))[0]:
            raise TimeoutError()
        x = os.read(p.stdout.fileno(), n - len(b))
        if not x:
            raise EOFError()
        b += x
    return b


def alone(**job):
    """(snapshot, history) of a model trained in a fresh process; None if there was no answer"""
    from rtm import core
    for _ in range(2):
        try:
            if _server[0] is None or _server[0][0] != core.REPO:
                _server[0] = (core.REPO, start())
            p = _server[0][1]
            b = pickle.dumps(job)
            p.stdin.write(struct.pack('>Q', len(b)) + b)
            p.stdin.flush()
            end = time.time() + 100
            ok, ans = pickle.loads(read(p, struct.unpack('>Q', read(p, 8, end))[0], end))
            if not ok:
                raise core.SutError('alone in a fresh process', RuntimeError(ans), '')
            return ans
        except (OSError, EOFError, TimeoutError, pickle.PickleError):
            p = _server[0]
            _server[0] = None
            if p:
                p[1].kill()
                p[1].wait()
    return None


if __name__ == '__main__':
    serve()
