#!/opt/venv/bin/python
"""Runs one property's check: spawns workers on the real code, merges what their monitors saw, gives the verdict.

  run.py C01             quick or thorough by VERIF_TIER, seeded by VERIF_SEED
  run.py --replay FILE   re-executes the case of a recorded violation

exit 0: held on everything observed.   exit 1: VIOLATION line.   exit 3: inconclusive (watchdog, harness error,
a monitor that observed nothing)."""
import hashlib, importlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
HANG = float(os.environ.get('RTM_HANG', '250'))     # no case takes a tenth of this


def env_for_workers():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='',
             PYTHONWARNINGS='ignore', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TF_ENABLE_ONEDNN_OPTS='0')
    return e


def spawn(prop, tier, seed, shard, n, tmp, only=None):
    d = os.path.join(tmp, 'w%d' % shard)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(tmp, 'out%d.json' % shard)
    a = dict(prop=prop, tier=tier, seed=seed, shard=shard, nshards=n, out_path=out, only_case=only)
    log = open(os.path.join(tmp, 'log%d.txt' % shard), 'wb')
    p = subprocess.Popen([PY, '-B', '-c', 'import sys; sys.path.insert(0, %r); from rtm import core; import json; '
                          'core.worker(**json.loads(sys.argv[1]))' % VERIF, json.dumps(a)],
                         cwd=d, env=env_for_workers(), stdout=log, stderr=log, start_new_session=True)
    return p, out, log


def known_findings(prop):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    keys = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                k = rest.split(' ', 1)[0].split('key=', 1)[1]
                keys[k] = rest.split(' ', 1)[1] if ' ' in rest else ''
    return keys


def main():
    argv = sys.argv[1:]
    if argv and argv[0] == '--replay':
        rp = json.load(open(argv[1]))
        prop, only = rp['property'], rp['case']
    else:
        prop, only = argv[0].upper(), None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    # metadata is read without TensorFlow: check modules import it lazily
    mod = importlib.import_module('rtm.checks.%s' % prop.lower())
    n = 1 if only is not None else min(getattr(mod, 'WORKERS', 8), int(os.environ.get('RTM_WORKERS', '8')))
    limit = float(os.environ.get('RTM_LIMIT', '850'))
    tmp = tempfile.mkdtemp(prefix='rtm-%s-' % prop)
    procs = []
    try:
        procs = [spawn(prop, tier, seed, i, n, tmp, only) for i in range(n)]
        hung = None
        while any(p.poll() is None for p, _, _ in procs):
            if time.time() - t0 > limit:
                break
            stuck = [i for i, (p, out, _) in enumerate(procs) if p.poll() is None and age(out + '.case') > HANG]
            if stuck and time.time() - t0 < limit - HANG - 20:
                hung = stuck[0]
                break
            time.sleep(0.05)
        results, problems = [], []
        if hung is not None:
            # a case takes far longer than any other: on its own it must end within the same time, or the call never returns
            case = last_case_obj(procs[hung][1])
            for p, _, _ in procs:
                if p.poll() is None:
                    kill(p)
            p2, out2, log2 = spawn(prop, tier, seed, 100, 1, tmp, case)
            procs.append((p2, out2, log2))
            try:
                p2.wait(HANG)
                problems.append('a case took more than %.0f s, and ended when repeated: %s' % (HANG, json.dumps(case, default=str)[:300]))
            except subprocess.TimeoutExpired:
                kill(p2)
                results.append(dict(events={}, fails=[dict(msg='the call does not return (more than %.0f s, repeatably)' % HANG, key=None, detail={},
                                                           case=case)], nfails=1, sigs=[], maxerr={}, cases=0, harness_errors=[]))
            procs_done = procs[:-1]
        else:
            procs_done = procs
        for i, (p, out, log) in enumerate(procs_done):
            rc = p.poll()
            if rc is None:
                kill(p)
                problems.append('watchdog: worker %d exceeded %.0f s at case %s' % (i, limit, last_case(out)))
            r = json.load(open(out)) if os.path.exists(out) else None
            if hung is None and (r is None or r['status'] != 'done'):
                if rc is not None:
                    problems.append('worker %d died (rc %s) at case %s: %s' % (i, rc, last_case(out), tail(tmp, i)))
                    # a crash of the process inside the code under test on a valid input: decide by repeating it
                    c = last_case_obj(out)
                    if c is not None and rc < 0 and rc not in (-signal.SIGKILL, -signal.SIGTERM):
                        p2, out2, _ = spawn(prop, tier, seed, 100 + i, 1, tmp, c)
                        try:
                            p2.wait(200)
                        except subprocess.TimeoutExpired:
                            kill(p2)
                        if p2.poll() == rc:
                            r = r or dict(events={}, fails=[], nfails=0, sigs=[], maxerr={}, cases=0, harness_errors=[])
                            r['fails'] = r['fails'] + [dict(msg='the process crashes (signal %d), repeatably' % -rc,
                                                            key=None, detail={}, case=c)]
            if r is not None:
                results.append(r)
                for h in r.get('harness_errors', []):
                    problems.append('harness error at %s: %s' % (json.dumps(h['case'])[:300], h['tb'][-900:]))
    finally:
        for p, _, log in procs:
            if p.poll() is None:
                kill(p)
            log.close()
        if os.environ.get('RTM_KEEP'):
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)

    events, maxerr, sigs, fails, ncases, samples = {}, {}, set(), [], 0, []
    for r in results:
        if r.get('not_run'):
            events['cases_beyond_time_budget'] = events.get('cases_beyond_time_budget', 0) + r['not_run']
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['maxerr'].items():
            maxerr[k] = max(maxerr.get(k, -1), v)
        sigs.update(r['sigs'])
        fails += r['fails']
        ncases += r['cases']
        samples += r.get('samples') or []
    known = known_findings(prop)
    new, old = [], {}
    for f in fails:
        if f.get('key') and f['key'] in known:
            old.setdefault(f['key'], f)
        else:
            new.append(f)
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s%s' % (prop, known[k], '' if k in old else ' (not reached in this run)'))
    if only is None:
        missing = [k for k in getattr(mod, 'REQUIRED', ['assertions']) if not events.get(k)]
        if missing and not new:
            problems.append('monitors that observed nothing: %s' % missing)
        write_evidence(prop, tier, seed, mod, ncases, sigs, samples, events, maxerr, len(new), time.time() - t0)
    for f in new[:5]:
        rp = replay_path(prop, f)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('   ', f['msg'][:700].replace('\n', ' | '))
        for k, v in f['detail'].items():
            print('      %s: %s' % (k, v.replace('\n', ' | ')[-600:]))
        print('      case:', json.dumps(f.get('case'), default=str)[:400])
    if new:
        return 1
    if problems:
        for q in problems[:3]:
            print('INCONCLUSIVE property=%s %s' % (prop, q))
        return 3
    print('HELD property=%s tier=%s seed=%d cases=%d distinct=%d events=%s worst error/tolerance=%s wall=%.1fs' % (
        prop, tier, seed, ncases, len(sigs), json.dumps(events, sort_keys=True),
        json.dumps({k: float('%.2g' % v) for k, v in maxerr.items()}, sort_keys=True), time.time() - t0))
    return 0


def write_evidence(prop, tier, seed, mod, ncases, sigs, samples, events, maxerr, nviol, wall):
    d = os.environ.get('RTM_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    level = getattr(mod, 'LEVEL', 'exploration')
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=ncases, distinct_nontrivial=len(sigs), rule=mod.RULE,
                            samples=samples[:6], observed_events=events,
                            worst_error_over_tolerance={k: float('%.3g' % v) for k, v in maxerr.items()}),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(d, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def replay_path(prop, f):
    d = os.path.join(os.environ['RTM_EVIDENCE'], 'replays') if os.environ.get('RTM_EVIDENCE') else os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(property=prop, case=f.get('case'), msg=f['msg'], detail=f['detail'],
                           replay_cmd='rtm/run.py --replay FILE'), default=str, indent=1)
    path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as g:
        g.write(body)
    return path


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def age(path):
    try:
        return time.time() - os.path.getmtime(path)
    except OSError:
        return 0


def last_case_obj(out):
    try:
        return json.load(open(out + '.case'))
    except Exception:
        return None


def last_case(out):
    return json.dumps(last_case_obj(out), default=str)[:300]


def tail(tmp, i):
    try:
        return open(os.path.join(tmp, 'log%d.txt' % i), 'rb').read()[-800:].decode('utf8', 'replace')
    except OSError:
        return ''


if __name__ == '__main__':
    sys.exit(main())
