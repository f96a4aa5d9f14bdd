"""Planted changes: writes /verif/seeded/<id>/ from tools/seeds/defs.py and tests them in copies of /repo.
python3 tools/seeded.py [--write] [--test] [--check] [--all-checks] [ids...]   results in tools/seeds/results.json"""
import concurrent.futures as cf, difflib, json, os, shutil, subprocess, sys
V = '/verif'
sys.path.insert(0, V + '/tools/seeds')
import glob, importlib
S = []
for f in sorted(glob.glob(V + '/tools/seeds/defs*.py')):
    S += importlib.import_module(os.path.basename(f)[:-3]).S
RES = V + '/tools/seeds/results.json'
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']


def apply_text(rel, pairs):
    raw = open('/repo/' + rel, newline='').read()
    crlf = '\r\n' in raw
    t = raw.replace('\r\n', '\n')
    for old, new in pairs:
        assert t.count(old) >= 1, (rel, old)
        t = t.replace(old, new, 1)
    return raw, (t.replace('\n', '\r\n') if crlf else t)


def write(s):
    d = '%s/seeded/%s' % (V, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = {}
    for rel, old, new in s['edits']:
        files.setdefault(rel, []).append((old, new))
    w = '/tmp/seedw/' + s['id']
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    for rel, pairs in files.items():
        open(w + '/' + rel, 'w', newline='').write(apply_text(rel, pairs)[1])
    p = subprocess.run(['git', '-C', w, 'diff'], capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(p)
    shutil.copy(V + '/tools/seeds/pre.py', d + '/pre.py')
    open(d + '/demo.py', 'w').write('"""%s (%s)"""\nimport os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom pre import *\n%sprint("ok")\n' % (s['id'], s['prop'], s['demo']))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexec timeout 280 /opt/venv/bin/python -B "$D/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    return w


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def test(s, w):
    r = {}
    d = '%s/seeded/%s' % (V, s['id'])
    r['demo_clean'], o1 = sh(['bash', d + '/demo.sh'], '/repo')
    r['demo_patched'], o2 = sh(['bash', d + '/demo.sh'], w)
    if r['demo_clean']:
        r['demo_clean_out'] = o1[-600:]
    r['demo_out'] = o2[-200:]
    for x in ('test.sh', 'run_script.py'):
        open('%s/.%s' % (w, x), 'w').write(open('/opt/vp/' + x).read().replace('/repo', w).replace('/opt/vp/run_script.py', w + '/.run_script.py'))
    rc, o = sh(['bash', w + '/.test.sh', w + '/.out.json'], w)
    try:
        r['tests_broken'] = sorted(set(stable) - set(json.load(open(w + '/.out.json'))['passed']))
    except Exception as e:
        r['tests_broken'] = ['none ran: %s' % e, o[-500:]]
    return r


def check(s, w, pids):
    out = {}
    for pid in pids:
        rc, o = sh(['/opt/venv/bin/python', '-B', V + '/rtm/run.py', pid], V, dict(RTM_REPO=w, VERIF_SEED='1', VERIF_TIER='quick', RTM_EVIDENCE='/tmp/seedw/evidence'))
        out[pid] = [rc, [l for l in o.splitlines() if l.startswith(('VIOLATION', 'INCONCLUSIVE', 'HARNESS'))][:2]]
    return out


def main():
    a = sys.argv[1:]
    ids = [x for x in a if not x.startswith('-')]
    todo = [s for s in S if not ids or s['id'] in ids]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    os.makedirs('/tmp/seedw', exist_ok=True)
    W = {s['id']: write(s) for s in todo}
    if '--test' in a:
        with cf.ThreadPoolExecutor(4) as ex:
            for s, r in zip(todo, ex.map(lambda s: test(s, W[s['id']]), todo)):
                ok = r['demo_clean'] == 0 and r['demo_patched'] != 0 and not r['tests_broken']
                r['counts'] = ok
                res.setdefault(s['id'], {}).update(r)
                print('%-30s %s %s' % (s['id'], 'ok' if ok else 'BAD', '' if ok else r), flush=True)
    if '--check' in a or '--all-checks' in a:
        allp = [m['property'] if 'property' in m else m['id'] for m in json.load(open(V + '/MANIFEST.json'))['checks']]
        for s in todo:
            c = check(s, W[s['id']], allp if '--all-checks' in a else [s['prop']])
            res.setdefault(s['id'], {}).setdefault('checks', {}).update(c)
            print('%-30s %s' % (s['id'], {k: v for k, v in c.items() if v[0] != 0} or 'MISSED'), flush=True)
            json.dump(res, open(RES, 'w'), indent=1, sort_keys=True)
    for s in todo:
        shutil.rmtree(W[s['id']], ignore_errors=True)
    json.dump(res, open(RES, 'w'), indent=1, sort_keys=True)


main()
