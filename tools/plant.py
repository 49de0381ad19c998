"""
plant.py DEFS.py [ID ...] [--checks C01,C02]
Development aid: tries planted changes in scratch copies of /repo (stable tests, demonstration, check) and keeps those that qualify in seeded/.
DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
plant.py --recheck [ID ...]: runs the checks against the kept ones.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, LC_ALL='C.UTF-8', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
for k in ('VERIF_SEED', 'VERIF_TIER'):
    ENV.pop(k, None)
DEMO = '#!/bin/bash\nexport LC_ALL=C.UTF-8 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
HEAD = 'import sys\nimport numpy as np\n\n'


def copy_repo(base):
    dst = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    w = os.path.join(dst, 'repo')
    subprocess.check_call(['cp', '-a', base, w])
    return dst, w


def baseline():
    d = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'tests', 'pass'):
        if isinstance(d.get(k), list):
            return set(d[k])
    raise RuntimeError(list(d))


def run_tests(w):
    with tempfile.TemporaryDirectory() as t:
        x = os.path.join(t, 'j.xml')
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=300', '-o', 'junit_family=xunit2',
                        '--junitxml=' + x, 'pympc'], cwd=w, env=dict(ENV, PYTHONPATH='/opt/vp/plugins', MPLCONFIGDIR=t), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        bad, n = [], 0
        for c in ET.parse(x).getroot().iter('testcase'):
            if c.find('failure') is not None or c.find('error') is not None:
                bad.append(c.get('name'))
            elif c.find('skipped') is None:
                n += 1
        return n, bad


def run_demo(d, w):
    with tempfile.TemporaryDirectory() as t:
        p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, env=dict(ENV, MPLCONFIGDIR=t), capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr).strip()[-300:]


def run_check(prop, w, jobs=8, seed=1):
    p = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), prop, '--no-evidence', '--seed', str(seed)], env=dict(ENV, PMON_REPO=w, PMON_JOBS=str(jobs)), capture_output=True, text=True)
    line = [l for l in p.stdout.splitlines() if l.startswith('  case')][:1]
    return p.returncode, (line[0][:170] if line else p.stdout.strip()[-200:])


def one(b, checks=None):
    dst, w = copy_repo('/repo')
    try:
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], 'EDIT matches %d times: %r' % (s.count(old), old[:80])
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
        d = os.path.join(dst, b['id'])
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + b['demo'].strip() + '\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = run_demo(d, '/repo')
        r1 = run_demo(d, w)
        if r0[0] != 0 or r1[0] == 0:
            return b['id'], 'DEMO unpatched %s patched %s' % (r0, r1)
        n, bad = run_tests(w)
        if bad:
            return b['id'], 'TESTS fail: %s' % bad
        out = 'ok (%d tests)' % n
        for c in checks or [b['property']]:
            out += '\n      %s -> %s %s' % ((c,) + run_check(c, w))
        k = os.path.join(ROOT, 'seeded', b['id'])
        if os.path.exists(k):
            shutil.rmtree(k)
        shutil.copytree(d, k)
        return b['id'], out
    finally:
        shutil.rmtree(dst)


def recheck(i, checks=None, seed=1):
    d = os.path.join(ROOT, 'seeded', i)
    dst, w = copy_repo('/repo')
    try:
        subprocess.check_call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=w)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        return i, '; '.join('%s -> %s %s' % ((c,) + run_check(c, w, seed=seed)) for c in checks or [prop])
    finally:
        shutil.rmtree(dst)


if __name__ == '__main__':
    args = sys.argv[1:]
    checks = None
    seed = 1
    if '--seed' in args:
        k = args.index('--seed')
        seed = int(args[k+1])
        del args[k:k+2]
    if '--checks' in args:
        k = args.index('--checks')
        checks = args[k+1].split(',')
        del args[k:k+2]
    if args[0] == '--recheck':
        ids = args[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
        work = [(recheck, i, checks, seed) for i in ids]
    else:
        bugs = runpy.run_path(args[0])['BUGS']
        work = [(one, b, checks) for b in bugs if not args[1:] or b['id'] in args[1:]]
    with ThreadPoolExecutor(3) as ex:
        for i, out in ex.map(lambda t: t[0](*t[1:]), work):
            print(i, out, flush=True)
