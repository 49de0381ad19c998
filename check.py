"""
check.py PROPERTY [--tier quick|thorough] [--seed N] [--cases N] [--jobs N] [--replay FILE] [--index I]

Exit 0: held on everything observed.  Exit 1: VIOLATION line.  Exit 2: inconclusive or harness error.
"""
import os
import sys

if os.environ.get('PMON_CHILD') != '1':
    env = dict(os.environ)
    env.update(PMON_CHILD='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
               PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', LC_ALL='C.UTF-8')
    import tempfile, subprocess, shutil
    scratch = tempfile.mkdtemp(prefix='pmon.')
    # never read bytecode left by an earlier state of the tree
    env.update(PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), MPLCONFIGDIR=os.path.join(scratch, 'mpl'), PMON_SCRATCH=scratch)
    os.makedirs(env['MPLCONFIGDIR'])
    # one thread per solver: cases run in parallel, and are repeatable
    with open(os.path.join(scratch, 'gurobi.env'), 'w') as f:
        f.write('Threads 1\n')
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = sys.executable
    try:
        sys.exit(subprocess.call([py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env=env))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

import argparse
import importlib
import json
import multiprocessing
import time
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pmon import core

BREAKDOWN_RATE = 5e-3
EVIDENCE = os.path.join(core.ROOT, 'evidence')


def load(prop):
    core.import_repo()
    mod = importlib.import_module('pmon.props.' + prop.lower())
    assert mod.ID == prop
    monitor = None
    if hasattr(mod, 'install'):
        from pmon.instrument import Monitor
        monitor = Monitor()
        mod.install(monitor)
    return mod, monitor


def quiet():
    # solvers print on the file descriptor
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def work(args):
    prop, tier, seed, indices, deadline = args
    mod, monitor = STATE
    out = {'events': Counter(), 'signatures': set(), 'nontrivial': 0, 'cases': 0,
           'violations': [], 'errors': [], 'samples': [], 'slowest': 0.}
    for i in indices:
        if time.time() > deadline:
            break
        ctx = core.Ctx(tier, getattr(mod, 'CPU_LIMIT', 120.))
        ctx.monitor = monitor
        t = time.process_time()
        r = core.run_case(mod, seed, i, ctx)
        out['slowest'] = max(out['slowest'], time.process_time() - t)
        out['cases'] += 1
        out['events'].update(ctx.events)
        if r is None:
            out['signatures'] |= ctx.signatures
            out['nontrivial'] += ctx.nontrivial
            if ctx.sample is not None and len(out['samples']) < 1:
                out['samples'].append({'case': i, 'observed': ctx.sample})
        elif r[0] == 'violation':
            out['violations'].append({'case': i, 'scenario': r[1], 'message': r[2], 'data': r[3]})
            if len(out['violations']) >= 3:
                break
        elif r[0] == 'error':
            out['errors'].append({'case': i, 'scenario': r[1], 'trace': r[2]})
            if len(out['errors']) >= 3:
                break
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('PMON_JOBS', '8')))
    ap.add_argument('--replay')
    ap.add_argument('--index')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    global STATE
    t0 = time.time()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    os.chdir(os.environ['PMON_SCRATCH'])
    STATE = load(a.property)
    mod, monitor = STATE

    # single case
    if a.replay or a.index is not None:
        if a.replay:
            rep = json.load(open(a.replay))
            seed, index = rep['seed'], rep['case']
        else:
            seed, index = a.seed, int(a.index) if a.index.lstrip('-').isdigit() else a.index
        ctx = core.Ctx(a.tier)
        ctx.monitor = monitor
        r = core.run_case(mod, seed, index, ctx)
        print(json.dumps({'result': core.jsonable(r), 'events': dict(ctx.events)}, indent=1))
        if r is not None and r[0] == 'error':
            print(r[2])
            return 2
        if r is not None and r[0] == 'violation':
            print('VIOLATION property=%s replay=%s' % (a.property, a.replay))
            return 1
        return 0

    n = a.cases if a.cases is not None else (mod.QUICK if a.tier == 'quick' else mod.THOROUGH)
    budget = 420. if a.tier == 'quick' else 7200.
    deadline = t0 + budget
    fixed = ['fixed:' + name for name, _ in getattr(mod, 'FIXED', [])]
    chunk = max(1, min(getattr(mod, 'CHUNK', 25), n // (a.jobs*2) + 1))
    todo = [(a.property, a.tier, a.seed, [f], deadline) for f in fixed]
    todo += [(a.property, a.tier, a.seed, list(range(s, min(s+chunk, n))), deadline) for s in range(0, n, chunk)]
    tot = {'events': Counter(), 'signatures': set(), 'nontrivial': 0, 'cases': 0,
           'violations': [], 'errors': [], 'samples': [], 'slowest': 0.}
    with multiprocessing.get_context('fork').Pool(a.jobs, initializer=quiet) as pool:
        stream = pool.imap(work, todo)
        while True:
            try:
                out = stream.next(timeout=max(60., deadline + 150. - time.time()))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                # wall-clock watchdog: inconclusive, never a verdict
                tot['errors'].append({'case': None, 'scenario': 'watchdog', 'trace': 'a worker gave no answer'})
                pool.terminate()
                break
            tot['events'].update(out['events'])
            tot['signatures'] |= out['signatures']
            for k in ('nontrivial', 'cases'):
                tot[k] += out[k]
            for k in ('violations', 'errors', 'samples'):
                tot[k] += out[k]
            tot['slowest'] = max(tot['slowest'], out['slowest'])
            if len(tot['violations']) >= 5 or len(tot['errors']) >= 5:
                pool.terminate()
                break

    # known findings: their reproducers are run and reported, and suppress nothing else
    known = []
    path = os.path.join(core.ROOT, 'known_findings.json')
    if os.path.exists(path):
        known = [k for k in json.load(open(path))['open'] if k['property'] == a.property]
    findings = getattr(mod, 'FINDINGS', {})
    for k in known:
        still = findings[k['key']](core.rng_for(0, mod.ID, k['key']), core.Ctx(a.tier))
        if still:
            print('KNOWN-FINDING: property=%s %s' % (a.property, k['what']))

    # numerical breakdowns of the libraries underneath are tolerated only as rare events
    calls, broke = tot['cases'], tot['events']['breakdowns']
    if broke > max(4, BREAKDOWN_RATE*calls):
        tot['violations'].append({'case': None, 'scenario': 'breakdowns',
                                  'message': '%d of %d cases ended in a numerical breakdown' % (broke, calls), 'data': {}})

    # floors
    short = {}
    for name, floor in getattr(mod, 'FLOORS', {}).items():
        if a.cases is None and tot['events'][name] < floor:
            short[name] = (tot['events'][name], floor)
    status = 0
    lines = []
    if tot['violations']:
        status = 1
        os.makedirs(os.path.join(EVIDENCE, 'replays'), exist_ok=True)
        v = tot['violations'][0]
        rp = os.path.join(EVIDENCE, 'replays', '%s.%s.%s.json' % (a.property, a.seed, str(v['case']).replace(':', '_').replace(' ', '_').replace('/', '_')))
        with open(rp, 'w') as f:
            json.dump({'property': a.property, 'seed': a.seed, 'tier': a.tier, 'case': v['case'], 'scenario': v['scenario'],
                       'message': v['message'], 'data': v['data'],
                       'rerun': 'python3 check.py %s --replay %s' % (a.property, rp)}, f, indent=1)
        for w in tot['violations'][:5]:
            lines.append('  case %s (%s): %s' % (w['case'], w['scenario'], w['message'][:600]))
        lines.append('VIOLATION property=%s replay=%s' % (a.property, rp))
    elif tot['errors']:
        status = 2
        for e in tot['errors'][:2]:
            lines.append('HARNESS ERROR case %s (%s)\n%s' % (e['case'], e['scenario'], e['trace']))
    elif short:
        status = 2
        lines.append('INCONCLUSIVE: too few events observed: %s' % short)

    wall = time.time() - t0
    events = {k: int(v) for k, v in sorted(tot['events'].items())}
    evidence = {
        'property': a.property, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': int(tot['cases']),
            'distinct_nontrivial': len(tot['signatures']),
            'rule': mod.RULE,
            'samples': tot['samples'][:3],
            'events': events,
            'observations_registered': int(tot['nontrivial']),
            'slowest_case_cpu_s': round(tot['slowest'], 3),
            'verdict': {0: 'held on what was observed', 1: 'violated', 2: 'inconclusive'}[status],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': len(tot['violations']),
    }
    if not a.no_evidence:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, a.property + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    print('%s %s seed=%d: %d cases, %d assertions, %d distinct, %.1f s, slowest case %.2f s' % (
        a.property, a.tier, a.seed, tot['cases'], tot['events']['assertions'], len(tot['signatures']), wall, tot['slowest']))
    for l in lines:
        print(l)
    return status


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
