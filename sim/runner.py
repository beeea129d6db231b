"""The command of a check:  runner.py PROP   (VERIF_SEED, VERIF_TIER)
or                          runner.py replay FILE

Exit 0: the property held in every simulated run.  Exit 1 and a line
``VIOLATION property=<id> replay=<path>``: it is broken.  Exit 2: harness
error.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
PY = '/opt/venv/bin/python'
WORKER = os.path.join(HERE, 'worker.py')

from sim.budget import BUDGET, META  # noqa: E402


def env(hashseed):
    e = dict(os.environ)
    e.update({'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
              'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': str(hashseed),
              'PYTHONWARNINGS': 'ignore', 'MPLBACKEND': 'Agg'})
    return e


def kill(p):
    """A worker and its twin, which share a session of their own."""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def sub(args, timeout, hashseed=0, errfile=None):
    """Run a worker; returns (rc, stderr tail).  rc None: timed out."""
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen([PY, '-B', WORKER] + args, env=env(hashseed),
                             stdout=err, stderr=err, cwd=VERIF,
                             start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            kill(p)
            rc = None
        err.seek(0)
        return rc, err.read()[-4000:].decode('utf-8', 'replace')


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line[len('finding: '):])
    return out


def main(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    b = BUDGET[prop][tier]
    nworkers = int(os.environ.get('VERIF_WORKERS', '8'))
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return check(prop, tier, base, b, nworkers, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, base, b, nworkers, tmp):
    t0 = time.time()
    count = int(os.environ.get('VERIF_RUNS', b['runs']))
    cap = b['cap']
    procs = []
    for w in range(nworkers):
        out = os.path.join(tmp, 'w%d.json' % w)
        err = open(os.path.join(tmp, 'w%d.err' % w), 'wb')
        p = subprocess.Popen(
            [PY, '-B', WORKER, 'batch', prop, str(base), str(w),
             str(nworkers), str(count), str(cap), tier, out],
            env=env(0 if w % 2 == 0 else 1000 + w), stdout=err, stderr=err,
            cwd=VERIF, start_new_session=True)
        procs.append({'p': p, 'out': out, 'err': err.name, 'at': None,
                      'since': time.time(), 'hang': None})
    stall = b.get('stall', 90)
    while True:
        alive = 0
        found = False
        for q in procs:
            if q['p'].poll() is None:
                alive += 1
                cur = read_json(q['out'])
                at = cur.get('at') if cur else None
                if at != q['at']:
                    q['at'], q['since'] = at, time.time()
                elif time.time() - q['since'] > stall:
                    kill(q['p'])
                    q['hang'] = cur
            else:
                cur = read_json(q['out'])
                if cur and cur.get('violation'):
                    found = True
        if alive == 0 or found:
            break
        time.sleep(.1)
    if found:
        # let runs in flight finish for a moment, then stop
        t1 = time.time()
        while time.time() - t1 < 5 and any(q['p'].poll() is None
                                           for q in procs):
            time.sleep(.1)
    for q in procs:
        if q['p'].poll() is None:
            kill(q['p'])
    results = []
    viols = []
    errors = []
    for q in procs:
        r = read_json(q['out'])
        if r and r.get('done'):
            results.append(r)
            if r['violation']:
                viols.append(r['violation'])
        elif q['hang'] is not None and q['hang'].get('seed') is not None:
            viols.append({'run': q['hang']['at'], 'seed': q['hang']['seed'],
                          'viol': {'kind': 'no-progress',
                                   'detail': 'run did not end'},
                          'plan': None, 'prelude': []})
        elif not found:
            tail = open(q['err'], 'rb').read()[-3000:].decode('utf-8',
                                                              'replace')
            errors.append(tail or 'worker ended without a result')
    replay = None
    status = 0
    if viols:
        v = min(viols, key=lambda x: x['run'])
        replay, status = report(prop, tier, base, v, tmp)
    if errors and status == 0:
        sys.stderr.write('HARNESS ERROR\n' + errors[0] + '\n')
        status = 2
    evidence(prop, tier, base, results, time.time() - t0, len(viols), replay,
             nworkers)
    for k in known_findings(prop):
        print('KNOWN-FINDING: ' + k)
    runs = sum(r['runs'] for r in results)
    if status == 0:
        if runs == 0:
            sys.stderr.write('HARNESS ERROR no runs\n')
            return 2
        print('OK property=%s runs=%d faults=%d wall=%.1fs' % (
            prop, runs, sum(sum(r['faults'].values()) for r in results),
            time.time() - t0))
    elif status == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    sys.stdout.flush()
    return status


def read_json(path):
    try:
        with open(path) as f:
            return json.loads(f.read())
    except (OSError, ValueError):
        return None


def regen(prop, tier, seeds, tmp):
    inp, out = os.path.join(tmp, 'seeds.json'), os.path.join(tmp, 'plans.json')
    with open(inp, 'w') as f:
        json.dump(seeds, f)
    rc, err = sub(['regen', prop, tier, inp, out], 300)
    return read_json(out) if rc == 0 else None


def execute(prop, rep, tmp, budget=None, timeout=300):
    path = os.path.join(tmp, 'exec.json')
    out = os.path.join(tmp, 'exec.out')
    with open(path, 'w') as f:
        json.dump(rep, f)
    if os.path.exists(out):
        os.remove(out)
    rc, err = sub(['exec', prop, path, out] +
                  ([str(budget)] if budget else []), timeout)
    if rc is None:
        return {'viol': {'kind': 'no-progress', 'detail': 'did not end'},
                'stage': 'plan'}
    r = read_json(out)
    if r is None:
        return {'viol': None, 'error': err}
    return r


def report(prop, tier, base, v, tmp):
    """Confirm in a fresh process, minimise, write the replay file."""
    rep_dir = os.path.join(VERIF, 'replays')
    os.makedirs(rep_dir, exist_ok=True)
    path = os.path.join(rep_dir, '%s-%d-%d.json' % (prop, base, v['run']))
    if v['plan'] is None:
        v['plan'] = regen(prop, tier, [v['seed']], tmp)[0]
    rep = {'property': prop, 'tier': tier, 'verif_seed': base,
           'run': v['run'], 'seed': v['seed'], 'viol': v['viol'],
           'plan': v['plan'], 'prelude_plans': []}
    kind = v['viol']['kind']
    hang = kind == 'no-progress'
    r = execute(prop, rep, tmp, budget=3000000 if hang else None)
    if r.get('viol') is None and hang:
        # slow, not stuck
        sys.stderr.write('note: run %d stalled but completes\n' % v['run'])
        return None, 2
    if r.get('viol') is None and v.get('prelude'):
        # depends on what ran before in the same process
        plans = regen(prop, tier, v['prelude'], tmp) or []
        rep['prelude_plans'] = plans
        r = execute(prop, rep, tmp)
        if r.get('viol') is not None:
            rep = shrink_prelude(prop, rep, tmp)
    confirmed = r.get('viol') is not None
    if confirmed and not hang and not rep['prelude_plans']:
        rep['viol'] = r['viol']
        p1 = os.path.join(tmp, 'shrink.json')
        p2 = os.path.join(tmp, 'shrink.out')
        with open(p1, 'w') as f:
            json.dump(rep, f)
        rc, err = sub(['shrink', prop, p1, p2, '60'], 200)
        s = read_json(p2)
        if s:
            small = dict(rep)
            small['plan'] = s['plan']
            r2 = execute(prop, small, tmp)
            if r2.get('viol') and r2['viol']['kind'] == kind:
                small['viol'] = r2['viol']
                small['shrink_tried'] = s['tried']
                small['digest'] = r2.get('digest')
                small['event_log'] = r2.get('log')
                rep = small
    rep['confirmed_in_fresh_process'] = confirmed
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1, sort_keys=True)
    print('%s: %s' % (rep['viol']['kind'], rep['viol']['detail']))
    return path, 1


def shrink_prelude(prop, rep, tmp):
    plans = rep['prelude_plans']
    t_end = time.time() + 90
    n = len(plans)
    size = max(1, n // 2)
    while plans and time.time() < t_end:
        i, shrunk = 0, False
        while i < len(plans) and time.time() < t_end:
            cand = dict(rep)
            cand['prelude_plans'] = plans[:i] + plans[i + size:]
            if execute(prop, cand, tmp).get('viol'):
                plans = cand['prelude_plans']
                shrunk = True
            else:
                i += size
        if size == 1 and not shrunk:
            break
        size = max(1, size // 2)
    rep = dict(rep)
    rep['prelude_plans'] = plans
    return rep


def evidence(prop, tier, base, results, wall, nviol, replay, nworkers):
    faults, probes, samples = {}, {}, []
    sigs, nontriv = set(), set()
    for r in results:
        for k, x in r['faults'].items():
            faults[k] = faults.get(k, 0) + x
        for k, x in r['probes'].items():
            probes[k] = probes.get(k, 0) + x
        sigs.update(r['sigs'])
        nontriv.update(r['nontrivial'])
        samples += r['samples']
    runs = sum(r['runs'] for r in results)
    m = META[prop]
    ev = {
        'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(nontriv),
            'rule': m['rule'],
            'samples': samples[:5],
            'simulated_runs': runs,
            'runs_per_hour': int(runs / max(wall, 1e-9) * 3600),
            'steps': sum(r['steps'] for r in results),
            'simulated_seconds': round(sum(r['sim_time'] for r in results), 3),
            'fault_kinds_fired': faults,
            'faults_fired_total': sum(faults.values()),
            'rare_conditions_hit': probes,
            'distinct_interleavings': len(sigs),
            'interleaving_measure':
                'distinct sequences of (operation kind, route or method, '
                'parameter kind, fault) per run',
            'real_components': m['real'],
            'stub_components': m['stub'],
            'workers': nworkers,
        },
        'assumptions': m.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    if replay:
        ev['coverage']['replay'] = replay
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        r = execute(rep['property'], rep, tmp,
                    budget=3000000 if rep['viol']['kind'] == 'no-progress'
                    else None)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if r.get('error'):
        sys.stderr.write(r['error'])
        return 2
    if r.get('viol'):
        for line in r.get('log') or []:
            print('  ' + line)
        print('%s: %s' % (r['viol']['kind'], r['viol']['detail']))
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    print('OK property=%s: the replay passes' % rep['property'])
    return 0


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
