"""Executes plans in this process.  Modes:

  worker.py batch PROP BASE START STRIDE COUNT DEADLINE_S TIER OUT
  worker.py exec PROP FILE OUT [budget]     run the plan(s) of a file

Every run is one generated plan, executed from a fresh simulated world.
"""
import gc
import importlib
import json
import os
import random
import sys
import traceback

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import core, seams  # noqa: E402

seams.install()

import warnings  # noqa: E402
warnings.simplefilter('ignore')


def load(prop):
    mod = importlib.import_module('sim.props.' + prop.lower())
    import LinearResponseVariationalBayes as vb
    got = os.path.dirname(os.path.abspath(vb.__file__))
    if os.path.realpath(got) != os.path.realpath(core.PKG_DIR):
        raise RuntimeError('imported the library from %s' % got)
    return mod


def run_plan(mod, plan, keep_log=False, prelude=None, budget=None):
    """Returns (violation or None, ctx).  Raises on harness errors."""
    from sim.functors import HOOK
    ctx = core.Ctx(keep_log)
    ctx.prelude = prelude
    seams.CLOCK.reset()
    seams.reset_process_state()
    HOOK.reset(ctx)
    out, err = sys.stdout, sys.stderr
    saved_filters = list(warnings.filters)
    viol = None
    try:
        if budget:
            with seams.LineBudget(budget):
                mod.run(plan, ctx)
        else:
            mod.run(plan, ctx)
    except core.Violation as v:
        viol = {'kind': v.kind, 'detail': str(v.detail)[:600]}
    except BaseException as e:
        if isinstance(e, core.SimFault):
            # an injected fault escaped the harness: harness error
            raise RuntimeError('injected fault escaped: %r\n%s' %
                               (e, traceback.format_exc()))
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        if core.in_repo(e.__traceback__) and last_is_lib(e.__traceback__):
            viol = {'kind': 'unexpected-exception',
                    'detail': '%s: %s at %s' % (type(e).__name__, e,
                                                core.where(e))}
        else:
            raise
    finally:
        sys.stdout, sys.stderr = out, err
        sys.settrace(None)
        warnings.filters[:] = saved_filters
        if hasattr(warnings, '_filters_mutated'):
            warnings._filters_mutated()
        HOOK.reset(None)
    ctx.sim_time += seams.CLOCK.now
    return viol, ctx


def last_is_lib(tb):
    """The exception was raised below library code, not by the harness's own
    code called back from it."""
    here = os.path.dirname(os.path.abspath(__file__))
    frames = [f[0] for f in traceback.extract_tb(tb)]
    last_repo = max(i for i, f in enumerate(frames)
                    if f.startswith(core.PKG_DIR))
    return not any(f.startswith(here) and not f.endswith('functors.py')
                   for f in frames[last_repo:])


def batch(prop, base, start, stride, count, deadline, tier, out):
    mod = load(prop)
    now = seams.real['monotonic']
    t0 = now()
    agg = {'runs': 0, 'steps': 0, 'faults': {}, 'probes': {}, 'sim_time': 0.0,
           'sigs': [], 'samples': [], 'digests': [], 'violation': None,
           'nontrivial': []}
    history = []
    fd = open(out, 'w')
    i = start
    while i < count:
        if now() - t0 > deadline:
            break
        seed = core.seed_for(base, prop, i)
        plan = mod.gen(random.Random(seed), tier)
        plan['seed'] = seed
        fd.seek(0)
        fd.truncate()
        fd.write(core.dumps({'at': i, 'seed': seed}))
        fd.flush()
        viol, ctx = run_plan(mod, plan, prelude=history)
        agg['runs'] += 1
        agg['steps'] += ctx.steps
        agg['sim_time'] += ctx.sim_time
        for k, v in ctx.faults.items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        for k, v in ctx.probes.items():
            agg['probes'][k] = agg['probes'].get(k, 0) + v
        sig = ctx.signature()
        agg['sigs'].append(sig)
        if ctx.faults and len(ctx.trace) > 2:
            agg['nontrivial'].append(sig)
        agg['digests'].append([i, ctx.digest.hexdigest()[:16]])
        if len(agg['samples']) < 2 and ctx.faults:
            agg['samples'].append({'seed': seed, 'run': i,
                                   'schedule': ctx.trace[:40],
                                   'faults': ctx.faults})
        if viol is not None:
            agg['violation'] = {'run': i, 'seed': seed, 'viol': viol,
                                'plan': plan,
                                'prelude': [s for s in history]}
            break
        history.append(seed)
        if agg['runs'] % 50 == 0:
            gc.collect()
        i += stride
    agg['wall'] = now() - t0
    agg['done'] = True
    fd.seek(0)
    fd.truncate()
    fd.write(core.dumps(agg))
    fd.close()


def exec_file(prop, path, out, budget=None):
    """Run a replay file: optional earlier plans, then the plan."""
    with open(path) as f:
        rep = json.load(f)
    mod = load(prop)
    res = {'viol': None, 'stage': None}
    for j, p in enumerate(rep.get('prelude_plans', [])):
        viol, ctx = run_plan(mod, p)
        if viol is not None:
            res = {'viol': viol, 'stage': j}
            break
    if res['viol'] is None:
        viol, ctx = run_plan(mod, rep['plan'], keep_log=True, budget=budget)
        res = {'viol': viol, 'stage': 'plan',
               'digest': ctx.digest.hexdigest()[:16], 'log': ctx.log}
    with open(out, 'w') as f:
        f.write(core.dumps(res))


def serve(prop):
    """Twin process: one plan per line in, one result per line out."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    mod = load(prop)
    from sim.functors import HOOK
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        plan = json.loads(line)
        ctx = core.Ctx()
        seams.CLOCK.reset()
        seams.reset_process_state()
        HOOK.reset(ctx)
        try:
            r = mod.serve_one(plan, ctx)
        finally:
            HOOK.reset(None)
        out.write(core.dumps(r) + '\n')
        out.flush()


def shrink(prop, path, out, seconds):
    """Minimise the plan of a replay file in this process."""
    from sim import shrinker
    with open(path) as f:
        rep = json.load(f)
    mod = load(prop)
    best, tried = shrinker.shrink(
        mod, rep['plan'], rep['viol']['kind'],
        lambda plan: run_plan(mod, plan)[0],
        float(seconds), seams.real['monotonic'])
    with open(out, 'w') as f:
        f.write(core.dumps({'plan': best, 'tried': tried}))


def regen(prop, tier, seeds):
    mod = load(prop)
    out = []
    for s in seeds:
        p = mod.gen(random.Random(s), tier)
        p['seed'] = s
        out.append(p)
    return out


if __name__ == '__main__':
    mode = sys.argv[1]
    if mode == 'batch':
        prop, base, start, stride, count, deadline, tier, out = sys.argv[2:10]
        batch(prop, base, int(start), int(stride), int(count),
              float(deadline), tier, out)
    elif mode == 'exec':
        exec_file(sys.argv[2], sys.argv[3], sys.argv[4],
                  int(sys.argv[5]) if len(sys.argv) > 5 else None)
    elif mode == 'serve':
        serve(sys.argv[2])
    elif mode == 'shrink':
        shrink(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5])
    elif mode == 'regen':
        prop, tier, inp, out = sys.argv[2:6]
        with open(inp) as f:
            seeds = json.load(f)
        with open(out, 'w') as f:
            f.write(core.dumps(regen(prop, tier, seeds)))
