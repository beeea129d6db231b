"""C17: calls neither disturb nor depend on process-wide state.

A session of any other kind runs under two environments (random state, hash
seed, clock, floating-point, warning and print settings, state of standard
output), one of them in another process.  Around every call the process-wide
state is compared, and the two executions must give the same results.
"""
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from sim import core, seams
from sim.core import Violation

SUBS = ['C01', 'C01', 'C01', 'C03', 'C04', 'C06', 'C07', 'C07', 'C08', 'C08',
        'C09', 'C09', 'C10', 'C11', 'C11', 'C13', 'C13', 'C14', 'lib', 'lib', 'lib']
SKIP = ('autograd',       # autograd's own trace stack, after an exception
        'trace')          # the simulator's own interrupts


# environment variables that programs like to look at
VARS = {'OMP_NUM_THREADS': [None, '3', '17'],
        'OPENBLAS_NUM_THREADS': [None, '3'], 'MKL_NUM_THREADS': [None, '5'],
        'MPLBACKEND': [None, 'svg'], 'COLUMNS': [None, '20'],
        'DEBUG': [None, '1', '0'], 'VERBOSE': [None, '1'],
        'LANG': [None, 'C', 'de_DE.UTF-8'], 'TZ': [None, 'Asia/Tokyo'],
        'PYTHONWARNINGS': [None, 'error'], 'NUMEXPR_NUM_THREADS': [None, '2'],
        'TMPDIR': [None, '/nonexistent'], 'USER': [None, 'nobody'],
        'CI': [None, 'true'], 'PYTHONOPTIMIZE': [None, '1']}
# state the simulator itself does not touch between two calls
STEADY = ('np.random', 'random', 'warnings.filters', 'np.print', 'environ',
          'cwd', 'recursion', 'gc', 'locale', 'signals', 'excepthook',
          'displayhook', 'path', 'print', 'np.errcall', 'timefuncs')


class EndRun(Violation):
    """The run ends here (after an interrupted call)."""


class EnvViolation(Violation):
    pass


def gen_env(rng):
    return {'np': rng.randint(0, 99999), 'py': rng.randint(0, 99999),
            'err': rng.choice(['ignore', 'warn', 'mix']),
            'filt': rng.choice(['ignore', 'always', 'default', 'once']),
            'prec': rng.choice([1, 4, 8, 17]),
            'thr': rng.choice([3, 1000]),
            'wall': rng.choice([1.5e9, 0., 4e9, 946684799.]),
            'origin': rng.choice([0., 5000., 1e6]),
            'out': rng.choice([None, 'EPIPE', 'ENOSPC']),
            'cwd': rng.choice(['/', None]),
            'drag': rng.choice([0., 0., .001, 30., 4000.]),
            'wander': rng.choice([None, None, [-100., 100.], [3600.],
                                  [-7200., 0., 7200., 1e7]]),
            'vars': rng.randint(0, 9999),
            'gc': rng.random() < .8}


def gen(rng, tier):
    sub = rng.choice(SUBS)
    if sub == 'lib':
        from sim import lib
        plan = {'cfg': {}, 'ops': []}
        for _ in range(rng.randint(2, 6)):
            op = {'o': rng.choice(lib.NAMES), 's': rng.randint(0, 9999)}
            if rng.random() < .35:
                # interrupted at these lines, each time from the start
                op['sweep'] = sorted(rng.sample(range(60), rng.choice(
                    [8, 20, 40])))
            if rng.random() < .3:
                op['trap'] = rng.choice(['raise', 'invalid', 'over'])
            if rng.random() < .3:
                op['big'] = rng.choice([30., 800., -800., 1e300])
            plan['ops'].append(op)
        if rng.random() < .25:
            plan['ops'].append({'o': 'import'})
    else:
        plan = load(sub).gen(rng, 'quick')
    plan['sub'] = sub
    plan['env'] = gen_env(rng)
    plan['env2'] = gen_env(rng)
    if rng.random() < .3:
        plan['stop'] = [rng.randint(0, 12), rng.choice(
            [0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233])]
    return plan


def load(sub):
    return importlib.import_module('sim.props.' + sub.lower())


class Env(object):
    """Puts the process into the environment of the plan, and back."""
    def __init__(self, spec):
        self.spec = spec

    def __enter__(self):
        import gc
        s = self.spec
        self.saved = (np.random.get_state(), random.getstate(),
                      np.geterr(), np.get_printoptions(), sys.stdout,
                      sys.stderr, os.getcwd(), gc.isenabled(),
                      list(warnings.filters), warnings.showwarning)
        np.random.seed(s['np'])
        random.seed(s['py'])
        if s['err'] == 'mix':
            np.seterr(over='ignore', invalid='warn', divide='ignore',
                      under='warn')
        else:
            np.seterr(all=s['err'])
        warnings.simplefilter(s['filt'])
        warnings.showwarning = lambda *a, **k: None
        np.set_printoptions(precision=s['prec'], threshold=s['thr'])
        seams.CLOCK.wall, seams.CLOCK.origin = s['wall'], s['origin']
        (gc.enable if s['gc'] else gc.disable)()
        seams.CLOCK.drag, seams.CLOCK.wander = s['drag'], s['wander']
        r = random.Random(s['vars'])
        self.environ = dict(os.environ)
        for k in VARS:
            v = r.choice(VARS[k])
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        if s['cwd']:
            os.chdir(s['cwd'])
        self.out, self.err = seams.SimStream(), seams.SimStream()
        if s['out']:
            self.out.fail_at, self.out.fail_kind = 0, s['out']
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def __exit__(self, *a):
        import gc
        st, py, err, popt, out, serr, cwd, g, filt, show = self.saved
        np.random.set_state(st)
        random.setstate(py)
        seams.CLOCK.drag, seams.CLOCK.wander = 0., None
        os.environ.clear()
        os.environ.update(self.environ)
        np.seterr(**err)
        popt.pop('legacy', None)
        np.set_printoptions(**popt)
        sys.stdout, sys.stderr = out, serr
        os.chdir(cwd)
        (gc.enable if g else gc.disable)()
        warnings.filters[:] = filt
        warnings.showwarning = show
        warnings._filters_mutated()
        return False


class Monitor(object):
    def __init__(self, ctx, env, stop):
        self.ctx, self.env, self.stop = ctx, env, stop
        self.calls = 0
        self.outs = []
        self.failed = False
        self.last = seams.global_state()

    def note(self, what):
        for w in what:
            self.outs.append(flat(w))

    def __call__(self, fn, a, k):
        before = seams.global_state()
        self.between(before)
        n = self.calls
        self.calls += 1
        li = None
        st = 'ok'
        try:
            if self.stop and self.stop[0] == n:
                with seams.LineInterrupt(
                        self.stop[1], core.SimKeyboardInterrupt('async'),
                        self.ctx.fired) as li:
                    r = fn(*a, **k)
            else:
                r = fn(*a, **k)
        except BaseException as e:
            if isinstance(e, Violation):
                raise
            st = type(e).__name__
            self.failed = True
            self.check(before, st, fn)
            self.outs.append(['raised', st])
            if li is not None and li.hit:
                raise EndRun('end', 'interrupted')
            raise
        self.check(before, st, fn)
        self.outs.append(flat(r))
        if li is not None and li.hit:
            raise EndRun('end', 'interrupted')
        return r

    def between(self, now):
        """Building objects and reading them is no cause for changes."""
        d = [k for k in seams.diff_state(self.last, now) if k in STEADY]
        if d and self.env is not None:
            raise EnvViolation('state-changed', 'between two calls: %s' % d)

    def check(self, before, st, fn):
        self.last = seams.global_state()
        d = [k for k in seams.diff_state(before, self.last)
             if k not in SKIP]
        if d and self.env is not None:
            raise EnvViolation('state-changed', '%s: a call (%s) that %s '
                               'changed %s' % (
                                   getattr(fn, '__name__', fn), st,
                                   'completed' if st == 'ok' else 'failed',
                                   d))
        self.streams()

    def streams(self):
        if self.env is None:
            return
        for name, s in (('stdout', self.env.out), ('stderr', self.env.err)):
            if s.getvalue():
                raise EnvViolation('unwanted-output', '%s: %r' %
                                   (name, s.getvalue()[:80]))
        if self.env.spec['out'] and self.env.out.fail_at is None:
            raise EnvViolation('unwanted-output', 'stdout was written to')

    def unwanted(self, text):
        raise EnvViolation('unwanted-output', repr(text[:80]))


def flat(r):
    """Numbers, names and shapes of a result, as JSON."""
    out = []

    def visit(x, depth=0):
        if x is None or isinstance(x, (bool, np.bool_)):
            out.append(None if x is None else bool(x))
        elif isinstance(x, str):
            return                # texts follow the print settings
        elif isinstance(x, (int, np.integer)):
            out.append(int(x))
        elif isinstance(x, (float, np.floating)):
            out.append(number(float(x)))
        elif isinstance(x, np.ndarray):
            x = np.asarray(x)
            out.append('shape%s' % (x.shape,))
            if x.dtype.kind in 'fiub':
                out.extend(number(float(v)) for v in x.reshape(-1))
        elif hasattr(x, 'toarray'):
            visit(x.toarray(), depth)
        elif hasattr(x, 'nit') and hasattr(x, 'x'):
            visit([x.x, x.fun, x.nit, bool(x.success)])
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                out.append(str(k))
                visit(x[k], depth + 1)
        elif isinstance(x, (list, tuple)):
            for v in x:
                visit(v, depth + 1)
    visit(r)
    return out


def number(v):
    return v if v == v and abs(v) != float('inf') else repr(v)


def differ(a, b):
    """First difference between two lists of results, or None."""
    if len(a) != len(b):
        return 'length %d / %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, list) and isinstance(y, list):
            d = differ(x, y)
            if d:
                return 'result %d: %s' % (i, d)
        elif isinstance(x, float) and isinstance(y, float):
            if abs(x - y) > 1e-9 * max(1., abs(x)):
                return '%r / %r' % (x, y)
        elif x != y:
            return '%r / %r' % (x, y)
    return None


def record(plan, ctx, which):
    """Execute the plan in one environment: (results, sub-violation)."""
    mon = None
    try:
        with Env(plan[which]) as env:
            mon = ctx.monitor = Monitor(ctx, env, plan.get('stop'))
            try:
                if plan['sub'] == 'lib':
                    run_lib(plan, ctx)
                else:
                    load(plan['sub']).run(plan, ctx)
            except EndRun:
                mon.outs.append(['end'])
            except EnvViolation:
                raise
            except Violation as v:
                if v.kind == 'unwanted-output':
                    raise EnvViolation(v.kind, v.detail)
                mon.outs.append(['violation', v.kind])
            except BaseException as e:
                if isinstance(e, (MemoryError, KeyboardInterrupt)) and \
                        not isinstance(e, core.SimFault):
                    raise
                mon.outs.append(['exception', type(e).__name__])
            mon.between(seams.global_state())
            mon.streams()
    finally:
        ctx.monitor = None
        sys.settrace(None)
    return mon.outs


def run_lib(plan, ctx):
    from sim import lib
    for op in plan['ops']:
        ctx.mark('lib', op['o'])
        ctx.ev('lib', op['o'], op.get('s'))
        if op['o'] == 'import':
            import_all(ctx)
            continue
        args, fn = lib.CALLS[op['o']](op['s'])
        if 'big' in op and args:
            args[0] = np.array(args[0]) * op['big']
        snap = [np.array(a) for a in args]
        for k in op.get('sweep', []):
            if not interrupted(ctx, op, fn, args, k):
                break
        if op.get('sweep'):
            # from fresh objects again
            args, fn = lib.CALLS[op['o']](op['s'])
            if 'big' in op and args:
                args[0] = np.array(args[0]) * op['big']
        try:
            with trap(op):
                r = ctx.invoke(fn, *args)
        except Violation:
            raise
        except Exception as e:
            ctx.fired('call-failed:' + type(e).__name__)
            continue
        for a, s in zip(args, snap):
            if not np.array_equal(a, s):
                raise Violation('argument-modified', op['o'])
        # and again: the same call gives the same answer
        with trap(op):
            d = differ([flat(r)], [flat(ctx.invoke(fn, *args))])
        if d:
            raise EnvViolation('not-repeatable', '%s: %s' % (op['o'], d))


def trap(op):
    how = op.get('trap')
    return np.errstate(**({} if how is None else {'all': 'raise'}
                          if how == 'raise' else {how: 'raise'}))


def interrupted(ctx, op, fn, args, k):
    """The call, interrupted at its k-th line; whether it was."""
    mon = ctx.monitor
    before = seams.global_state()
    with seams.LineInterrupt(k, core.SimKeyboardInterrupt('async'),
                             ctx.fired) as li:
        try:
            fn(*[np.array(a) for a in args])
        except core.SimKeyboardInterrupt:
            pass
        except Exception:
            pass
    mon.check(before, 'interrupted', fn)
    return li.hit


MODULES = ['Parameters', 'ParameterDictionary', 'MatrixParameters',
           'SimplexParams', 'ProjectionParams', 'NormalParams', 'GammaParams',
           'WishartParams', 'DirichletParams', 'ExponentialFamilies',
           'Modeling', 'SparseObjectives', 'OptimizationUtils',
           'ModelSensitivity', 'ConjugateGradient', 'regression_utils']


def import_all(ctx):
    def go():
        for m in MODULES:
            importlib.import_module('LinearResponseVariationalBayes.' + m)
    before = seams.global_state()
    with seams.NewProcess():
        ctx.invoke(go)
        d = seams.diff_state(before, seams.global_state())
    d = [k for k in d if k not in SKIP]
    if d:
        raise EnvViolation('state-changed', 'importing the library changed '
                           '%s' % d)


class Twin(object):
    """A second process with another hash seed that executes the plans."""
    def __init__(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        e = dict(os.environ)
        e['PYTHONHASHSEED'] = str(
            (int(e.get('PYTHONHASHSEED') or 0) * 31 + 4242) % 100000)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [sys.executable, '-B', os.path.join(here, 'worker.py'), 'serve',
             'C17'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.err, env=e)

    def ask(self, plan):
        self.p.stdin.write((json.dumps(plan) + '\n').encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            self.err.seek(0)
            global TWIN
            TWIN = None
            raise RuntimeError('twin ended: %s' %
                               self.err.read()[-2000:].decode())
        return json.loads(line.decode())


TWIN = None


def serve_one(plan, ctx):
    """In the twin."""
    try:
        return {'outs': record(plan, ctx, 'env2')}
    except EnvViolation as v:
        return {'viol': [v.kind, str(v.detail)]}


def run(plan, ctx):
    global TWIN
    if TWIN is None:
        TWIN = Twin()
    ctx.mark(plan['sub'], 'int' if plan.get('stop') else '')
    a = record(plan, ctx, 'env')
    r = TWIN.ask(plan)
    for k, v in plan['env'].items():
        if plan['env2'][k] != v:
            ctx.fired('env:' + k)
    ctx.fired('env:hash-seed')
    if 'viol' in r:
        raise EnvViolation(*r['viol'])
    b = r['outs']
    ctx.ev('results', len(a), len(b))
    d = differ(a, b)
    if d:
        raise EnvViolation('results-differ', '%s under two environments: %s' %
                           (plan['sub'], d))
    if a and a[-1][:1] in (['violation'], ['exception']):
        ctx.probe('sub-' + '-'.join(str(x) for x in a[-1]))
