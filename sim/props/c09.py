"""C09: repeated optimisation follows its stopping protocol exactly."""
import numpy as np

import LinearResponseVariationalBayes.OptimizationUtils as opt_lib

from sim import core, opt, seams
from sim.core import Violation
from sim.functors import HOOK


def gen(rng, tier):
    cfg = {'n': rng.randint(1, 4), 'seed': rng.randint(0, 999),
           'real': rng.random() < .35}
    calls = []
    for _ in range(rng.randint(1, 3 if tier == 'quick' else 6)):
        call = {'o': 'call', 's': rng.randint(0, 999),
                'max_iter': rng.choice([1, 1, 2, 3, 5, 8, None]),
                'keep': rng.random() < .5, 'disp': rng.random() < .35,
                'initial': rng.random() < .4, 'tol': {}}
        for k in ('gtol', 'ftol', 'xtol'):
            r = rng.random()
            if r < .35:
                call['tol'][k] = 0.
            elif r < .75:
                call['tol'][k] = rng.choice([.5, .25, 1., .125, 2., 1e-3])
            elif r < .8:
                call['tol'][k] = rng.choice([-1., 1e9])
        steps = []
        for _ in range(rng.randint(1, 9)):
            r = rng.random()
            st = {'buf': rng.choice(['new', 'new', 'inplace', 'same'])}
            if r < .5:
                st['to'] = 'step'
                st['d'] = [rng.choice([0., .125, .25, -.25, .5, -.5, 1., -1.,
                                       .0625, 2.])
                           for _ in range(cfg['n'])]
            elif r < .58:
                st['to'] = 'stay'
            elif r < .75:
                st['to'] = 'half'
            elif r < .82:
                st['to'] = 'back'
            elif r < .86:
                st['to'] = 'nan'
            elif r < .9:
                st['to'] = 'inf'
            else:
                st['to'] = 'opt'
            steps.append(st)
        call['steps'] = steps
        r = rng.random()
        if r < .22:
            call['fail'] = [rng.randint(0, 4), rng.choice(core.FAULT_KINDS)]
        elif r < .34:
            call['f'] = opt.gen_fault(rng, 8)
        elif r < .42 and call['disp']:
            call['out'] = [rng.randint(0, 8), rng.choice(opt.OUT_KINDS)]
        if call['max_iter'] is None:
            # the default budget, with an optimiser that gets there
            call['steps'] = [{'to': 'half', 'buf': 'new'}]
        calls.append(call)
    if rng.random() < .5:
        # the caller starts from one array of its own every time
        cfg['own'] = True
        if rng.random() < .5:
            for call in calls:
                call['s'] = calls[0]['s']
    return {'cfg': cfg, 'ops': calls}


class Result(object):
    def __init__(self, i):
        self.i = i


class Exact(object):
    """An objective with exactly representable values and gradients, so that
    changes can sit exactly on a tolerance:  f = sum w x^2 / 2 ."""
    def __init__(self, n, seed):
        self.w = np.array([[1., 2., .5, 4.][(seed + i) % 4]
                           for i in range(n)])
        self.calls = []

    def fun_free(self, x):
        HOOK.pre(self)
        v = self.val(x)
        HOOK.post()
        return v

    def fun_free_grad(self, x):
        HOOK.pre(self)
        g = self.grad(x)
        HOOK.post()
        return g

    def val(self, x):
        return np.sum(self.w * x * x) * .5

    def grad(self, x):
        return self.w * x

    def best(self):
        return np.zeros(len(self.w))


class Driver(object):
    """The scripted optimiser."""
    def __init__(self, ctx, call, target, best):
        self.ctx, self.call, self.best = ctx, call, best
        self.calls = []          # (argument, result point, result object)
        self.buf = None
        self.first = target
        self.exc = None
        self.prev = None
        self.finite = False

    def __call__(self, x, initial=False):
        i = len(self.calls)
        arg = np.array(x, dtype=float)
        fail = self.call.get('fail')
        if fail and fail[0] == i:
            self.exc = core.make_fault(fail[1], 'optimiser')
            self.calls.append((arg, None, None, initial))
            self.ctx.fired('optimiser:' + fail[1])
            raise self.exc
        st = self.call['steps'][i % len(self.call['steps'])]
        to = st['to']
        if self.finite and to in ('nan', 'inf'):
            to = 'stay'
        if to == 'step':
            y = arg + np.array(st['d'])
        elif to == 'stay':
            y = arg.copy()
        elif to == 'half':
            y = self.best + .5 * (arg - self.best)
        elif to == 'back':
            y = 2. * arg - (self.prev if self.prev is not None else 1.) + .5
        elif to in ('nan', 'inf'):
            y = arg.copy()
            y[i % len(y)] = float(to)
            self.ctx.fired('optimiser:non-finite')
        else:
            y = self.best.copy()
        self.prev = arg
        buf = st['buf']
        if buf == 'inplace' and isinstance(x, np.ndarray):
            # works in the array it was given
            x[:] = y
            out = x
            self.ctx.fired('optimiser:in-place')
        elif buf == 'same':
            # one work array for all calls
            if self.buf is None:
                self.buf = np.array(y)
            self.buf[:] = y
            out = self.buf
            self.ctx.fired('optimiser:reused-array')
        else:
            out = np.array(y)
        res = Result(i)
        self.calls.append((arg, np.array(y), res, initial))
        return out, res


def same(a, b):
    return np.array_equal(np.nan_to_num(a), np.nan_to_num(b)) and \
        np.array_equal(np.isnan(a), np.isnan(b))


def run(plan, ctx):
    cfg = plan['cfg']
    n = cfg['n']
    prob = None
    if cfg['real']:
        prob = opt.Problem(ctx, {'in': {'k': 'vector', 'name': 'theta',
                                        'n': n},
                                 'seed': cfg['seed'], 'h0': cfg['seed']})
        objective, best = prob.objective, prob.ustar()
        val, grad = prob.fr, prob.gr
    else:
        objective = Exact(n, cfg['seed'])
        best, val, grad = objective.best(), objective.val, objective.grad
    own = np.zeros(n) if cfg.get('own') else None
    for op in plan['ops']:
        one(ctx, op, objective, best, val, grad, n, prob, own)


def one(ctx, op, objective, best, val, grad, n, prob, own=None):
    from sim.models import rnd_vec
    init = np.round(rnd_vec(op['s'], n) * 8) / 8 + 2.
    given = np.array(init)
    if own is not None:
        own[:] = init
        given = own
    d = Driver(ctx, op, init, best)
    d.finite = prob is not None
    kw = dict(op['tol'])
    if op['max_iter'] is not None:
        kw['max_iter'] = op['max_iter']
    if op['keep']:
        kw['keep_intermediate_optimizations'] = True
    if op['disp']:
        kw['disp'] = True
    if op['initial']:
        kw['initial_optimization_fun'] = lambda x: d(x, True)
    stream = seams.SimStream()
    stream.on_fire = ctx.fired
    if op.get('out'):
        stream.fail_at, stream.fail_kind = op['out']
    armed_out = stream.fail_at is not None
    HOOK.disarm()
    HOOK.exc = None
    if op.get('f'):
        HOOK.arm_fault(op['f']['at'], op['f']['kind'], op['f']['pos'])
    seen_at_fault = [None]
    fired0 = ctx.fired

    def fired(kind):
        seen_at_fault[0] = len(d.calls)
        fired0(kind)
    stream.on_fire = fired
    HOOK.ctx = type('C', (), {'fired': staticmethod(fired)})()
    try:
        with seams.Stdout(stream):
            with np.errstate(all='ignore'):
                r = ctx.invoke(opt_lib.repeatedly_optimize, objective, d,
                               given, **kw)
        st = 'ok'
    except Violation:
        raise
    except BaseException as e:
        if not isinstance(e, core.SimFault) and \
                not core.in_repo(e.__traceback__):
            raise
        st, r = 'exc', e
    finally:
        HOOK.ctx = ctx
    fexc = d.exc or HOOK.exc
    ofired = armed_out and stream.fail_at is None
    HOOK.disarm()
    HOOK.exc = None
    ctx.mark('call', op['max_iter'], op['initial'], st, len(d.calls),
             *[s['to'] + s['buf'] for s in op['steps']])
    ctx.ev('call', len(d.calls), st)
    if not op['disp'] and stream.getvalue():
        raise Violation('unwanted-output', stream.getvalue()[:80])

    # the protocol, replayed
    calls = list(d.calls)
    x = init
    k = 0
    if op['initial'] and calls:
        if not calls[0][3]:
            raise Violation('protocol', 'the initial optimiser was not '
                            'called first')
        if not same(calls[0][0], init):
            raise Violation('protocol', 'the initial optimiser got %s, '
                            'expected %s' % (calls[0][0], init))
        x = calls[0][1]
        k = 1
    fv = None if x is None else val(x)
    crit = None
    limit = op['max_iter'] or 100
    tol = {q: op['tol'].get(q, 1e-8) for q in ('gtol', 'ftol', 'xtol')}
    margin = np.inf
    for i in range(k, len(calls)):
        arg, y, res, initial = calls[i]
        if initial:
            raise Violation('protocol', 'the initial optimiser was called '
                            'again')
        if crit is not None and any(crit):
            if margin > 1e-9:
                raise Violation('protocol', 'the optimiser was called again '
                                'after converging (%s, call %d)' % (crit, i))
            return
        if i - k >= limit:
            raise Violation('protocol', 'call %d with a budget of %d' %
                            (i - k + 1, limit))
        if not same(arg, x):
            raise Violation('protocol', 'call %d got %s, expected %s' %
                            (i, arg, x))
        if y is None:
            break
        with np.errstate(all='ignore'):
            yv = val(y)
            q = [np.sum(np.abs(y - x)), np.abs(yv - fv),
                 np.sum(np.abs(grad(y)))]
        t = [tol['xtol'], tol['ftol'], tol['gtol']]
        crit = [bool(a < b) for a, b in zip(q, t)]
        if prob is not None:
            gap = [abs(a - b) for a, b in zip(q, t) if np.isfinite(a)]
            margin = min(gap) if gap else np.inf
        x, fv = y, yv
    if st != 'ok':
        if fexc is None and not ofired:
            raise Violation('unexpected-exception', '%r at %s' %
                            (r, core.where(r)))
        if fexc is not None and r is not fexc:
            raise Violation('error-changed', 'raised %r, the caller got %r' %
                            (fexc, r))
        if seen_at_fault[0] is not None and len(calls) > seen_at_fault[0]:
            raise Violation('called-after-error', 'the optimiser ran after '
                            'an error')
        return
    if fexc is not None or ofired:
        raise Violation('error-swallowed', repr(fexc))
    done = len(calls) - k
    if done < 1:
        raise Violation('protocol', 'the optimiser was never called')
    if not any(crit) and done < limit:
        if margin > 1e-9:
            raise Violation('stopped-early', 'after %d of %d calls, criteria '
                            '%s' % (done, limit, q))
        return
    new_x, conv, xc, fc, gc, res, kept = r
    if not same(np.asarray(new_x), calls[-1][1]):
        raise Violation('wrong-return', 'point %s, expected %s' %
                        (new_x, calls[-1][1]))
    if res is not calls[-1][2]:
        raise Violation('wrong-return', 'result object of another call')
    if margin > 1e-9 and [bool(v) for v in (xc, fc, gc)] != crit:
        raise Violation('wrong-return', 'criteria %s, expected %s (%s)' %
                        ([xc, fc, gc], crit, q))
    if margin > 1e-9 and bool(conv) != any(crit):
        raise Violation('wrong-return', 'converged %s, criteria %s' %
                        (conv, crit))
    want = [c[2] for c in calls] if op['keep'] else []
    if len(kept) != len(want) or any(a is not b for a, b in
                                     zip(kept, want)):
        raise Violation('wrong-return', '%d intermediate results, expected '
                        '%d' % (len(kept), len(want)))
    ctx.probe('converged' if any(crit) else 'budget-spent')
