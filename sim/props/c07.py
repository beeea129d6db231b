"""C07: the optimisation log is a faithful record of completed evaluations."""
import numpy as np

from sim import core, opt, seams
from sim.core import Violation
from sim.functors import HOOK
from sim.models import close, plain


def gen(rng, tier):
    cfg = opt.gen_cfg(rng, 4)
    ops = []
    n = rng.randint(5, 14 if tier == 'quick' else 40)
    p = rng.choice([0., .25, .45])

    def faults(op, calls):
        r = rng.random()
        if r < p * .45:
            op['f'] = opt.gen_fault(rng, calls)
        elif r < p * .75:
            op['out'] = [rng.choice([0, 0, 1, 3, 9]),
                         rng.choice(opt.OUT_KINDS)]
        elif r < p:
            if not any(q['o'] == 'callback' and q['k'] for q in ops[-3:]):
                ops.append({'o': 'callback',
                            'k': rng.choice(['record', 'evals'])})
            op['cb'] = [rng.choice([0, 0, 1, 2, 5]),
                        rng.choice(core.FAULT_KINDS)]
        return op
    while len(ops) < n:
        r = rng.random()
        if r < .5:
            ops.append(faults({
                'o': 'ev', 's': rng.randint(0, 999),
                'cond': rng.random() < .35, 'reuse': rng.random() < .5,
                'verbose': rng.random() < .8,
                'arg': rng.choice([0, 0, 0, 0, 0, 2., 'nan', 'inf'])}, 0))
        elif r < .62:
            ops.append({'o': 'der', 's': rng.randint(0, 999),
                        'm': rng.choice(['grad', 'hessian', 'hvp']),
                        'cond': rng.random() < .3})
        elif r < .7:
            ops.append({'o': 'every', 'n': rng.choice([1, 2, 3, 5, 7])})
        elif r < .78:
            ops.append({'o': 'callback',
                        'k': rng.choice(['record', 'evals', None])})
        elif r < .82:
            ops.append({'o': rng.choice(['init', 'newlog', 'direct', 'prec',
                                         'prec', 'direct']),
                        's': rng.randint(0, 999)})
            if ops[-1]['o'] == 'direct' and rng.random() < .5:
                # a point of another length or far away from the last one
                ops[-1]['far'] = rng.choice(['longer', 'shorter', 'up',
                                             'down', 'inf'])
                ops[-1]['trap'] = rng.random() < .6
        elif r < .9:
            ops.append({'o': 'clobber', 'v': round(rng.uniform(-9, 9), 2)})
        else:
            op = {'o': 'min', 'm': rng.choice(['bfgs', 'trust']),
                  'pre': rng.random() < .4, 's': rng.randint(0, 999),
                  'disp': rng.random() < .8,
                  'maxiter': rng.choice([2, 5, 50])}
            if rng.random() < .5:
                op['init_logger'] = rng.random() < .5
            if rng.random() < .4:
                op['print_every'] = rng.choice([1, 2, 3, 4])
            ops.append(faults(op, 12))
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


SOLVER_TEXT = ['Optimization terminated successfully', 'Warning: ',
               '         Current function value', '         Iterations:']


class Callback(object):
    def __init__(self, run, kind):
        self.run, self.kind = run, kind

    def __call__(self, logger):
        self.run.reported(logger, self.kind)


class Run(object):
    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.p = opt.Problem(ctx, plan['cfg'])
        self.cb = None
        self.every = 1
        self.buf = np.zeros(self.p.n)
        self.pending = None      # entry whose report is being written
        self.cb_fault = None
        self.cb_calls = 0
        self.cb_fired = False
        self.in_cb = False
        self.stream = None
        self.mark = 0
        self.count0 = 0          # entries in the log before this call
        self.verbose = False
        self.done = []

    # every completed plain evaluation comes here
    def on_done(self, u, val):
        if self.in_cb:
            return
        self.settle()
        self.done.append((u, val))
        if self.verbose:
            i = self.count0 + len(self.done) - 1
            self.pending = (i % self.every == 0, self.cb is not None)
            self.mark = len(self.stream.text)
            self.cb_seen = 0

    def settle(self, last=False):
        """What was reported since the last completed evaluation."""
        if self.pending is None:
            return
        due, cb = self.pending
        self.pending = None
        text = ''.join(self.stream.text[self.mark:])
        for own in SOLVER_TEXT:
            # scipy's trust-region solver evaluates lazily, between the lines
            # of its own final message
            text = text.split(own)[0]
        if self.cb_seen != (1 if due and cb else 0):
            raise Violation('wrong-report', '%d callback reports of entry '
                            '%d, expected %d (every %d)' %
                            (self.cb_seen, self.count0 + len(self.done) - 1,
                             1 if due and cb else 0, self.every))
        if last:
            return
        if bool(text.strip()) != (due and not cb):
            raise Violation('wrong-report', 'entry %d wrote %r (report every '
                            '%d%s)' % (self.count0 + len(self.done) - 1,
                                       text[:80], self.every,
                                       ', callback' if cb else ''))

    def reported(self, logger, kind):
        if logger is not self.p.objective.logger:
            raise Violation('wrong-report', 'callback got another object')
        self.cb_seen = getattr(self, 'cb_seen', 0) + 1
        n = len(self.p.log) + len(self.done)
        x, v = (self.done or self.p.log)[-1]
        if len(logger.val_array) != n or len(logger.x_array) != n:
            raise Violation('log-length', 'callback sees %d entries, '
                            'expected %d' % (len(logger.val_array), n))
        if not close(logger.val_array[-1], v) or \
                not close(logger.x_array[-1], x, 1e-7, 1e-8):
            raise Violation('log-entry', 'callback sees %s -> %s, expected '
                            '%s -> %s' % (logger.x_array[-1],
                                          logger.val_array[-1], x, v))
        if kind == 'evals' and len(x) == self.p.n and \
                np.all(np.abs(x) < 100):
            self.in_cb = True
            arm, HOOK.arm = HOOK.arm, None
            try:
                self.p.objective.fun_free_grad(np.array(x))
                self.p.objective.fun_free(np.array(x) + .25)
                self.p.objective.par.set_free(np.array(x))
            finally:
                self.in_cb = False
                HOOK.arm = arm
        if self.cb_fault is not None:
            if self.cb_calls == self.cb_fault[0]:
                k = self.cb_fault[1]
                self.cb_fault = None
                self.cb_fired = True
                self.cb_exc = core.make_fault(k, 'callback')
                self.ctx.fired('callback:' + k)
                raise self.cb_exc
        self.cb_calls += 1

    def call(self, op, fn, verbose, final_text=False):
        """One library call; returns its status after checking the log."""
        p = self.p
        self.stream = seams.SimStream()
        self.verbose = verbose
        self.count0 = len(p.log)
        self.done = []
        self.pending = None
        self.cb_fault = list(op['cb']) if op.get('cb') and self.cb else None
        self.cb_calls, self.cb_fired, self.cb_exc = 0, False, None
        p.done = self.on_done
        HOOK.on_call = lambda f: None if self.in_cb else self.settle()
        st, r, fired, stream = p.guarded(fn, op, self.stream)
        HOOK.on_call = None
        fired = fired or self.cb_fired
        if st == 'ok':
            self.settle(last=final_text)
        self.pending = None
        if st != 'ok' and not fired:
            raise Violation('unexpected-exception', '%r at %s' %
                            (r, core.where(r)))
        if self.cb_fired and r is not self.cb_exc:
            raise Violation('error-changed', 'callback raised %r, caller got '
                            '%r' % (self.cb_exc, r))
        if verbose:
            p.log += self.done
        elif not final_text and stream.getvalue():
            raise Violation('unwanted-output', stream.getvalue()[:80])
        return st, r, fired

    def apply(self, op):
        o, p, ctx = op['o'], self.p, self.ctx
        ob = p.objective
        p.begin(op)
        ctx.mark(o, op.get('m', ''), op.get('cond', ''), op.get('verbose', ''),
                 *sorted(k for k in ('f', 'out', 'cb') if k in op))
        st = ''
        if o == 'ev':
            cond = op['cond'] and p.P is not None
            u = p.pt(op['s'])
            if op['reuse']:
                self.buf[:] = u
                arr = self.buf
            else:
                arr = p.give(u)
            fn = ob.fun_free_cond if cond else ob.fun_free
            a = (float(op['arg']),) if op['arg'] else ()
            st, r, fired = self.call(
                op, lambda: fn(arr, *a, verbose=op['verbose']), op['verbose'])
            if st == 'ok':
                y = p.P.dot(u) if cond else u
                want = p.fr(y) * (a[0] if a else 1.)
                if not plain(r) or not close(r, want, 1e-7, 1e-9):
                    raise Violation('wrong-result', '%s, expected %s' %
                                    (r, want))
                if op['verbose'] and not close(p.log[-1][0], y, 1e-7, 1e-8):
                    raise Violation('wrong-point', 'evaluated at %s, expected'
                                    ' %s' % (p.log[-1][0], y))
        elif o == 'der':
            cond = op['cond'] and p.P is not None
            fn = getattr(ob, 'fun_free_' + op['m'] + ('_cond' if cond else ''))
            u = p.pt(op['s'])
            args = [p.give(u)]
            if op['m'] == 'hvp':
                args.append(p.give(p.pt(op['s'] + 1)))
            st, r, fired = self.call(op, lambda: fn(*args), False)
        elif o == 'every':
            ob.logger.print_every = self.every = op['n']
        elif o == 'callback':
            self.cb = Callback(self, op['k']) if op['k'] else None
            ob.logger.callback = self.cb
        elif o == 'init':
            ob.logger.initialize()
            p.log = []
        elif o == 'newlog':
            ob.logger = opt.obj_lib.Logger(print_every=1 + op['s'] % 3)
            self.every = 1 + op['s'] % 3
            self.cb = None
            p.log = []
        elif o == 'direct':
            u = p.pt(op['s'])
            far = op.get('far')
            if far == 'longer':
                u = np.append(u, .5)
            elif far == 'shorter':
                u = u[:-1] if len(u) > 2 else np.append(u, [1., 2.])
            elif far == 'inf':
                u = u + np.inf
            elif far:
                u = u * 0 + (1e308 if far == 'up' else -1.6e308)
            arr = p.give(u)

            def fn():
                self.on_done(u, 1.5)
                with np.errstate(all='raise' if op.get('trap') else 'ignore'):
                    ob.logger.log(1.5, arr)
            st, r, fired = self.call(op, fn, True)
        elif o == 'prec':
            p.install(op['s'], op['s'] % 4 == 0)
        elif o == 'clobber':
            self.buf[:] = op['v']
            p.clobber(op['v'])
        elif o == 'min':
            op = dict(op)
            op['pre'] = bool(op['pre'] and p.P is not None and
                             isinstance(ob.preconditioner, np.ndarray))
            if op.get('init_logger') is not False:
                p.log = []
            if op.get('print_every'):
                self.every = op['print_every']
            x0 = p.give(p.pt(op['s'], .7))
            st, r, fired = self.call(op, p.minimise(op, x0), op['disp'],
                                     True)
            if st == 'ok':
                opt_x, res = r
                if isinstance(opt_x, np.ndarray):
                    p.pool.append([opt_x, np.array(opt_x)])
                ctx.probe('minimised')
        ctx.ev(o, st, len(p.log))
        p.check_log()
        if p.log:
            lg = ob.logger
            x, v = p.log[-1]
            if not close(lg.x, x, 1e-7, 1e-8) or not close(lg.value, v) or \
                    not close(lg.last_x, x, 1e-7, 1e-8) or \
                    not close(lg.last_value, v):
                raise Violation('log-last', 'last entry reads %s -> %s, '
                                'expected %s -> %s' % (lg.x, lg.value, x, v))
        p.check_args()


def run(plan, ctx):
    r = Run(ctx, plan)
    for op in plan['ops']:
        r.apply(op)
