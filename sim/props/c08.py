"""C08: minimisation gives the right optimum whatever happened before."""
import numpy as np

import LinearResponseVariationalBayes.OptimizationUtils as opt_lib

from sim import core, opt
from sim.core import Violation
from sim.models import close, plain


def gen(rng, tier):
    cfg = opt.gen_cfg(rng, 5)
    ops = []
    n = rng.randint(3, 8 if tier == 'quick' else 25)
    p = rng.choice([0., .3, .5])
    S = lambda: rng.randint(0, 999)
    while len(ops) < n:
        r = rng.random()
        if r < .55:
            op = {'o': 'min', 'm': rng.choice(['bfgs', 'trust']),
                  'pre': rng.random() < .6, 's': S(),
                  'disp': rng.random() < .6, 'scale': rng.choice([.3, 1., 1.]),
                  'start': rng.choice(['new', 'new', 'log', 'opt', 'par'])}
            if op['m'] == 'bfgs' and not op['pre'] and rng.random() < .5:
                op['pre'] = None          # the default
            if rng.random() < .3:
                op['maxiter'] = rng.choice([1, 3, 6, 40, 500])
            if op['m'] == 'trust' and rng.random() < .4:
                op['gtol'] = rng.choice([1e-3, 1e-8])
            if rng.random() < .5:
                op['init_logger'] = rng.random() < .5
            q = rng.random()
            if q < p:
                op['f'] = opt.gen_fault(rng, rng.choice([8, 15, 30]))
            elif q < p * 1.2 and op['disp']:
                op['out'] = [rng.choice([0, 2, 5]),
                             rng.choice(opt.OUT_KINDS)]
            ops.append(op)
        elif r < .7:
            ops.append({'o': 'prec', 's': S()})
        elif r < .78:
            op = {'o': 'prechess', 's': S(),
                  'ev': [rng.choice([None, .1]), rng.choice([None, 8.])]}
            if rng.random() < p:
                op['f'] = opt.gen_fault(rng, 1)
            elif rng.random() < p:
                op['lf'] = {'names': ['np.eigh'], 'nth': 0,
                            'kind': rng.choice(core.FAULT_KINDS)}
            ops.append(op)
        elif r < .82:
            ops.append({'o': 'noprec'})
        elif r < .9:
            ops.append({'o': 'moveh', 's': S()})
        else:
            ops.append({'o': 'move', 's': S(), 'how': rng.choice(
                ['set', 'grad', 'clobber'])})
    ops.append({'o': 'min', 'm': rng.choice(['bfgs', 'trust']),
                'pre': rng.random() < .6, 's': S(), 'disp': False,
                'scale': 1., 'start': 'new'})
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def run(plan, ctx):
    p = opt.Problem(ctx, plan['cfg'])
    ob = p.objective
    last_opt = None
    for op in plan['ops']:
        o = op['o']
        p.begin(op)
        ctx.mark(o, op.get('m', ''), op.get('pre', ''), op.get('start', ''),
                 *sorted(k for k in ('f', 'out', 'lf') if k in op))
        st = ''
        if o == 'prec':
            p.install(op['s'])
        elif o == 'noprec':
            ob.preconditioner = None
            p.P = None
        elif o == 'prechess':
            u = p.pt(op['s'])
            st, r, fired, _ = p.guarded(
                lambda: opt_lib.set_objective_preconditioner(
                    ob, free_par=p.give(u), ev_min=op['ev'][0],
                    ev_max=op['ev'][1]), op)
            if st != 'ok' and not fired:
                raise Violation('unexpected-exception', '%r at %s' %
                                (r, core.where(r)))
            if st == 'ok':
                w, v = np.linalg.eigh(p.hr(u))
                if op['ev'][0]:
                    w = np.maximum(w, op['ev'][0])
                if op['ev'][1]:
                    w = np.minimum(w, op['ev'][1])
                p.P = (v / np.sqrt(w)).dot(v.T)
        elif o == 'moveh':
            p.set_h(op['s'])
        elif o == 'move':
            if op['how'] == 'clobber':
                p.clobber(2.5)
            elif op['how'] == 'set':
                p.inp.set_free(p.give(p.pt(op['s'])))
            else:
                ob.fun_free_grad(p.give(p.pt(op['s'])))
        else:
            st, last_opt = minimise(p, ctx, op, last_opt)
        p.check_args()
        p.check_numeric()
        ctx.ev(o, st)


def minimise(p, ctx, op, last_opt):
    ob = p.objective
    pre = bool(op.get('pre'))
    init = p.pt(op['s'], op['scale'])
    if op['start'] == 'log' and ob.logger.x_array:
        init = np.array(ob.logger.x_array[-1], dtype=float)
        if init.shape != (p.n,):
            raise Violation('log-point', 'the log holds %s' % init)
        if p.log and not close(init, p.log[-1][0], 1e-7, 1e-8):
            raise Violation('log-point', 'the last logged point is %s, '
                            'expected %s' % (init, p.log[-1][0]))
        ctx.probe('resumed')
    elif op['start'] == 'opt' and last_opt is not None:
        init = last_opt + .05
    elif op['start'] == 'par':
        init = np.array(p.inp.get_free())
    if np.linalg.norm(p.gr(init)) < 1e-9:
        init = init + .05   # scipy's trust-ncg divides by a zero gradient
    if op.get('init_logger') is not False and (p.P is not None or not pre):
        p.log = []
    x0 = p.give(init)
    if pre and p.P is None:
        op = {k: v for k, v in op.items() if k not in ('f', 'out')}
        st, r, fired, _ = p.guarded(p.minimise(op, x0), op)
        if st == 'ok':
            raise Violation('not-refused', 'minimisation with precondition '
                            'and no preconditioner')
        p.log = [(x, v) for x, v in zip(ob.logger.x_array,
                                        ob.logger.val_array)]
        return st, last_opt
    st, r, fired, stream = p.guarded(p.minimise(op, x0), op)
    if op['disp']:
        p.log += p.evals
    if st != 'ok':
        if not fired:
            raise Violation('unexpected-exception', '%r at %s' %
                            (r, core.where(r)))
        ctx.probe('aborted-after-%d' % min(len(p.evals), 4))
        return st, last_opt
    if fired:
        # scipy's trust-region solver ends on a LinAlgError and says so
        if op['m'] == 'trust' and not r[1].success and \
                isinstance(p.fault_exc, np.linalg.LinAlgError):
            return st, last_opt
        raise Violation('fault-swallowed', op['m'])
    opt_x, res = r
    P = p.P if pre else np.eye(p.n)
    if not p.evals or not close(p.evals[0][0], init, 1e-7, 1e-8):
        raise Violation('wrong-start', 'first evaluated at %s, started from '
                        '%s' % (p.evals[0][0] if p.evals else None, init))
    if not plain(opt_x) or not close(opt_x, P.dot(res.x), 1e-10, 1e-11):
        raise Violation('wrong-coordinates', 'returned %s, solver ended at '
                        '%s which is %s' % (opt_x, res.x, P.dot(res.x)))
    if not close(res.fun, p.fr(opt_x), 1e-8, 1e-9):
        raise Violation('wrong-optimum-value', '%s, expected %s' %
                        (res.fun, p.fr(opt_x)))
    rx, rres = p.ref_minimise(op, init)
    us = p.ustar()
    B = p.rdata['B']
    lam = np.linalg.eigvalsh(B.T.dot(B))[0]
    gtol = 1e-5 * np.sqrt(p.n) if op['m'] == 'bfgs' else \
        (op.get('gtol') or 1e-6)
    tol = 3. * gtol * np.linalg.norm(np.linalg.inv(P), 2) / lam + 1e-6
    tol = min(tol, .05)
    d = np.max(np.abs(opt_x - us))
    if rres.success:
        ctx.probe('converged')
        # near 1e-8 the solver may run out of digits before it is content
        if op['m'] != 'bfgs' and not res.success and \
                d > (1e-5 if gtol < 1e-7 else 0):
            raise Violation('not-converged', 'the solver gave up after %d '
                            'iterations at %s (optimum %s)' %
                            (res.nit, opt_x, us))
        if d > (tol if res.success else max(tol, 2e-3)):
            raise Violation('wrong-optimum', '%s, expected %s' % (opt_x, us))
        if res.nit > rres.nit + 25 and gtol > 1e-7:
            raise Violation('slow', '%d iterations, a fresh run takes %d' %
                            (res.nit, rres.nit))
    elif rres.status == 1:
        # out of iterations
        ctx.probe('out-of-iterations')
        if res.nit > (op.get('maxiter') or
                      (500 if op['m'] == 'bfgs' else 50)):
            raise Violation('over-budget', '%d iterations' % res.nit)
        if not close(opt_x, rx, 1e-4, 1e-4):
            raise Violation('wrong-path', '%s after %d iterations, a fresh '
                            'run is at %s' % (opt_x, res.nit, rx))
    elif d > max(2e-3, 3 * np.max(np.abs(rx - us)), tol):
        raise Violation('wrong-optimum', '%s, expected %s' % (opt_x, us))
    return st, np.array(opt_x)
