"""Buffer reuse by the callers of sensitivity objects, conjugate-gradient
solvers, optimisation logs and minimisation routines (C05)."""
import numpy as np

from . import cg, core, opt, sens
from .core import Violation
from .models import close


def gen(rng, tier):
    t = rng.choice(['sens', 'cg', 'opt'])
    ops = []
    v = lambda: round(rng.uniform(-9, 9), 2)
    if t == 'sens':
        cfg = sens.gen_cfg(rng)
        cfg['order'] = min(cfg['order'], 2)
        for _ in range(rng.randint(3, 7)):
            r = rng.random()
            if r < .35:
                ops.append({'o': 'clobber', 'v': v()})
            elif r < .45:
                ops.append({'o': 'rebase', 'h': rng.randint(0, 999),
                            'hess': rng.choice([None, 'true', 'other'])})
            else:
                ops.append({'o': 'ask', 'q': rng.randint(0, 9),
                            's': rng.randint(0, 999), 'k': rng.randint(0, 9)})
        ops.append({'o': 'clobber', 'v': v()})
        for k in range(3):
            ops.append({'o': 'ask', 'q': k, 's': rng.randint(0, 999), 'k': k})
    elif t == 'cg':
        cfg = cg.gen_cfg(rng)
        while len(ops) < rng.randint(3, 7):
            op = cg.gen_op(rng, cfg['n'], .15)
            if op['o'] in ('solve', 'one', 'reset', 'tol'):
                ops.append(op)
                if rng.random() < .7:
                    ops.append({'o': 'clobber', 'v': v()})
    else:
        cfg = opt.gen_cfg(rng, 4)
        for _ in range(rng.randint(4, 8)):
            r = rng.random()
            if r < .3:
                ops.append({'o': 'clobber', 'v': v()})
            elif r < .7:
                op = {'o': 'min', 'm': rng.choice(['bfgs', 'trust']),
                      'pre': rng.random() < .5, 's': rng.randint(0, 999),
                      'disp': True, 'maxiter': rng.choice([2, 5, 50]),
                      'init_logger': rng.random() < .4}
                if rng.random() < .3:
                    op['f'] = opt.gen_fault(rng)
                ops.append(op)
            elif r < .8:
                ops.append({'o': 'prec', 's': rng.randint(0, 999)})
            else:
                ops.append({'o': 'ev', 's': rng.randint(0, 999),
                            'cond': rng.random() < .4})
        ops.append({'o': 'clobber', 'v': v()})
    return {'t': t, 'cfg': cfg, 'ops': core.mix(rng, ops)}


def run(plan, ctx):
    t = plan['t']
    if t == 'cg':
        s = cg.CG(ctx, plan['cfg'])
        for op in plan['ops']:
            s.apply(op)
    elif t == 'sens':
        s = sens.Sens(ctx, plan['cfg'])
        s.build()
        qs = s.questions()
        for op in plan['ops']:
            s.begin(op)
            if op['o'] == 'clobber':
                s.clobber(op['v'])
            elif op['o'] == 'rebase':
                s.rebase(op)
            else:
                s.ask(qs[op['q'] % len(qs)], op['s'], op['k'],
                      when=' after buffers were reused')
            s.check_args()
    else:
        run_opt(plan, ctx)


def run_opt(plan, ctx):
    p = opt.Problem(ctx, plan['cfg'])
    ob = p.objective
    for op in plan['ops']:
        o = op['o']
        p.begin(op)
        ctx.mark('opt', o, op.get('m', ''), 'f' in op)
        if o == 'clobber':
            p.clobber(op['v'])
        elif o == 'prec':
            p.install(op['s'])
        elif o == 'ev':
            cond = op['cond'] and p.P is not None
            u = p.pt(op['s'])
            st, r, fired, _ = p.guarded(
                lambda: (ob.fun_free_cond if cond else ob.fun_free)(
                    p.give(u), verbose=True), op)
            p.log += p.evals
            y = p.P.dot(u) if cond else u
            if st != 'ok' or not close(r, p.fr(y)):
                raise Violation('wrong-result', repr(r))
        else:
            op = dict(op, pre=op['pre'] and p.P is not None)
            x0 = p.give(p.pt(op['s'], .7))
            if op['init_logger']:
                p.log = []
            st, r, fired, _ = p.guarded(p.minimise(op, x0), op)
            if st != 'ok' and not fired:
                raise Violation('unexpected-exception', repr(r))
            p.log += p.evals
            if st == 'ok':
                opt_x, res = r
                for a in (opt_x, res.x, res.jac):
                    if isinstance(a, np.ndarray):
                        p.pool.append([a, np.array(a)])
                ctx.probe('minimised')
        ctx.ev(o, len(p.log))
        p.check_args()
        p.check_log()
