"""C10: conditioned evaluations use the preconditioner installed last."""
import numpy as np
import scipy.sparse

import LinearResponseVariationalBayes.OptimizationUtils as opt_lib

from sim import core, opt
from sim.core import Violation
from sim.models import close, plain, rnd_vec

METHODS = ['fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond',
           'fun_free_hvp_cond', 'get_conditioned_x', 'uncondition_x']
PLAIN = ['fun_free', 'fun_free_grad', 'fun_free_hessian', 'fun_free_hvp']


def gen(rng, tier):
    cfg = opt.gen_cfg(rng, 4)
    cfg['two'] = rng.random() < .3
    ops = []
    n = rng.randint(5, 14 if tier == 'quick' else 40)
    p = rng.choice([0., .3, .5])
    S = lambda: rng.randint(0, 999)
    while len(ops) < n:
        r = rng.random()
        if r < .16:
            op = {'o': 'set', 's': S(), 'sparse': rng.random() < .45}
        elif r < .4:
            op = {'o': 'hess', 's': S(),
                  'how': rng.choice(['par', 'par', 'given', 'given', 'both',
                                     'neither', 'misfit']),
                  'ev': [rng.choice([None, None, .05, .5, 1.5]),
                         rng.choice([None, None, 1., 2., 30.])],
                  'shape': rng.choice(['spd', 'spd', 'indef', 'asym',
                                       'diag'])}
            q = rng.random()
            if q < p * .5:
                op['f'] = opt.gen_fault(rng, 1)
            elif q < p:
                op['lf'] = {'names': rng.choice([
                    ['np.eigh'], ['np.eigh', 'np.cholesky', 'np.inv',
                                  'np.solve', 'sp.eigh']]),
                            'nth': 0,
                            'kind': rng.choice(core.FAULT_KINDS)}
        elif r < .44:
            op = {'o': 'none'}
        elif r < .48:
            op = {'o': 'clobber', 'v': round(rng.uniform(-9, 9), 2)}
        elif r < .53:
            op = {'o': 'moveh', 's': S()}
        elif r < .63:
            op = {'o': 'plain', 's': S(), 'm': rng.choice(PLAIN)}
        elif r < .66:
            op = {'o': 'min', 's': S(), 'm': rng.choice(['bfgs', 'trust'])}
        else:
            op = {'o': 'cond', 's': S(), 'm': rng.choice(METHODS),
                  'arg': rng.random() < .2}
            if rng.random() < p * .4:
                op['f'] = opt.gen_fault(rng, 1)
        op['on'] = rng.randint(0, 1) if cfg['two'] else 0
        ops.append(op)
    for m in METHODS:
        ops.append({'o': 'cond', 's': S(), 'm': m,
                    'on': rng.randint(0, 1) if cfg['two'] else 0})
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def clamp_ref(H, ev):
    S = .5 * (H + H.T)
    w, v = np.linalg.eigh(S)
    if ev[0] is not None:
        w = np.maximum(w, ev[0])
    if ev[1] is not None:
        w = np.minimum(w, ev[1])
    with np.errstate(all='ignore'):
        return (v / np.sqrt(w)).dot(v.T), (v * w).dot(v.T), w


def given_hessian(seed, n, shape):
    a = rnd_vec(seed, n * n).reshape(n, n)
    if shape == 'spd':
        return a.dot(a.T) / n + .4 * np.eye(n)
    if shape == 'diag':
        return np.diag(np.abs(a[0]) + .3)
    if shape == 'indef':
        return a + a.T + .2 * np.eye(n)
    s = a.dot(a.T) / n + .6 * np.eye(n)
    k = rnd_vec(seed + 1, n * n).reshape(n, n)
    return s + (k - k.T)


class Side(object):
    """One objective with its own preconditioner."""
    def __init__(self, p):
        self.p = p
        self.P = None
        self.pool = []


def run(plan, ctx):
    sides = [Side(opt.Problem(ctx, plan['cfg']))]
    if plan['cfg'].get('two'):
        # a second objective sharing the same parameter object
        q = opt.Problem(ctx, dict(plan['cfg'], seed=plan['cfg']['seed'] + 1))
        p = sides[0].p
        q.inp, q.hyp = p.inp, p.hyp
        q.f = opt.OptFunctor(p.inp, p.hyp, q.data)
        q.objective = opt.obj_lib.Objective(p.inp, q.f)
        q.h = p.h
        sides.append(Side(q))
    for op in plan['ops']:
        s = sides[op.get('on', 0) % len(sides)]
        step(ctx, s, op, sides)
        for t in sides:
            t.p.check_args()
            t.p.check_numeric()


def settle(ctx, p, op, fn):
    st, r, fired, _ = p.guarded(fn, op)
    if st == 'ok' and fired:
        raise Violation('fault-swallowed', op['o'])
    return st, r, fired


def step(ctx, s, op, sides):
    o, p = op['o'], s.p
    ob, n = p.objective, p.n
    p.begin(op)
    ctx.mark(o, op.get('m', ''), op.get('how', ''), op.get('sparse', ''),
             op.get('shape', ''), *sorted(k for k in ('f', 'lf') if k in op))
    st = ''
    if o == 'set':
        P = p.gen_P(op['s'])
        if op['s'] % 7 == 0:
            P[:, 0] = 0.          # singular: evaluations are still defined
        ob.preconditioner = scipy.sparse.csr_matrix(P) if op['sparse'] \
            else np.array(P)
        s.P = P
    elif o == 'none':
        ob.preconditioner = None
        s.P = None
    elif o == 'clobber':
        p.clobber(op['v'])
    elif o == 'moveh':
        for t in sides:
            t.p.set_h(op['s'])
    elif o == 'hess':
        st = install(ctx, s, op)
    elif o == 'min':
        if s.P is None or not isinstance(ob.preconditioner, np.ndarray) or \
                abs(np.linalg.det(s.P)) < .05 or \
                np.linalg.cond(s.P) > 50.:
            return
        x0 = p.give(p.pt(op['s'], .5))
        p.P = s.P
        st, r, fired = settle(ctx, p, op, p.minimise(
            {'m': op['m'], 'pre': True, 'maxiter': 3}, x0))
        if st != 'ok':
            raise Violation('unexpected-exception', '%r at %s' %
                            (r, core.where(r)))
        if not close(r[0], s.P.dot(r[1].x), 1e-10, 1e-11):
            raise Violation('wrong-coordinates', str(r[0]))
        p.log = []
    elif o == 'plain':
        u = p.pt(op['s'])
        argv = [p.give(u)]
        want = {'fun_free': p.fr, 'fun_free_grad': p.gr,
                'fun_free_hessian': p.hr,
                'fun_free_hvp': lambda u: p.hr(u).dot(p.pt(op['s'] + 1))}[
                    op['m']](u)
        if op['m'] == 'fun_free_hvp':
            argv.append(p.give(p.pt(op['s'] + 1)))
        st, r, fired = settle(ctx, p, op,
                              lambda: getattr(ob, op['m'])(*argv))
        result(p, op, st, r, fired, want)
    else:
        cond(ctx, s, op)
    ctx.ev(o, st)


def result(p, op, st, r, fired, want):
    if st != 'ok':
        if not fired:
            raise Violation('unexpected-exception', '%s raised %r at %s' %
                            (op['m'], r, core.where(r)))
        return
    if not plain(r) or np.shape(r) != np.shape(want):
        raise Violation('wrong-type', '%s gives %s %s' %
                        (op['m'], type(r), np.shape(r)))
    if not close(r, want, 1e-7, 1e-8):
        raise Violation('wrong-result', '%s = %s, expected %s' %
                        (op['m'], r, want))


def cond(ctx, s, op):
    p, m, P = s.p, op['m'], s.P
    ob = p.objective
    x = p.pt(op['s'], .8)
    v = p.pt(op['s'] + 1)
    argv = [p.give(x)]
    k = 1.
    if op.get('arg') and m.startswith('fun'):
        k = 2.5
        argv.append(k)
    if m == 'fun_free_hvp_cond':
        argv.append(p.give(v))
    if P is None:
        if not m.startswith('fun'):
            return
        st, r, fired = settle(ctx, p, {}, lambda: getattr(ob, m)(*argv))
        if st == 'ok':
            raise Violation('not-refused', '%s without a preconditioner' % m)
        ctx.probe('refused')
        return
    y = P.dot(x)
    want = {'fun_free_cond': lambda: k * p.fr(y),
            'fun_free_grad_cond': lambda: k * P.T.dot(p.gr(y)),
            'fun_free_hessian_cond': lambda: k * P.T.dot(p.hr(y)).dot(P),
            'fun_free_hvp_cond':
                lambda: k * P.T.dot(p.hr(y).dot(P.dot(v)))}.get(
                    m, lambda: y)()
    st, r, fired = settle(ctx, p, op, lambda: getattr(ob, m)(*argv))
    result(p, op, st, r, fired, want)
    if m.startswith('fun'):
        p.check_numeric(y if st == 'ok' else None)
    ctx.probe('sparse' if scipy.sparse.issparse(ob.preconditioner)
              else 'dense')


def install(ctx, s, op):
    p = s.p
    ob, n, ev, how = p.objective, p.n, op['ev'], op['how']
    if ev[0] is not None and ev[1] is not None and ev[0] > ev[1]:
        ev = [ev[1], ev[0]]
    kw = {}
    H = None
    u = p.pt(op['s'])
    if how in ('par', 'both'):
        kw['free_par'] = p.give(u)
        H = p.hr(u)
    if how in ('given', 'both'):
        H = given_hessian(op['s'], n, op['shape'])
        kw['hessian'] = p.give(H)
    if how == 'misfit':
        kw['free_par'] = np.zeros(n + 1)
    if ev[0] is not None:
        kw['ev_min'] = ev[0]
    if ev[1] is not None:
        kw['ev_max'] = ev[1]
    before = ob.preconditioner
    with np.errstate(all='ignore'):
        st, r, fired = settle(
            ctx, p, op,
            lambda: opt_lib.set_objective_preconditioner(ob, **kw))
    if how in ('neither', 'misfit'):
        if st == 'ok':
            raise Violation('not-refused', how)
        ctx.fired('install:' + how)
        return st
    P, C, w = clamp_ref(H, ev)
    if st != 'ok':
        if not fired and np.min(w) > 1e-6:
            raise Violation('unexpected-exception', '%r at %s' %
                            (r, core.where(r)))
        ctx.probe('install-failed')
        return st
    ctx.probe('installed')
    if np.min(w) < 1e-3:
        # not positive definite within range: no inverse square root; take
        # a usable one before going on
        ob.preconditioner = None
        s.P = None
        return 'degenerate'
    s.P = P
    tol = 1e-7
    if not close(r[0], H, tol, 1e-8) or not close(r[1], P, tol, 1e-7) or \
            not close(r[2], C, tol, 1e-7):
        raise Violation('wrong-factors', 'Hessian %s: returned %s, expected '
                        '%s' % (H, r[1:], (P, C)))
    got = ob.preconditioner
    got = got.toarray() if scipy.sparse.issparse(got) else np.asarray(got)
    if not close(got, P, tol, 1e-7):
        raise Violation('wrong-preconditioner', '%s, expected %s' % (got, P))
    return st
