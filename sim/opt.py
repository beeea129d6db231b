"""Simulated optimisation problems with a known optimum (C05, C07-C10, C17).

The objective is  sum cosh(B u) - (B u) . m(h)  in the free coordinates u of
the parameter, with h the flat vector of another (ambient) parameter: strictly
convex, optimum  u* = B^-1 arcsinh(m(h)).
"""
import random

import numpy as np
import scipy.optimize
import scipy.sparse

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.OptimizationUtils as opt_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

from . import core, models, seams
from .core import Violation
from .functors import HOOK, read_real
from .models import close, plain, rnd_vec, spot
from .sens import IN_FREE, m_of, sens_data, sens_fun

OUT_KINDS = ['EPIPE', 'ENOSPC', 'short', 'EIO']


class OptFunctor(object):
    def __init__(self, inp, hyp, data):
        self.inp, self.hyp, self.data = inp, hyp, data

    def __call__(self, *a, **k):
        HOOK.pre(self)
        u = read_real(self.inp, 'free')
        h = read_real(self.hyp, 'vector')
        val = sens_fun(u, h, self.data, 'full')
        if a:
            val = val * a[0]
        HOOK.post()
        if HOOK.on_done is not None and plain(val):
            HOOK.on_done(np.array(u, dtype=float), float(val))
        return val


def gen_cfg(rng, max_n=5, kinds=None):
    kinds = kinds or IN_FREE
    for _ in range(300):
        if rng.random() < .3:
            inp = {'k': 'dict', 'name': 'theta', 'ch': [
                models.gen_leaf(rng, 'c%d' % i, kinds) for i in range(2)]}
        else:
            inp = models.gen_leaf(rng, 'theta', kinds)
        if 1 <= models.Node(inp).free_size <= max_n:
            break
    return {'in': inp, 'seed': rng.randint(0, 999), 'h0': rng.randint(0, 999)}


class Problem(core.Giver):
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.ni = models.Node(cfg['in'])
        self.n = self.ni.free_size
        self.m = 2
        self.inp = self.ni.build(vb)
        self.hyp = vb.VectorParam('eps', self.m)
        self.data = sens_data(cfg['seed'], self.n, self.m)
        self.rdata = {k: np.array(v) for k, v in self.data.items()}
        self.f = OptFunctor(self.inp, self.hyp, self.data)
        self.objective = obj_lib.Objective(self.inp, self.f)
        self.h = None
        self.set_h(cfg['h0'])
        self.P = None            # reference preconditioner (dense ndarray)
        self.log = []            # reference log
        self.evals = []          # completed plain evaluations, in order
        self.pool = []
        self.at = None           # where the parameter is, if known
        self.inp.set_free(np.zeros(self.n) + .125)
        self.at = np.zeros(self.n) + .125

    # -- reference
    def set_h(self, seed):
        self.h = rnd_vec(seed, self.m)
        self.hyp.set_vector(np.array(self.h))

    def mh(self):
        return np.asarray(m_of(self.h, self.rdata))

    def fr(self, u):
        return float(sens_fun(u, self.h, self.rdata, 'full'))

    def gr(self, u):
        B = self.rdata['B']
        return B.T.dot(np.sinh(B.dot(u)) - self.mh())

    def hr(self, u):
        B = self.rdata['B']
        return B.T.dot(np.cosh(B.dot(u))[:, None] * B)

    def ustar(self):
        return np.linalg.solve(self.rdata['B'], np.arcsinh(self.mh()))

    def pt(self, seed, scale=1.):
        return spot(seed, self.n, scale)

    # -- buffers
    def give(self, arr):
        arr = self.hand(arr, self.pool)
        self.pool.append([arr, np.array(arr)])
        return arr

    def check_args(self):
        for arr, snap in self.pool:
            if not np.array_equal(arr, snap):
                raise Violation('argument-modified',
                                'a vector given to a call was modified')

    def clobber(self, v):
        self.check_args()
        for arr, snap in self.pool:
            if arr.flags.writeable:
                arr[...] = v
        if self.pool:
            self.ctx.fired('buffer-overwrite')
        self.pool = []

    # -- preconditioners
    def gen_P(self, seed):
        r = random.Random(seed * 31 + 11)
        n = self.n
        P = np.array([[round(r.uniform(-.4, .4), 3) for _ in range(n)]
                      for _ in range(n)])
        P += np.diag([round(r.uniform(.7, 1.6), 3) * r.choice([1, 1, -1])
                      for _ in range(n)])
        if abs(np.linalg.det(P)) < .15:
            P += 2. * np.eye(n)
        return P

    def install(self, seed, sparse=False):
        P = self.gen_P(seed)
        self.objective.preconditioner = \
            scipy.sparse.csr_matrix(P) if sparse else np.array(P)
        self.P = P

    # -- calls
    def guarded(self, fn, op, verbose_stream=None):
        """Run one call with the faults of `op` armed.  Returns status,
        result, whether a fault fired, and the stream."""
        stream = verbose_stream or seams.SimStream()
        stream.on_fire = self.ctx.fired
        if op.get('out'):
            stream.fail_at, stream.fail_kind = op['out']
        HOOK.disarm()
        HOOK.exc = None
        if op.get('f'):
            HOOK.arm_fault(op['f']['at'], op['f']['kind'], op['f']['pos'])
        self.evals = []
        lf = op.get('lf')
        tracker = seams.LinalgFault(lf['names'], lf['nth'], lf['kind'],
                                    self.ctx.fired) if lf else None
        armed_out = stream.fail_at is not None
        HOOK.on_done = self.done
        try:
            with seams.Stdout(stream):
                if tracker:
                    with tracker:
                        r = self.ctx.invoke(fn)
                else:
                    r = self.ctx.invoke(fn)
            st = 'ok'
        except Violation:
            raise
        except BaseException as e:
            if not isinstance(e, core.SimFault) and \
                    not core.in_repo(e.__traceback__):
                raise
            st, r = 'exc', e
        finally:
            HOOK.on_done = None
        if self.ctx.monitor is not None and stream.getvalue() and not (
                op.get('disp') or op.get('verbose') or
                op.get('o') == 'direct'):
            self.ctx.monitor.unwanted(stream.getvalue())
        exc = HOOK.exc
        fired = exc is not None or (armed_out and stream.fail_at is None) \
            or (tracker is not None and tracker.exc is not None)
        HOOK.disarm()
        HOOK.exc = None
        self.fault_exc = exc or (tracker.exc if tracker else None)
        return st, r, fired, stream

    def done(self, u, val):
        self.evals.append((u, val))

    def minimise(self, op, x0):
        """Call a minimisation routine as `op` says from the array x0."""
        kw = {'disp': bool(op.get('disp'))}
        for k in ('maxiter', 'print_every', 'init_logger'):
            if op.get(k) is not None:
                kw[k] = op[k]
        o = self.objective
        if op['m'] == 'bfgs':
            if op.get('pre') is not None:
                kw['precondition'] = op['pre']
            return lambda: opt_lib.minimize_objective_bfgs(o, x0, **kw)
        if op.get('gtol') is not None:
            kw['gtol'] = op['gtol']
        return lambda: opt_lib.minimize_objective_trust_ncg(
            o, x0, bool(op.get('pre')), **kw)

    def ref_minimise(self, op, init):
        """The same problem given to the solver directly."""
        P = self.P if op.get('pre') else np.eye(self.n)
        opts = {'maxiter': op.get('maxiter') or
                (500 if op['m'] == 'bfgs' else 50), 'disp': False}
        kw = {}
        if op['m'] != 'bfgs':
            opts['gtol'] = op.get('gtol') or 1e-6
            kw['hessp'] = lambda x, v: P.T.dot(
                self.hr(P.dot(x)).dot(P.dot(v)))
        with np.errstate(all='ignore'):
            res = scipy.optimize.minimize(
                lambda x: self.fr(P.dot(x)), np.linalg.solve(P, init),
                jac=lambda x: P.T.dot(self.gr(P.dot(x))),
                method='BFGS' if op['m'] == 'bfgs' else 'trust-ncg',
                options=opts, **kw)
        return P.dot(res.x), res

    def check_numeric(self, at=None):
        v = self.inp.get_free()
        if not plain(v):
            raise Violation('not-numeric', 'the parameter after a call')
        if at is not None and not close(v, at, 1e-7, 1e-8):
            raise Violation('wrong-point', 'the parameter is at %s, expected '
                            '%s' % (v, at))
        h = self.hyp.get_vector()
        if not plain(h) or not close(h, self.h):
            raise Violation('ambient-changed', '%s, expected %s' %
                            (h, self.h))

    def check_log(self):
        lg = self.objective.logger
        n = len(self.log)
        if len(lg.x_array) != n or len(lg.val_array) != n:
            raise Violation('log-length', 'log has %d points and %d values, '
                            'expected %d' % (len(lg.x_array),
                                             len(lg.val_array), n))
        if lg.iter != n:
            raise Violation('log-count', 'count is %s with %d entries' %
                            (lg.iter, n))
        for i, ((x, v), lx, lv) in enumerate(zip(self.log, lg.x_array,
                                                 lg.val_array)):
            if not plain(lx) or not close(lx, x, 1e-7, 1e-8):
                raise Violation('log-point', 'entry %d holds %s, expected %s'
                                % (i, lx, x))
            if not plain(lv) or not close(lv, v, 1e-9, 1e-10):
                raise Violation('log-value', 'entry %d holds %s, expected %s'
                                % (i, lv, v))


def gen_fault(rng, calls=12):
    return {'at': rng.choice([0, 0, 1, 2, 3, 4, 6, calls]),
            'kind': rng.choice(core.FAULT_KINDS),
            'pos': rng.choice(['pre', 'post'])}
