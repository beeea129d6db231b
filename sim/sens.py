"""Simulated sensitivity problems with a known answer.

The objective is  sum cosh(B u) - (B u) . m(h)  with u the free coordinates of
the input parameter, h the flat vector of the hyperparameter and m smooth, so
the optimum is  u*(h) = B^-1 arcsinh(m(h))  and every derivative of the
optimum, in whatever coordinates were declared, follows from that formula.
Where the Hessian handed to the library is not the true one the reference is
the defining recursion: the k-th derivative is minus the inverse of that
Hessian times the k-th derivative of the gradient along the path the lower
orders describe.
"""
import math
import random

import autograd
import autograd.numpy as np
import numpy as onp

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ModelSensitivity as ms_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

from . import core, models, seams
from .core import Violation
from .functors import (HOOK, ConverterFunctor, converter_map, make_data,
                       read_real)
from .models import close, plain, spot

IN_VEC = ['scalar', 'vector', 'array', 'posdef', 'pdvec']
IN_FREE = IN_VEC + ['simplex', 'subspace', 'pdarr']


def num(x):
    return onp.array(x, dtype=float)


def sens_data(seed, n, m):
    r = random.Random(seed * 99991 + 3)
    U = lambda a, b: round(r.uniform(a, b), 3)
    B = [[U(-.35, .35) + (U(.8, 1.3) if i == j else 0.) for j in range(n)]
         for i in range(n)]
    return {'B': onp.array(B),
            'C': onp.array([[U(-.7, .7) for _ in range(m)]
                            for _ in range(n)]),
            'c': onp.array([U(-1., 1.) for _ in range(n)]),
            'D': onp.array([[U(-.4, .4) for _ in range(m)]
                            for _ in range(n)]),
            'sign': 1.}


def m_of(h, d):
    return .7 * np.sin(np.dot(d['C'], h) + d['c']) + np.dot(d['D'], h)


def sens_fun(u, h, d, part):
    bu = np.dot(d['B'], u)
    val = 0.
    if part != 'hyper':
        val = val + np.sum(np.cosh(bu))
    if part != 'base':
        val = val - np.sum(bu * m_of(h, d))
    return d['sign'] * val


class SensFunctor(object):
    def __init__(self, inp, hyp, data, part):
        self.inp, self.hyp, self.data, self.part = inp, hyp, data, part

    def __call__(self, *a, **k):
        HOOK.pre(self)
        u = read_real(self.inp, 'free')
        h = read_real(self.hyp, 'vector')
        val = sens_fun(u, h, self.data, self.part)
        HOOK.post()
        return val


def gen_cfg(rng, kind=None, max_order=3):
    kind = kind or rng.choice(['taylor', 'taylor', 'linear', 'old'])
    in_free = True if kind == 'old' else rng.random() < .55
    hyper_free = False if kind == 'old' else rng.random() < .4
    kinds = IN_FREE if in_free else IN_VEC
    if kind == 'taylor':
        # autograd has no forward-mode derivative of the Cholesky factor the
        # free coordinates of a matrix are read through
        kinds = [k for k in kinds if not k.startswith('p')]
    for _ in range(200):
        if rng.random() < .3:
            inp = {'k': 'dict', 'name': 'theta', 'ch': [
                models.gen_leaf(rng, 'c%d' % i, kinds)
                for i in range(2)]}
        else:
            inp = models.gen_leaf(rng, 'theta', kinds)
        hyp = models.gen_leaf(rng, 'eps', ['scalar', 'vector', 'vector',
                                           'posdef', 'array'])
        ni, nh = models.Node(inp), models.Node(hyp)
        if 1 <= ni.free_size <= 3 and nh.vec_size <= 3:
            break
    out = models.gen_leaf(rng, 'out', ['scalar', 'vector', 'posdef'])
    cfg = {'kind': kind, 'in': inp, 'hyper': hyp, 'out': out,
           'in_free': in_free, 'hyper_free': hyper_free,
           'seed': rng.randint(0, 999), 'h0': rng.randint(0, 999),
           'order': rng.randint(1, max_order),
           'hess': rng.choice([None, None, 'true', 'other']),
           'parts': rng.random() < .3, 'none': rng.random() < .3}
    return cfg


class Sens(core.Giver):
    """One sensitivity object and its reference."""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.ni, self.nh = models.Node(cfg['in']), models.Node(cfg['hyper'])
        self.no = models.Node(cfg['out'])
        self.inp, self.hyp = self.ni.build(vb), self.nh.build(vb)
        self.out = self.no.build(vb)
        self.fi, self.fh = cfg['in_free'], cfg['hyper_free']
        self.data = sens_data(cfg['seed'], self.ni.free_size,
                              self.nh.vec_size)
        self.rdata = {k: onp.array(v) for k, v in self.data.items()}
        self.Binv = onp.linalg.inv(self.rdata['B'])
        self.conv_data = make_data(cfg['seed'] + 1, self.ni.vec_size,
                                   self.no.free_size)
        self.f = SensFunctor(self.inp, self.hyp, self.data,
                             'full')
        self.fhyper = SensFunctor(self.inp, self.hyp, self.data, 'hyper') \
            if cfg['parts'] else None
        self.pool = []
        self.base = None
        self.obj = None
        self.order = cfg['order']

    def give(self, arr):
        arr = self.hand(arr, self.pool)
        self.pool.append([arr, onp.array(arr)])
        return arr

    def give_hess(self, hess):
        return None if hess is None else self.give(hess)

    # -- reference
    def hvec(self, hyp):
        if not self.fh:
            return hyp
        return self.nh.join(self.nh.split(hyp, True), False)

    def eta(self, hyp):
        u = np.dot(self.Binv, np.arcsinh(m_of(self.hvec(hyp), self.rdata)))
        if self.fi:
            return u
        return self.ni.join(self.ni.split(u, True), False)

    def fref(self, eta, hyp, part='full'):
        u = eta if self.fi else \
            self.ni.join(self.ni.split(eta, False), True)
        return sens_fun(u, self.hvec(hyp), self.rdata, part)

    def point(self, seed):
        """Base point: a hyperparameter and the optimum there."""
        hyp = self.nh.legal_vec(seed, self.fh) if self.fh else \
            num(self.nh.legal_vec(seed, False))
        if self.fh:
            hyp = hyp * .6
        return hyp, num(self.eta(hyp))

    def true_hess(self, eta, hyp):
        h = num(autograd.hessian(lambda e: self.fref(e, hyp))(num(eta)))
        return .5 * (h + h.T)

    def make_hess(self, how, eta, hyp):
        if how is None:
            return None
        H = self.true_hess(eta, hyp)
        if how == 'other':
            H = 1.5 * H + .3 * onp.eye(len(H))
        return H

    def set_base_ref(self, hyp, eta, hess, how):
        self.base = {'hyp': num(hyp), 'eta': num(eta),
                     'H': self.true_hess(eta, hyp) if hess is None
                     else num(hess), 'exact': how != 'other', 'cache': {}}

    def build(self):
        cfg = self.cfg
        hyp, eta = self.point(cfg['h0'])
        hess = self.make_hess(cfg['hess'], eta, hyp)
        self.set_base_ref(hyp, eta, hess, cfg['hess'])
        gh, ge = self.give(hyp), self.give(eta)
        hess = self.give_hess(hess)
        if cfg['kind'] == 'taylor':
            self.obj = ms_lib.ParametricSensitivityTaylorExpansion(
                self.f, self.inp, self.hyp, ge, gh, self.order,
                input_is_free=self.fi, hyper_is_free=self.fh, hess0=hess,
                hyper_par_objective_functor=self.fhyper)
        elif cfg['kind'] == 'linear':
            self.obj = ms_lib.ParametricSensitivityLinearApproximation(
                self.f, self.inp, self.hyp, ge, gh,
                input_is_free=self.fi, hyper_is_free=self.fh, hess0=hess,
                hyper_par_objective_functor=self.fhyper)
        else:
            self.conv = ConverterFunctor([(self.inp, 'vector')], self.out,
                                         'whole', self.conv_data)
            self.hyp.set_vector(onp.array(hyp))
            if cfg.get('none'):
                # the current value is the optimum
                self.inp.set_free(ge)
                ge = None
            self.obj = obj_lib.ParametricSensitivity(
                self.f, self.inp, self.out, self.hyp, self.conv,
                optimal_input_par=ge, objective_hessian=hess,
                hyper_par_objective_fun=self.fhyper)
            self.out_ref()

    def out_map(self, eta):
        v = self.ni.join(self.ni.split(eta, True), False)
        z = converter_map(v, self.conv_data)
        return self.no.join(self.no.split(z, True), False)

    def out_ref(self):
        """The deprecated class takes the output parameter as it finds it."""
        self.base['out'] = num(self.out.get_vector())
        self.base['J'] = num(autograd.jacobian(self.out_map)(
            num(self.base['eta'])))

    def deriv(self, k, d):
        """k-th directional derivative of the optimum."""
        key = (k, tuple(d))
        b = self.base
        if key in b['cache']:
            return b['cache'][key]
        if b['exact']:
            f = lambda t: self.eta(b['hyp'] + t * d)
            for _ in range(k):
                f = autograd.jacobian(f)
            r = num(f(0.))
        else:
            lower = [self.deriv(j, d) for j in range(1, k)]
            g = autograd.grad(lambda e, h: self.fref(e, h, 'full'), 0)

            def path(t):
                e = b['eta']
                for j, dj in enumerate(lower):
                    e = e + dj * (t ** (j + 1) / math.factorial(j + 1))
                return g(e, b['hyp'] + t * d)
            f = path
            for _ in range(k):
                f = autograd.jacobian(f)
            r = -onp.linalg.solve(b['H'], num(f(0.)))
        b['cache'][key] = r
        return r

    def jac(self):
        n = len(self.base['hyp'])
        return onp.array([self.deriv(1, e) for e in onp.eye(n)]).T

    # -- questions
    def questions(self):
        k = self.cfg['kind']
        if k == 'taylor':
            return ['dk', 'dk', 'series', 'series', 'offset']
        if k == 'linear':
            return ['jac', 'predict']
        return ['jac', 'dout', 'predict', 'pout_lin', 'pout']

    def direction(self, seed):
        return spot(seed, len(self.base['hyp']), .5)

    def answer(self, q, seed, k):
        """(function, reference) for one question."""
        o, b = self.obj, self.base
        d = self.direction(seed)
        if q == 'dk':
            k = 1 + k % self.order
            return (lambda: o.evaluate_dkinput_dhyperk(self.give(d), k),
                    lambda: self.deriv(k, d))
        if q in ('series', 'offset'):
            mk = None if k % 3 == 0 else 1 + k % self.order
            n = mk or self.order

            def want():
                s = sum(self.deriv(j, d) / math.factorial(j)
                        for j in range(1, n + 1))
                return s + b['eta'] if q == 'offset' else s
            if q == 'offset' and k % 2:
                return (lambda: o.evaluate_taylor_series(
                    self.give(d), max_order=mk), want)
            return (lambda: o.evaluate_taylor_series(
                self.give(d), add_offset=q == 'offset', max_order=mk), want)
        if q == 'jac':
            return o.get_dinput_dhyper, self.jac
        if q == 'dout':
            return o.get_doutput_dhyper, lambda: b['J'].dot(self.jac())
        new = b['hyp'] + d
        lin = lambda: b['eta'] + self.jac().dot(d)
        if q == 'predict':
            return (lambda: o.predict_input_par_from_hyperparameters(
                self.give(new)), lin)
        if q == 'pout_lin':
            return (lambda: o.predict_output_par_from_hyperparameters(
                self.give(new), True),
                lambda: b['out'] + b['J'].dot(self.jac().dot(d)))
        return (lambda: o.predict_output_par_from_hyperparameters(
            self.give(new), False), lambda: self.out_map(lin()))

    def at_base(self):
        """Both parameters are numeric and at the base point."""
        for node, real, x, free in ((self.ni, self.inp, self.base['eta'],
                                     self.fi),
                                    (self.nh, self.hyp, self.base['hyp'],
                                     self.fh)):
            got = real.get_vector()
            want = num(node.join(node.split(x, free), False))
            if not plain(got):
                raise Violation('not-numeric', '%s after a sensitivity call'
                                % node.path)
            if not close(got, want, 1e-8, 1e-9):
                raise Violation('not-at-base', '%s = %s, expected %s' %
                                (node.path, got, want))

    def ask(self, q, seed, k, fault=None, lf=None, when=''):
        fn, ref = self.answer(q, seed, k)
        HOOK.disarm()
        if fault:
            HOOK.arm_fault(fault['at'], fault['kind'], fault['pos'])
        st, r, fired = guarded(self.ctx, fn, lf)
        self.ctx.mark('ask', self.cfg['kind'], q, 'x' if fired else '')
        self.ctx.ev('ask', q, seed, k, st)
        HOOK.disarm()
        HOOK.exc = None
        if q in ('dk', 'series', 'offset'):
            self.at_base()
        if fired:
            if st == 'ok':
                raise Violation('fault-swallowed', q)
            return
        if st != 'ok':
            raise Violation('unexpected-exception', '%s %s raised %r at %s' %
                            (self.cfg['kind'], q, r, core.where(r)))
        want = num(ref())
        if not plain(r):
            raise Violation('result-not-numeric', '%s %s' % (q, type(r)))
        if not close(r, want, 2e-6, 1e-7):
            raise Violation('wrong-answer', '%s %s%s = %s, expected %s' %
                            (self.cfg['kind'], q, when, r, want))

    def rebase(self, op):
        """Move the object to another base point; any failure leaves it
        where it was."""
        cfg = self.cfg
        hyp, eta = self.point(op['h'])
        how = op.get('hess')
        hess = self.make_hess(how, eta, hyp)
        ge, gh = self.give(eta), self.give(hyp)
        bad = op.get('bad')
        if bad == 'notpd':
            n = len(eta)
            hess = onp.eye(n)
            hess[op['h'] % n, op['h'] % n] = -1.
        elif bad == 'input-size':
            ge = self.give(onp.append(eta, .1))
        elif bad == 'hyper-size' and cfg['kind'] != 'old':
            gh = self.give(onp.append(hyp, .1))
        elif bad == 'concave':
            hess = None
            self.data['sign'] = -1.
        else:
            bad = None
        o = self.obj
        gs = self.give_hess(hess)
        if cfg['kind'] == 'old':
            self.hyp.set_vector(onp.array(hyp))
            if op.get('none') and bad != 'input-size':
                self.inp.set_free(ge)
                ge = None
            fn = lambda: o.set_optimal_input_par(ge, gs)
        else:
            fn = lambda: o.set_base_values(ge, gh, hess0=gs)
        HOOK.disarm()
        if 'f' in op:
            HOOK.arm_fault(op['f']['at'], op['f']['kind'], op['f']['pos'])
        st, r, fired = guarded(self.ctx, fn, op.get('lf'))
        HOOK.disarm()
        HOOK.exc = None
        self.data['sign'] = 1.
        self.ctx.mark('rebase', cfg['kind'], bad or '', 'x' if fired else '',
                      st)
        self.ctx.ev('rebase', op['h'], st)
        if fired and st == 'ok':
            raise Violation('fault-swallowed', 'rebase')
        if bad:
            self.ctx.fired('rebase:' + bad)
            if st == 'ok':
                raise Violation('bad-base-accepted', bad)
        elif st != 'ok' and not fired:
            raise Violation('unexpected-exception', 'rebase %r at %s' %
                            (r, core.where(r)))
        if st == 'ok':
            self.set_base_ref(hyp, eta, hess, how)
            if cfg['kind'] == 'old':
                self.out_ref()
            self.ctx.probe('rebased')
        else:
            self.ctx.probe('rebase-failed')
        # the base point itself
        if cfg['kind'] != 'old':
            o.set_par_to_base_values()
            self.at_base()

    def check_args(self):
        for arr, snap in self.pool:
            if not onp.array_equal(arr, snap):
                raise Violation('argument-modified', 'a vector given to the '
                                'sensitivity object was modified')

    def clobber(self, v):
        self.check_args()
        for arr, snap in self.pool:
            if arr.flags.writeable:
                arr[...] = v
        if self.pool:
            self.ctx.fired('buffer-overwrite')
        self.ctx.mark('clobber')
        self.pool = []


def guarded(ctx, fn, lf=None):
    """('ok'|'exc', result, whether an injected fault fired)."""
    armed = HOOK.arm is not None
    tracker = seams.LinalgFault(lf['names'], lf['nth'], lf['kind'],
                                ctx.fired) if lf else None
    try:
        if tracker:
            with tracker:
                r = ctx.invoke(fn)
        else:
            r = ctx.invoke(fn)
        st = 'ok'
    except Violation:
        raise
    except BaseException as e:
        if not core.in_repo(e.__traceback__) and \
                not isinstance(e, core.SimFault):
            raise
        st, r = 'exc', e
    fired = (armed and HOOK.arm is None and HOOK.exc is not None) or \
        (tracker is not None and tracker.exc is not None)
    return st, r, fired
