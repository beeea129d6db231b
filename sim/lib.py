"""Calls to the library's stateless parts, by name (C17, C18).

Each entry takes a seed and returns (arguments, function of the arguments);
nothing here judges the numbers, the callers compare two executions.
"""
import random

import numpy as np
import scipy.sparse
import scipy.stats

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ConjugateGradient as cg_lib
import LinearResponseVariationalBayes.DirichletParams as dir_lib
import LinearResponseVariationalBayes.ExponentialFamilies as ef
import LinearResponseVariationalBayes.GammaParams as gam_lib
import LinearResponseVariationalBayes.Modeling as modeling
import LinearResponseVariationalBayes.NormalParams as norm_lib
import LinearResponseVariationalBayes.OptimizationUtils as opt_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import LinearResponseVariationalBayes.WishartParams as wis_lib
import LinearResponseVariationalBayes.regression_utils as reg

from . import dist, models


class R(object):
    def __init__(self, seed):
        self.r = random.Random(seed * 15485863 + 3)

    def arr(self, *shape, **k):
        lo, hi = k.get('lo', -1.), k.get('hi', 1.)
        n = int(np.prod(shape))
        return np.array([round(self.r.uniform(lo, hi), 4)
                         for _ in range(n)]).reshape(shape)

    def pos(self, *shape):
        return self.arr(*shape, lo=.3, hi=2.5)

    def num(self, lo=.3, hi=2.5):
        return round(self.r.uniform(lo, hi), 4)

    def spd(self, n):
        a = self.arr(n, n)
        return a.dot(a.T) + np.eye(n)

    def dim(self, hi=4):
        return self.r.randint(1, hi)


def ref(fn, r, ok=None):
    """`r` of the same arguments is the answer by the textbook, where `ok` of
    them holds; None where there is nothing to compare with."""
    def call(*a):
        return fn(*a)
    call.ref, call.ok = r, ok or (lambda *a: dist.ordinary(*a))
    return call


def gh(n):
    return np.polynomial.hermite.hermgauss(n)


def param(make, methods, seed):
    r = R(seed)
    p = make(r)
    z = r.arr(p.free_size(), lo=-.7, hi=.7)

    def go(z):
        p.set_free(z)
        return [getattr(p, m)() for m in methods] + \
            [p.get_free(), p.get_vector(), p.dictval(),
             p.free_to_vector_jac(z).toarray(), str(p), p.names()]
    return [z], go


NORM = ['e', 'e_outer', 'var', 'e_exp', 'var_exp', 'e2_exp', 'entropy']


def f_regression(s):
    r = R(s)
    n, d, k = r.dim(5), r.dim(3), r.dim(3)
    extra = (r.dim(3),) if s % 3 == 0 else ()
    y, x = r.arr(*((k,) + extra + (n,))), r.arr(k, n, d)
    info = np.array([r.spd(n) for _ in range(k)])
    pm = r.arr(k, d)
    pi = np.array([r.spd(d) for _ in range(k)])
    return [y, x, info, pm, pi], ref(
        lambda *a: list(reg.get_posterior_regression_coefficients(*a)),
        dist.posterior, lambda y, x, info, pm, pi:
        dist.ordinary(y, x, pm) and
        all(dist.well(m) for m in list(info) + list(pi)))


def f_regression_hom(s):
    r = R(s)
    d = r.dim(3)
    y, x = r.arr(6), r.arr(6, d)
    info = r.num()

    def want(y, x):
        a, b = x.T.dot(y), x.T.dot(x)
        return [np.linalg.solve(b, a), info * a, -.5 * info * b]
    return [y, x], ref(
        lambda y, x: [reg.get_regression_coefficients(y, x, info)] +
        list(reg.get_nat_params_from_likelihood(y, x, info)), want,
        lambda y, x: dist.ordinary(y, x) and dist.well(x.T.dot(x)))


def f_sub_matrix(s):
    r = R(s)
    a, b = r.dim(3), r.dim(3)
    m = r.arr(a, b)
    ri = np.array([r.r.randrange(6) for _ in range(a)])
    ci = np.array([r.r.randrange(5) for _ in range(b)])
    sq = r.arr(a, a)
    return [m, ri, ci, sq], ref(
        lambda m, ri, ci, sq: [
            obj_lib.get_sparse_sub_matrix(m, ri, ci, 6, 5).toarray(),
            obj_lib.get_sparse_sub_hessian(sq, ri, 6).toarray()],
        lambda m, ri, ci, sq: [dist.place(m, ri, ci, (6, 5)),
                               dist.place(sq, ri, ri, (6, 6))])


def f_pack(s):
    r = R(s)
    m = r.arr(r.dim(), r.dim())
    m[np.abs(m) < .5] = 0.
    sp = scipy.sparse.csr_matrix(m)
    return [m], lambda m: [
        np.array(obj_lib.pack_csr_matrix(sp)['data']),
        obj_lib.unpack_csr_matrix(obj_lib.pack_csr_matrix(sp)).toarray(),
        obj_lib.json_unpack_csr_matrix(
            obj_lib.json_pack_csr_matrix(sp)).toarray()]


def f_masks(s):
    r = R(s)
    n = r.r.randint(3, 12)
    k = r.r.randint(1, n - 1)
    return [], ref(lambda: cg_lib.get_masks(n, k), lambda: dist.masks(n, k))


def f_draws(s):
    r = R(s)
    n = r.r.choice([1, 2, 5, 5, 10])
    q = draws(n)
    return [r.arr(2, 3), r.pos(2, 3)], ref(
        lambda m, sd: [
            modeling.get_standard_draws(n),
            modeling.get_e_logistic_term(m, m, sd,
                                         modeling.get_standard_draws(n))],
        lambda m, sd: [q, logistic(m, m, sd, q)])


def draws(n):
    return scipy.stats.norm.ppf(np.arange(1, n + 1) / (n + 1.))


def logistic(y, m, sd, q):
    tot = 0.
    for i in np.ndindex(*m.shape):
        tot += y[i] * m[i] - np.mean(dist.softplus(m[i] + sd[i] * q))
    return tot


def f_dp_prior(s):
    r = R(s)
    x, w = gh(r.r.randint(2, 9))
    a = r.num()
    return [r.arr(3), r.pos(3), x, w], ref(
        lambda m, i, x, w:
        ef.get_e_dp_prior_logitnorm_approx(a, m, i, x, w),
        lambda m, i, x, w: (a - 1.) * (-m - dist.quad(
            lambda z: dist.softplus(-z), m, 1. / np.sqrt(i), x, w)),
        mean_info)


def mean_info(m, i, x, w):
    return dist.ordinary(m, x, w) and dist.positive(i)


def f_logit(s):
    r = R(s)
    x, w = gh(r.r.randint(2, 9))

    def want(m, i, x, w):
        sd = 1. / np.sqrt(i)
        lv = -dist.quad(lambda z: dist.softplus(-z), m, sd, x, w)
        return [dist.quad(dist.expit, m, sd, x, w), lv, -m + lv]
    return [r.arr(2, 3), r.pos(2, 3), x, w], ref(
        lambda m, i, x, w: [ef.get_e_logitnormal(m, i, x, w)] + list(
            ef.get_e_log_logitnormal(m, i, x, w)), want, mean_info)


def f_logistic(s):
    r = R(s)
    n = r.r.randint(2, 40)
    return [np.array([float(r.r.random() < .5) for _ in range(4)]),
            r.arr(4), r.pos(4)], ref(
        lambda y, m, sd: [modeling.get_e_logistic_term(
            y, m, sd, modeling.get_standard_draws(n))],
        lambda y, m, sd: [logistic(y, m, sd, draws(n))])


def f_logistic_gh(s):
    r = R(s)
    x, w = gh(r.r.randint(2, 9))

    def want(m, sd, x, w):
        q = dist.quad(dist.softplus, m, sd, x, w)
        return [q.sum(), q, -(m - .1) ** 2 + .5 * np.log(2.) -
                .5 * dist.LOG2PI]
    return [r.arr(4), r.pos(4), x, w], ref(
        lambda m, sd, x, w: [
            modeling.get_e_logistic_term_guass_hermite(m, sd, x, w),
            modeling.get_e_logistic_term_guass_hermite(m, sd, x, w, False),
            modeling.univariate_normal_log_prob(m, .1, 2.)], want)


def f_wishart(s):
    r = R(s)
    n = r.dim(3)
    df = n + r.num()
    return [r.spd(n)], ref(
        lambda v: [
            ef.wishart_entropy(df, v), ef.e_log_det_wishart(df, v),
            ef.e_log_inv_wishart_diag(df, v),
            ef.expected_ljk_prior(2.5, df, v)],
        lambda v: [
            dist.wishart_entropy(df, v), dist.wishart_log_det(df, v),
            dist.wishart_log_inv_diag(df, v), dist.lkj(2.5, df, v)],
        dist.well)


def f_entropies(s):
    r = R(s)
    p = r.pos(3, 4)
    p /= p.sum(axis=1, keepdims=True)

    def want(p, i, m, a, t):
        return [-(p * np.log(p)).sum(axis=1),
                dist.normal(i, 1. / i, 'entropy'),
                .5 * (len(m) * (1. + dist.LOG2PI) - dist.logdet(m)),
                dist.gamma(i, i + 1., 'entropy'),
                dist.dirichlet(a, 'entropy'),
                dist.dirichlet(t.T, 'entropy').sum()]
    return [p, r.pos(3), r.spd(r.dim(3)), r.pos(3, 2), r.pos(3, 2)], ref(
        lambda p, i, m, a, t: [
            ef.multinoulli_entropy(p), ef.univariate_normal_entropy(i),
            ef.multivariate_normal_entropy(m), ef.gamma_entropy(i, i + 1.),
            ef.dirichlet_entropy(a), ef.beta_entropy(t)], want,
        lambda p, i, m, a, t: dist.positive(p, i, a, t) and dist.well(m))


def f_expect(s):
    r = R(s)

    def want(m, v):
        return [np.exp(m + .5 * v), dist.normal(m, v, 'var_exp'),
                dist.gamma(v, v + .5, 'e_log'), dist.dirichlet(v, 'e'),
                dist.dirichlet(v, 'e_log'), -.5 * v * (.01 + v),
                (v - 1.) * m - v * v, -v * v, np.sum((v - 1.) * m),
                [.5 * m / v, 2. * v]]
    return [r.arr(3), r.pos(3)], ref(lambda m, v: [
        ef.get_e_lognormal(m, v), ef.get_var_lognormal(m, v),
        ef.get_e_log_gamma(v, v + .5), ef.get_e_dirichlet(v),
        ef.get_e_log_dirichlet(v), ef.uvn_prior(m, v, m + .1, v),
        ef.gamma_prior(v, v, v, m), ef.exponential_prior(v, v),
        ef.dirichlet_prior(v, m),
        list(ef.get_uvn_from_natural_parameters(m, -v))], want,
        lambda m, v: dist.ordinary(m) and dist.positive(v) and
        v.max() < 9.)


def f_mvnprior(s):
    r = R(s)
    n = r.dim(3)

    def want(m, i, e, c):
        return -.5 * ((e - m).dot(i).dot(e - m) + np.sum(i * c.T))
    return [r.arr(n), r.spd(n), r.arr(n), r.spd(n)], ref(
        ef.mvn_prior, want)


def f_invsqrt(s):
    r = R(s)
    n = r.dim(4)
    lo, hi = r.r.choice([None, .5]), r.r.choice([None, 2.])
    return [r.spd(n)], ref(
        lambda h: [np.asarray(x) for x in opt_lib.get_sym_matrix_inv_sqrt(
            h, ev_min=lo, ev_max=hi)],
        lambda h: dist.inv_sqrt(h, lo, hi), dist.well)


def f_timer(s):
    t = obj_lib.Timer()

    def go():
        t.tic()
        t.toc('x', verbose=False)
        return [sorted(t.time_dict), str(t)]
    return [], go


def moment(s):
    r = R(s)
    src = norm_lib.UVNParamArray('a', shape=(2, 2))
    dst = norm_lib.UVNMomentParamArray('b', shape=(2, 2))
    z = r.arr(8)

    def go(z):
        src.set_free(z)
        dst.set_from_uvn_param_array(src)
        return [dst.e(), dst.e_outer(), dst.var(), dst.entropy(),
                dst.get_free()]
    return [z], go


def leaf(kinds):
    def make(s):
        r = R(s)
        spec = models.gen_leaf(r.r, 'p', kinds)
        node = models.Node(spec)
        p = node.build(vb)
        z = np.array(node.legal_vec(s, True), dtype=float)

        def go(z):
            p.set_free(z)
            out = [p.get(), p.get_free(), p.get_vector(), str(p), p.names(),
                   p.free_to_vector_jac(z).toarray(), p.dictval()]
            p.set_vector(p.get_vector())
            p.set(p.get())
            return out + [p.get_free()]
        return [z], go
    return make


CALLS = {
    'bounded': leaf(['scalar', 'vector', 'array']),
    'matrix': leaf(['posdef', 'pdvec', 'pdarr']),
    'simplex': leaf(['simplex']),
    'regression': f_regression, 'regression-hom': f_regression_hom,
    'sub-matrix': f_sub_matrix, 'pack': f_pack, 'masks': f_masks,
    'draws': f_draws, 'dp-prior': f_dp_prior, 'logit': f_logit, 'logistic': f_logistic,
    'logistic-gh': f_logistic_gh, 'wishart': f_wishart,
    'entropies': f_entropies, 'expect': f_expect, 'mvn-prior': f_mvnprior,
    'inv-sqrt': f_invsqrt, 'timer': f_timer, 'moment': moment,
    'MVNParam': lambda s: param(
        lambda r: norm_lib.MVNParam('p', dim=r.dim(3), min_info=.1),
        ['e', 'cov', 'e_outer', 'entropy'], s),
    'UVNParam': lambda s: param(
        lambda r: norm_lib.UVNParam('p', min_info=.1), NORM, s),
    'UVNParamVector': lambda s: param(
        lambda r: norm_lib.UVNParamVector('p', length=r.dim(4)),
        NORM + ['size'], s),
    'UVNParamArray': lambda s: param(
        lambda r: norm_lib.UVNParamArray('p', shape=(r.dim(3), 2)),
        NORM + ['shape'], s),
    'MVNArray': lambda s: param(
        lambda r: norm_lib.MVNArray('p', shape=(r.dim(3), 2)), ['e', 'e2'],
        s),
    'GammaParam': lambda s: param(
        lambda r: gam_lib.GammaParam('p', min_shape=.1),
        ['e', 'e_log', 'entropy'], s),
    'DirichletParamArray': lambda s: param(
        lambda r: dir_lib.DirichletParamArray('p', shape=(r.dim(3), 2)),
        ['e', 'e_log', 'entropy'], s),
    'WishartParam': lambda s: param(
        lambda r: wis_lib.WishartParam('p', size=2),
        ['e', 'e_log_det', 'e_inv', 'entropy'], s),
}
NAMES = sorted(CALLS)
