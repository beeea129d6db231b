"""Textbook formulas, written without the library (C19).

`moment(spec, values, name)` is what a distribution object should answer;
the other functions are what the helpers should.  `ordinary(x)` says whether
numbers are in the range where the two can be compared in floating point.
"""
import math

import numpy as np
from scipy.special import digamma, gammaln

SCALARS = {'uvn': ['mean', 'info'], 'gamma': ['shape', 'rate'],
           'wishart': ['df']}
LOG2PI = math.log(2 * math.pi)


def ordinary(*xs):
    """Moderate size, positive ones not too small."""
    for x in xs:
        x = np.asarray(x, dtype=float)
        if x.size and not (np.isfinite(x).all() and np.abs(x).max() < 40.):
            return False
    return True


def positive(*xs):
    return ordinary(*xs) and all(np.asarray(x).min() > 5e-3 for x in xs
                                 if np.asarray(x).size)


def well(m):
    """A symmetric positive definite matrix that is safe to invert."""
    m = np.asarray(m, dtype=float)
    if not ordinary(m) or np.abs(m - m.T).max() > 1e-12:
        return False
    w = np.linalg.eigvalsh(m)
    return w[0] > 1e-2 and w[-1] / w[0] < 1e4


def logdet(m):
    return float(np.sum(np.log(np.linalg.eigvalsh(m))))


def inverse(m):
    w, u = np.linalg.eigh(m)
    return (u / w).dot(u.T)


def normal(mean, var, name):
    mean, var = np.asarray(mean, dtype=float), np.asarray(var, dtype=float)
    return {'e': lambda: mean,
            'e_outer': lambda: mean * mean + var,
            'var': lambda: var,
            'e_exp': lambda: np.exp(mean + .5 * var),
            'var_exp': lambda: np.exp(2 * mean + 2 * var) -
            np.exp(2 * mean + var),
            'e2_exp': lambda: np.exp(2 * mean + 2 * var),
            'entropy': lambda: float(np.sum(.5 * (1. + LOG2PI +
                                                  np.log(var))))}[name]()


def mv_digamma(a, k):
    return float(sum(digamma(a - .5 * j) for j in range(k)))


def mv_gammaln(a, k):
    return .25 * k * (k - 1) * math.log(math.pi) + \
        float(sum(gammaln(a - .5 * j) for j in range(k)))


def wishart_log_det(df, v):
    k = len(v)
    return mv_digamma(.5 * df, k) + k * math.log(2.) + logdet(v)


def wishart_log_inv_diag(df, v):
    k = len(v)
    return np.log(np.diag(inverse(v))) - digamma(.5 * (df - k + 1)) - \
        math.log(2.)


def wishart_entropy(df, v):
    k = len(v)
    log_z = .5 * df * k * math.log(2.) + .5 * df * logdet(v) + \
        mv_gammaln(.5 * df, k)
    return log_z - .5 * (df - k - 1) * wishart_log_det(df, v) + .5 * df * k


def lkj(p, df, v):
    return (p - 1.) * (-wishart_log_det(df, v) -
                       float(np.sum(wishart_log_inv_diag(df, v))))


def gamma(a, b, name):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return {'e': lambda: a / b,
            'e_log': lambda: digamma(a) - np.log(b),
            'entropy': lambda: float(np.sum(
                a - np.log(b) + gammaln(a) + (1. - a) * digamma(a)))}[name]()


def dirichlet(alpha, name):
    alpha = np.asarray(alpha, dtype=float)
    tot = alpha.sum(axis=0)
    if name == 'e':
        return alpha / tot
    if name == 'e_log':
        return digamma(alpha) - digamma(tot)
    return gammaln(alpha).sum(axis=0) - gammaln(tot) + \
        (tot - len(alpha)) * digamma(tot) - \
        ((alpha - 1.) * digamma(alpha)).sum(axis=0)


def moment(spec, vals, name):
    """None where floating point does not allow a comparison."""
    k = spec['k']
    if name == 'size':
        return spec.get('n', 2)
    if name == 'shape':
        return list(spec['shape'])
    v = {p.split('/')[-1]: np.asarray(x, dtype=float)
         for p, x in vals.items()}
    if any(v[s].size != 1 for s in SCALARS.get(k, ())):
        return None             # a scalar takes any value it is given
    if k == 'mvn':
        mean, info = v['mean'], v['info']
        if name == 'e':
            return mean
        if not (ordinary(mean) and well(info)):
            return None
        if name == 'cov':
            return inverse(info)
        if name == 'e_outer':
            return np.outer(mean, mean) + inverse(info)
        return .5 * (len(mean) * (1. + LOG2PI) - logdet(info))
    if k in ('uvn', 'uvnvec', 'uvnarr'):
        if name == 'e':
            return v['mean']
        if not (ordinary(v['mean']) and positive(v['info'])):
            return None
        if 'exp' in name and not v['info'].min() > .1:
            return None
        return normal(v['mean'], 1. / v['info'], name)
    if k == 'uvnmom':
        if name == 'e':
            return v['e']
        if name == 'e_outer':
            return v['e2']
        var = v['e2'] - v['e'] ** 2
        if not (ordinary(v['e'], v['e2']) and
                (var > 1e-3 * (1. + v['e2'])).all()):
            return None
        if 'exp' in name and not var.max() < 9.:
            return None
        return normal(v['e'], var, name)
    if k == 'mvnarr':
        if name == 'e':
            return v['mean']
        if not (ordinary(v['mean']) and positive(v['info'])):
            return None
        return v['mean'] ** 2 + (1. / v['info']).reshape(
            (-1,) + (1,) * (v['mean'].ndim - 1))
    if k == 'gamma':
        if not positive(v['shape'], v['rate']):
            return None
        return gamma(v['shape'], v['rate'], name)
    if k == 'dirichlet':
        return dirichlet(v['alpha'], name) if positive(v['alpha']) else None
    if k == 'wishart':
        df, w = float(v['df']), v['v']
        n = len(w)
        if not (well(w) and ordinary(df) and df > n - 1 + .05):
            return None
        if name == 'e':
            return df * w
        if name == 'e_inv':
            return inverse(w) / (df - n - 1) if df > n + 1.05 else None
        if name == 'e_log_det':
            return wishart_log_det(df, w)
        if name == 'entropy':
            return wishart_entropy(df, w)
        return lkj(1.7, df, w)
    raise KeyError(k)


# ------------------------------------------------------------------- helpers

def expit(x):
    return np.where(x >= 0, 1. / (1. + np.exp(-np.abs(x))),
                    np.exp(-np.abs(x)) / (1. + np.exp(-np.abs(x))))


def softplus(x):
    return np.maximum(x, 0.) + np.log1p(np.exp(-np.abs(x)))


def quad(f, mean, sd, x, w):
    """E f(z) with z normal, element by element, by the given rule."""
    mean, sd = np.asarray(mean), np.asarray(sd)
    out = np.zeros(mean.shape)
    for i in np.ndindex(*mean.shape):
        z = mean[i] + math.sqrt(2.) * sd[i] * x
        out[i] = np.sum(w * f(z)) / math.sqrt(math.pi)
    return out


def regression(y, x, info):
    """Normal equations of one block: (x' info y, x' info x)."""
    return x.T.dot(info).dot(y), x.T.dot(info).dot(x)


def posterior(y, x, info, pm, pi):
    """k independent regressions; extra leading dimensions of y add up."""
    means, infos = [], []
    for i in range(len(x)):
        ys = y[i].reshape(-1, y.shape[-1])
        a, b = pi[i].dot(pm[i]), np.array(pi[i])
        for one in ys:
            da, db = regression(one, x[i], info[i])
            a, b = a + da, b + db
        means.append(np.linalg.solve(b, a))
        infos.append(b)
    return [np.array(means), np.array(infos)]


def place(m, rows, cols, shape):
    out = np.zeros(shape)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            out[int(rows[i]), int(cols[j])] += m[i, j]
    return out


def masks(n, k):
    return [[start <= i < start + k for i in range(n)]
            for start in range(0, n, k)]


def inv_sqrt(h, lo, hi):
    w, u = np.linalg.eigh(.5 * (h + h.T))
    if lo is not None:
        w = np.maximum(w, lo)
    if hi is not None:
        w = np.minimum(w, hi)
    return [(u / np.sqrt(w)).dot(u.T), (u * w).dot(u.T)]


def numbers(r):
    """All numbers of a nested answer, in order."""
    if isinstance(r, np.ndarray):
        return [float(x) for x in np.asarray(r, dtype=float).ravel()]
    if isinstance(r, dict):
        return [x for k in sorted(r) for x in numbers(r[k])]
    if isinstance(r, (list, tuple)):
        return [x for v in r for x in numbers(v)]
    return [float(r)]


def agree(got, want, rtol=2e-6, atol=1e-7):
    a, b = numbers(got), numbers(want)
    if len(a) != len(b):
        return False
    a, b = np.array(a), np.array(b)
    with np.errstate(all='ignore'):
        return bool(np.all((a == b) | (np.abs(a - b) <= atol + rtol *
                                       np.maximum(np.abs(a), np.abs(b)))))
