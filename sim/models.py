"""Reference models of every parameter kind, written without the library.

A *spec* is JSON: {'k': kind, 'name': ..., sizes and bounds}.  A leaf's state
is its value as a plain ndarray of the leaf's shape (scalars: shape ()).
Composites are ordered lists of leaves.  All maps are pure functions built on
autograd.numpy so that the reference derivatives need no parameter objects.
"""
import math
import numbers
import random

import autograd.numpy as np
import numpy as onp

INF = float('inf')


def rnd_vec(seed, n, lo=-1.5, hi=1.5):
    r = random.Random(seed * 7919 + 13)
    return onp.array([round(r.uniform(lo, hi), 4) for _ in range(n)],
                     dtype=float)


def spot(seed, n, scale=1.):
    """A point or direction; now and then one that code may single out."""
    k = seed % 19
    if k == 3:
        return onp.zeros(n)
    if k == 7:
        v = onp.zeros(n)
        v[seed // 19 % n] = scale
        return v
    if k == 11:
        return onp.full(n, .5 * scale)
    return rnd_vec(seed, n) * scale


def tri(n):
    return n * (n + 1) // 2


# ---------------------------------------------------------------- leaf kinds

class Leaf(object):
    def __init__(self, path, spec):
        self.path = path
        self.spec = spec
        self.name = spec['name']

    def size(self):
        n = 1
        for s in self.shape:
            n *= s
        return n


def _bound(spec):
    lb = spec.get('lb')
    ub = spec.get('ub')
    return (-INF if lb is None else lb), (INF if ub is None else ub)


def ref_constrain(f, lb, ub):
    if lb == -INF and ub == INF:
        return f * 1.0
    if ub == INF:
        return lb + np.exp(f)
    if lb == -INF:
        return ub - np.exp(-f)
    return lb + (ub - lb) / (1. + np.exp(-f))


def ref_unconstrain(v, lb, ub):
    if lb == -INF and ub == INF:
        return v * 1.0
    if ub == INF:
        return np.log(v - lb)
    if lb == -INF:
        return -np.log(ub - v)
    return np.log((v - lb) / (ub - v))


class BoxLeaf(Leaf):
    """Scalars, vectors and arrays within bounds."""
    def __init__(self, path, spec):
        Leaf.__init__(self, path, spec)
        k = spec['k']
        self.shape = {'scalar': (), 'vector': (spec.get('n', 1),),
                      'array': tuple(spec.get('shape', ()))}[k]
        self.lb, self.ub = _bound(spec)
        self.free_size = self.vec_size = self.size()

    def free2val(self, f):
        return np.reshape(ref_constrain(f, self.lb, self.ub), self.shape)

    def val2free(self, v):
        return ref_unconstrain(np.reshape(v, (-1,)), self.lb, self.ub)

    def val2vec(self, v):
        return np.reshape(v, (-1,))

    def vec2val(self, x):
        return np.reshape(x, self.shape)

    def build(self, vb):
        s = self.spec
        if s['k'] == 'scalar':
            return vb.ScalarParam(s['name'], lb=self.lb, ub=self.ub,
                                  val=self.start())
        if s['k'] == 'vector':
            return vb.VectorParam(s['name'], s['n'], lb=self.lb, ub=self.ub,
                                  val=self.start())
        return vb.ArrayParam(s['name'], shape=self.shape, lb=self.lb,
                             ub=self.ub, val=self.start())

    def start(self):
        if self.spec.get('default'):
            return None
        v = onp.array(self.free2val(onp.zeros(self.free_size)))
        return float(v) if self.shape == () else v


def _tri_basis(n):
    """Constant tensors turning a lower-triangle vector into a matrix."""
    idx = [(i, j) for i in range(n) for j in range(i + 1)]
    off = onp.zeros((len(idx), n, n))
    dia = onp.zeros((len(idx), n, n))
    sym = onp.zeros((len(idx), n, n))
    for k, (i, j) in enumerate(idx):
        (dia if i == j else off)[k, i, j] = 1.
        sym[k, i, j] = 1.
        sym[k, j, i] = 1.
    pick = onp.zeros((len(idx), n * n))
    for k, (i, j) in enumerate(idx):
        pick[k, i * n + j] = 1.
    return idx, off, dia, sym, pick


class PosDefLeaf(Leaf):
    """One positive-definite matrix, or a vector or array of them."""
    def __init__(self, path, spec):
        Leaf.__init__(self, path, spec)
        self.n = spec['n']
        k = spec['k']
        self.lead = {'posdef': (), 'pdvec': (spec.get('length', 1),),
                     'pdarr': tuple(spec.get('shape', ()))}[k]
        self.shape = self.lead + (self.n, self.n)
        self.count = 1
        for s in self.lead:
            self.count *= s
        self.per = tri(self.n)
        self.free_size = self.vec_size = self.count * self.per
        self.diag_lb = spec.get('diag_lb') or 0.0
        self.idx, self.off, self.dia, self.sym, self.pick = _tri_basis(self.n)
        self.dmask = onp.array([1. if i == j else 0. for i, j in self.idx])

    def _one_val(self, f):
        # L has exp() of the diagonal entries and the others as they are
        e = np.exp(f * self.dmask) * self.dmask + f * (1. - self.dmask)
        L = np.tensordot(e, self.off + self.dia, axes=([0], [0]))
        return np.dot(L, L.T) + self.diag_lb * onp.eye(self.n)

    def free2val(self, f):
        ms = [self._one_val(f[i * self.per:(i + 1) * self.per])
              for i in range(self.count)]
        return np.reshape(np.concatenate([np.reshape(m, (-1,)) for m in ms]),
                          self.shape)

    def val2vec(self, v):
        flat = np.reshape(v, (self.count, self.n * self.n))
        return np.concatenate([np.dot(self.pick, flat[i])
                               for i in range(self.count)])

    def vec2val(self, x):
        ms = [np.tensordot(x[i * self.per:(i + 1) * self.per], self.sym,
                           axes=([0], [0])) for i in range(self.count)]
        return np.reshape(np.concatenate([np.reshape(m, (-1,)) for m in ms]),
                          self.shape)

    def val2free(self, v):
        flat = np.reshape(v, (self.count, self.n, self.n))
        out = []
        for i in range(self.count):
            L = np.linalg.cholesky(flat[i] - self.diag_lb * onp.eye(self.n))
            x = np.dot(self.pick, np.reshape(L, (-1,)))
            x_safe = x * self.dmask + (1. - self.dmask)
            out.append(np.log(x_safe) + x * (1. - self.dmask))
        return np.concatenate(out)

    def build(self, vb):
        s = self.spec
        if s['k'] == 'posdef':
            return vb.PosDefMatrixParam(s['name'], self.n,
                                        diag_lb=self.diag_lb)
        if s['k'] == 'pdvec':
            return vb.PosDefMatrixParamVector(
                s['name'], length=self.lead[0], matrix_size=self.n,
                diag_lb=self.diag_lb)
        return vb.PosDefMatrixParamArray(
            s['name'], array_shape=self.lead, matrix_size=self.n,
            diag_lb=self.diag_lb)


class SimplexLeaf(Leaf):
    def __init__(self, path, spec):
        Leaf.__init__(self, path, spec)
        self.shape = tuple(spec['shape'])
        self.rows, self.cols = self.shape
        self.free_size = self.rows * (self.cols - 1)
        self.vec_size = self.rows * self.cols

    def free2val(self, f):
        m = np.reshape(f, (self.rows, self.cols - 1))
        e = np.concatenate([onp.ones((self.rows, 1)), np.exp(m)], axis=1)
        return e / np.reshape(np.sum(e, axis=1), (self.rows, 1))

    def val2free(self, v):
        return np.reshape(np.log(v[:, 1:] / v[:, 0:1]), (-1,))

    def val2vec(self, v):
        return np.reshape(v, (-1,))

    def vec2val(self, x):
        return np.reshape(x, self.shape)

    def build(self, vb):
        return vb.SimplexParam(self.name, shape=self.shape)


class SubspaceLeaf(Leaf):
    """The basis of the subspace is not unique: it is read once from a fresh
    parameter through the public interface and then held fixed."""
    def __init__(self, path, spec):
        Leaf.__init__(self, path, spec)
        self.dim = spec['n']
        self.shape = (self.dim,)
        self.cons = spec.get('cons', 1)
        self.free_size = self.dim - self.cons
        self.vec_size = self.dim
        self._basis = None

    def perp(self):
        if self.spec.get('cseed') is None:
            return None
        return onp.array([rnd_vec(self.spec['cseed'] * 31 + i, self.dim)
                          for i in range(self.cons)]) + \
            0.5 * onp.eye(self.dim)[:self.cons]

    def basis(self):
        if self._basis is None:
            import LinearResponseVariationalBayes as vb
            p = self.build(vb)
            cols = []
            for i in range(self.free_size):
                e = onp.zeros(self.free_size)
                e[i] = 1.
                p.set_free(e)
                cols.append(onp.array(p.get()))
            self._basis = onp.array(cols).T
        return self._basis

    def free2val(self, f):
        return np.dot(self.basis(), f)

    def val2free(self, v):
        return np.dot(self.basis().T, v)

    def val2vec(self, v):
        return v * 1.0

    def vec2val(self, x):
        return x * 1.0

    def build(self, vb):
        return vb.SubspaceVectorParam(self.name, dim=self.dim,
                                      perp_subspace=self.perp())


LEAF = {'scalar': BoxLeaf, 'vector': BoxLeaf, 'array': BoxLeaf,
        'posdef': PosDefLeaf, 'pdvec': PosDefLeaf, 'pdarr': PosDefLeaf,
        'simplex': SimplexLeaf, 'subspace': SubspaceLeaf}


def children(spec):
    """Specs of the components of a composite kind."""
    k = spec['k']
    n = spec.get('n', 2)
    lb = spec.get('lb') or 0.0
    if k == 'dict':
        return spec['ch']
    if k == 'mvn':
        return [{'k': 'vector', 'name': 'mean', 'n': n},
                {'k': 'posdef', 'name': 'info', 'n': n, 'diag_lb': lb}]
    if k == 'uvn':
        return [{'k': 'scalar', 'name': 'mean'},
                {'k': 'scalar', 'name': 'info', 'lb': lb}]
    if k == 'uvnvec':
        return [{'k': 'vector', 'name': 'mean', 'n': n},
                {'k': 'vector', 'name': 'info', 'n': n, 'lb': lb}]
    if k == 'uvnarr':
        return [{'k': 'array', 'name': 'mean', 'shape': spec['shape']},
                {'k': 'array', 'name': 'info', 'shape': spec['shape'],
                 'lb': lb}]
    if k == 'uvnmom':
        return [{'k': 'array', 'name': 'e', 'shape': spec['shape']},
                {'k': 'array', 'name': 'e2', 'shape': spec['shape'],
                 'lb': lb}]
    if k == 'mvnarr':
        return [{'k': 'array', 'name': 'mean', 'shape': spec['shape']},
                {'k': 'vector', 'name': 'info', 'n': spec['shape'][0],
                 'lb': lb}]
    if k == 'gamma':
        return [{'k': 'scalar', 'name': 'shape', 'lb': lb},
                {'k': 'scalar', 'name': 'rate', 'lb': spec.get('lb2') or 0.}]
    if k == 'wishart':
        return [{'k': 'scalar', 'name': 'df', 'lb': spec.get('min_df', n - 1.)},
                {'k': 'posdef', 'name': 'v', 'n': n, 'diag_lb': lb}]
    if k == 'dirichlet':
        return [{'k': 'array', 'name': 'alpha', 'shape': spec['shape'],
                 'lb': lb}]
    raise KeyError(k)


def build_composite(spec, vb):
    k, name = spec['k'], spec['name']
    lb = spec.get('lb') or 0.0
    if k == 'mvn':
        return vb.MVNParam(name, dim=spec.get('n', 2), min_info=lb)
    if k == 'uvn':
        return vb.UVNParam(name, min_info=lb)
    if k == 'uvnvec':
        return vb.UVNParamVector(name, length=spec.get('n', 2), min_info=lb)
    if k == 'uvnarr':
        return vb.UVNParamArray(name, shape=tuple(spec['shape']), min_info=lb)
    if k == 'uvnmom':
        return vb.UVNMomentParamArray(name, shape=tuple(spec['shape']),
                                      min_info=lb)
    if k == 'mvnarr':
        return vb.MVNArray(name, shape=tuple(spec['shape']), min_info=lb)
    if k == 'gamma':
        return vb.GammaParam(name, min_shape=lb,
                             min_rate=spec.get('lb2') or 0.)
    if k == 'wishart':
        return vb.WishartParam(name, size=spec.get('n', 2), diag_lb=lb,
                               min_df=spec.get('min_df'))
    if k == 'dirichlet':
        return vb.DirichletParamArray(name, shape=tuple(spec['shape']),
                                      min_alpha=lb)
    raise KeyError(k)


class Node(object):
    """A parameter of the session: leaf or composite, real and reference."""
    def __init__(self, spec, parent=None):
        self.spec = spec
        self.name = spec['name']
        self.path = (parent + '/' if parent else '') + self.name
        self.parent = parent
        if spec['k'] in LEAF:
            self.leaf = LEAF[spec['k']](self.path, spec)
            self.kids = []
            self.leaves = [self.leaf]
        else:
            self.leaf = None
            self.kids = [Node(c, self.path) for c in children(spec)]
            self.leaves = [l for c in self.kids for l in c.leaves]
        self.free_size = sum(l.free_size for l in self.leaves)
        self.vec_size = sum(l.vec_size for l in self.leaves)

    def build(self, vb):
        if self.leaf is not None:
            return self.leaf.build(vb)
        if self.spec['k'] == 'dict':
            d = vb.ModelParamsDict(self.name)
            for c in self.kids:
                d.push_param(c.build(vb))
            return d
        return build_composite(self.spec, vb)

    def all_nodes(self):
        out = [self]
        for c in self.kids:
            out += c.all_nodes()
        return out

    def split(self, z, free):
        """Reference: flat vector -> {leaf path: value}."""
        out, o = {}, 0
        for l in self.leaves:
            n = l.free_size if free else l.vec_size
            part = z[o:o + n]
            out[l.path] = l.free2val(part) if free else l.vec2val(part)
            o += n
        return out

    def join(self, vals, free):
        return np.concatenate(
            [np.reshape(l.val2free(vals[l.path]) if free
                        else l.val2vec(vals[l.path]), (-1,))
             for l in self.leaves])

    def legal_vec(self, seed, free, scale=1.0):
        """A point in the requested coordinates, legal, from a small int."""
        f = spot(seed, self.free_size, scale)
        if free:
            return f
        return onp.array(self.join(self.split(f, True), False), dtype=float)

    def get_real(self, real, path):
        """The real parameter object at `path` below this node's object."""
        rel = path[len(self.path):].strip('/')
        for part in [p for p in rel.split('/') if p]:
            real = real[part]
        return real


def alias_leaves(mine, orig):
    """Make the leaves of `mine` stand for the same state as those of `orig`:
    the same component in a second composite."""
    for a, b in zip(mine.leaves, orig.leaves):
        a.path = b.path
        a._basis = getattr(b, '_basis', None)


# ------------------------------------------------------------- value helpers

def plain(x):
    if isinstance(x, (bool, onp.bool_)):
        return False
    if isinstance(x, numbers.Number):
        return not isinstance(x, complex)
    if isinstance(x, onp.ndarray):
        return x.dtype.kind in 'fiu'
    return False


def close(a, b, rtol=1e-7, atol=1e-9):
    a = onp.asarray(a, dtype=float)
    b = onp.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with onp.errstate(all='ignore'):
        scale = onp.max(onp.abs(b)) if b.size else 0.
        if not onp.isfinite(scale):
            return bool(onp.array_equal(onp.isnan(a), onp.isnan(b)) and
                        onp.all((a == b) | onp.isnan(a) |
                                (onp.abs(a - b) <= rtol * onp.abs(b))))
        return bool(onp.all(onp.abs(a - b) <= atol + rtol * max(scale, 1.)))


# -------------------------------------------------------- random parameters

def gen_leaf(rng, name, kinds=None, small=True):
    k = rng.choice(kinds or ['scalar', 'vector', 'array', 'posdef', 'pdvec',
                             'pdarr', 'simplex', 'subspace'])
    s = {'k': k, 'name': name}
    if k in ('scalar', 'vector', 'array'):
        b = rng.choice(['none', 'none', 'lb', 'ub', 'both'])
        lb = round(rng.uniform(-2., 1.), 2)
        if b in ('lb', 'both'):
            s['lb'] = lb
        if b in ('ub', 'both'):
            s['ub'] = round(lb + rng.uniform(1., 4.), 2)
        if k == 'vector':
            s['n'] = rng.randint(1, 3)
        if k == 'array':
            s['shape'] = [rng.randint(1, 2)
                          for _ in range(rng.choice([1, 2, 2, 3]))]
    elif k in ('posdef', 'pdvec', 'pdarr'):
        s['n'] = rng.choice([1, 2, 2]) if k != 'posdef' \
            else rng.choice([1, 2, 2, 3])
        s['diag_lb'] = rng.choice([0.0, 0.0, 0.3, 1.1])
        if k == 'pdvec':
            s['length'] = rng.randint(1, 2)
        if k == 'pdarr':
            s['shape'] = [rng.randint(1, 2)
                          for _ in range(rng.choice([1, 2]))]
    elif k == 'simplex':
        s['shape'] = [rng.randint(1, 2), rng.randint(2, 3)]
    elif k == 'subspace':
        s['n'] = rng.randint(2, 4)
        s['cons'] = 1
        if rng.random() < .5:
            s['cseed'] = rng.randint(0, 99)
            s['cons'] = rng.randint(1, s['n'] - 1)
    return s


def gen_composite(rng, name, depth=0):
    k = rng.choice(['dict'] * 5 + ['mvn', 'uvn', 'uvnvec', 'uvnarr', 'uvnmom',
                                   'mvnarr', 'gamma', 'wishart', 'dirichlet'])
    s = {'k': k, 'name': name}
    if k == 'dict':
        n = rng.randint(1, 3)
        s['ch'] = [gen_composite(rng, 'c%d' % i, depth + 1)
                   if depth < 2 and rng.random() < .25
                   else gen_leaf(rng, 'c%d' % i) for i in range(n)]
        return s
    s['lb'] = rng.choice([0.0, 0.0, 0.25])
    if k in ('mvn', 'uvnvec'):
        s['n'] = rng.randint(1, 2)
    if k in ('uvnarr', 'uvnmom', 'mvnarr'):
        s['shape'] = [rng.randint(1, 2), rng.randint(1, 2)]
    if k == 'dirichlet':
        s['shape'] = [rng.randint(1, 3)] + ([rng.randint(1, 2)]
                                            if rng.random() < .6 else [])
    if k == 'wishart':
        s['n'] = rng.choice([1, 2, 2, 3])
        if rng.random() < .6:
            s['min_df'] = s['n'] - 1 + rng.choice([0., .5, 2.5])
    return s


def gen_param(rng, name, p_comp=.5):
    return gen_composite(rng, name) if rng.random() < p_comp \
        else gen_leaf(rng, name)
