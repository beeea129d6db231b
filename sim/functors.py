"""User functions given to the library, and their reference counterparts.

A functor reads real parameters (its own and ambient ones) and evaluates a
smooth nonlinear function of everything it read.  Faults, clock advances and
thread switches happen at its calls through the module-level hook, which is
deliberately not part of the functor (so deep copies never carry it along).
"""
import random

import autograd.numpy as np
import numpy as onp

from . import core


class Hook(object):
    """What happens inside user functions; the current run owns it."""
    yield_fn = None              # C18: a thread may lose the baton here

    def __init__(self):
        self.reset()

    def reset(self, ctx=None):
        self.ctx = ctx
        self.calls = 0
        self.arm = None          # {'at': n, 'kind': k, 'pos': 'pre'|'post'}
        self.exc = None
        self.nan_at = None
        self.dt = 0.0
        self.on_call = None      # thread yield, clock jump, nested calls
        self.on_done = None      # completed evaluations, for the recorder
        self.cap = 200000
        self.total = 0

    def arm_fault(self, at, kind, pos):
        self.calls = 0
        self.exc = None
        self.arm = {'at': at, 'kind': kind, 'pos': pos}

    def disarm(self):
        self.arm = None
        self.calls = 0

    def pre(self, functor):
        if Hook.yield_fn is not None:
            Hook.yield_fn()
        self.total += 1
        if self.total > self.cap:
            raise core.Violation('no-progress',
                                 'user function called without end')
        if self.on_call is not None:
            self.on_call(functor)
        self.fire('pre')

    def fire(self, pos):
        a = self.arm
        if a is not None and a['pos'] == pos and self.calls == a['at']:
            self.arm = None
            self.exc = core.make_fault(a['kind'], 'user function')
            if self.ctx is not None:
                self.ctx.fired('functor:%s:%s' % (a['kind'], pos))
            raise self.exc

    def post(self):
        if Hook.yield_fn is not None:
            Hook.yield_fn()
        self.fire('post')
        self.calls += 1


HOOK = Hook()


def make_data(seed, m, nout=3):
    r = random.Random(seed * 104729 + 7)
    rows = [[round(r.uniform(-.6, .6), 3) for _ in range(m)]
            for _ in range(nout)]
    return {'A': onp.array(rows),
            'b': onp.array([round(r.uniform(-1, 1), 3) for _ in range(nout)]),
            'w': onp.array([round(r.uniform(-1, 1), 3) for _ in range(nout)]),
            'q': round(r.uniform(.2, 1.), 3)}


def core_fun(u, data, kind, args, kw):
    scale = 1. + (args[0] if args else 0.)
    shift = kw.get('shift', 0.)
    s = np.dot(data['A'], u) + data['b']
    if shift:
        # every derivative depends on it
        shift = shift * (np.sum(u) + np.sin(np.sum(u)))
    if kind == 'vec':
        return np.sin(s) * scale + shift
    val = np.sum(data['w'] * np.sin(s)) + 0.5 * data['q'] * np.sum(u * u)
    return scale * val + shift


def _flat(x):
    return np.reshape(x, (-1,))


def read_real(par, how):
    """Features of a real parameter, through the view named by `how`."""
    if how == 'vector':
        return _flat(par.get_vector())
    if how == 'free':
        return _flat(par.get_free())
    if how == 'value':
        return _flat(par.get())
    # by-name view of a composite, recursively
    out = []
    view = par.get()
    for name in par.param_dict.keys():
        sub = par[name]
        if hasattr(sub, 'param_dict'):
            out.append(read_real(sub, 'named'))
        else:
            out.append(_flat(view[name]))
    return np.concatenate(out)


def read_ref(node, how, vals):
    if how == 'vector':
        return node.join(vals, False)
    if how == 'free':
        return node.join(vals, True)
    return np.concatenate([_flat(vals[l.path]) for l in node.leaves])


class Functor(object):
    """Bound to real parameters: reads = [(parameter, how)]."""
    def __init__(self, reads, data, kind='num'):
        self.reads = reads
        self.data = data
        self.kind = kind

    def features(self):
        return np.concatenate([read_real(p, how) for p, how in self.reads])

    def __call__(self, *args, **kw):
        HOOK.pre(self)
        val = core_fun(self.features(), self.data, self.kind, args, kw)
        HOOK.post()
        return val


class RefFunctor(object):
    """Reference: reads = [(Node, how)]."""
    def __init__(self, reads, data, kind='num'):
        self.reads = reads
        self.data = data
        self.kind = kind

    def __call__(self, vals, args=(), kw=None):
        u = np.concatenate([read_ref(n, how, vals) for n, how in self.reads])
        return core_fun(u, self.data, self.kind, args, kw or {})


class ConverterFunctor(object):
    """Writes the output parameter as a function of what it reads:
    output free vector = tanh(A u + b), always legal and smooth.  `mode`
    'whole' writes it through one free vector, 'parts' component by component,
    'byval' by value through the component (unbounded components only)."""
    def __init__(self, reads, out, mode, data):
        self.reads, self.out = reads, out
        self.mode = mode
        self.data = data

    def __call__(self):
        HOOK.pre(self)
        u = np.concatenate([read_real(p, how) for p, how in self.reads])
        z = converter_map(u, self.data)
        if self.mode == 'byval':
            self.out.set(z)
        elif self.mode == 'whole' or not hasattr(self.out, 'param_dict'):
            self.out.set_free(z)
        else:
            o = 0
            for name in self.out.param_dict.keys():
                sub = self.out[name]
                n = sub.free_size()
                sub.set_free(z[o:o + n])
                o += n
        HOOK.post()


def converter_map(u, data):
    return np.tanh(np.dot(data['A'], u) + data['b'])
