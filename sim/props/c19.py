"""C19: moments, entropies, priors and helpers answer for what they are given.

Objects and helper calls are used over a history of writes, failures,
interrupts, differentiation, copies and reused arrays; every answer is compared
with the one a freshly imported library gives for the same values, from an
object or call that has no history.
"""
import copy
import importlib
import random

import autograd
import autograd.numpy as np
import numpy as onp

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

from sim import core, dist, lib, models, seams
from sim.core import Violation
from sim.functors import HOOK
from sim.models import plain
from sim.props.c17 import differ, flat

NORM = ['e', 'e_outer', 'var', 'e_exp', 'var_exp', 'e2_exp', 'entropy']
METHODS = {
    'mvn': ['e', 'cov', 'e_outer', 'entropy'],
    'uvn': NORM, 'uvnvec': NORM + ['size'], 'uvnarr': NORM + ['shape'],
    'uvnmom': NORM + ['shape'], 'mvnarr': ['e', 'e2'],
    'gamma': ['e', 'e_log', 'entropy'],
    'wishart': ['e', 'e_log_det', 'e_inv', 'entropy', 'lkj'],
    'dirichlet': ['e', 'e_log', 'entropy']}
KINDS = sorted(METHODS)
# plain numpy or not a number: not asked for under differentiation
NO_GRAD = ('e_inv', 'size', 'shape')
MAX_OBJS = 5
CALLS = [n for n in lib.NAMES]


def gen_spec(rng, i):
    while True:
        s = models.gen_composite(rng, 'd%d' % i, 2)
        if s['k'] in METHODS:
            if rng.random() < .3:
                s['name'] = 'd'          # names need not tell objects apart
            return s


def gen(rng, tier):
    specs = [gen_spec(rng, 0)]
    r = rng.random()
    if r < .3:
        # two of a kind
        specs.append(dict(specs[0], name='e'))
    elif r < .7:
        specs.append(gen_spec(rng, 1))
    pair = rng.random() < .2
    if pair:
        shape = [rng.randint(1, 2), rng.randint(1, 2)]
        specs = [{'k': 'uvnarr', 'name': 'a', 'shape': shape},
                 {'k': 'uvnmom', 'name': 'b', 'shape': shape}]
    ops = []
    names = [rng.choice(CALLS) for _ in range(rng.choice([1, 1, 2, 3]))]
    n = rng.randint(4, 12 if tier == 'quick' else 30)
    # objects only, helpers only, both
    lo, hi = rng.choice([(0., .75), (.7, 1.), (0., 1.)])
    if pair:
        lo = 0.
    while len(ops) < n:
        r = rng.uniform(lo, hi)
        op = {'i': rng.randint(0, 3), 's': rng.randint(0, 999)}
        if r < .24:
            op.update(o='write', how=rng.choice(
                ['free', 'vector', 'leaf', 'leaf', 'view', 'inplace']),
                leaf=rng.randint(0, 3))
        elif r < .48:
            op.update(o='ask', m=rng.choice([None, None, rng.randint(0, 9)]))
            q = rng.random()
            if q < .15:
                op['int'] = rng.randint(0, 3)
            elif q < .3:
                op['cut'] = rng.randint(0, rng.choice([15, 50, 150]))
            elif q < .4:
                op['trap'] = rng.choice(['raise', 'ignore'])
        elif r < .58:
            op.update(o='grad', m=rng.randint(0, 9))
            if rng.random() < .4:
                op['f'] = {'at': 0, 'kind': rng.choice(core.FAULT_KINDS),
                           'pos': rng.choice(['pre', 'post'])}
        elif r < .62:
            op.update(o='misfit', how=rng.choice(['free', 'vector', 'leaf']))
        elif r < .66:
            op.update(o='extreme', scale=rng.choice([30., 300., 900.]))
        elif r < .69:
            op['o'] = 'copy'
        elif r < .73:
            op['o'] = 'spoil'
        elif r < (.9 if pair else .75):
            op.update(o='transfer', j=rng.randint(0, 3),
                      const=rng.random() < .4)
        else:
            op.update(o='call', n=rng.choice(names), how=rng.choice(
                ['new', 'again', 'refill', 'refill', 'grad']))
            q = rng.random()
            if q < .15:
                op['int'] = rng.randint(0, 3)
            elif q < .25:
                op['cut'] = rng.randint(0, rng.choice([15, 50, 150]))
            elif q < .35:
                op['trap'] = rng.choice(['raise', 'ignore'])
            if rng.random() < .1:
                op['big'] = rng.choice([30., 800., -800.])
        ops.append(op)
    for i in range(len(specs)):
        ops.append({'o': 'ask', 'i': i, 's': 0, 'm': None})
    return {'cfg': {'specs': specs, 'seed': rng.randint(0, 999)},
            'ops': core.mix(rng, ops)}


# -------------------------------------------------------- the untouched twin

_CODE = []


Fresh = seams.NewProcess


def fresh_calls():
    """The helper calls bound to the library as it is imported now."""
    if not _CODE:
        with open(lib.__file__) as f:
            _CODE.append(compile(f.read(), lib.__file__, 'exec'))
    ns = {'__name__': 'sim.lib', '__package__': 'sim'}
    exec(_CODE[0], ns)
    return ns['CALLS']


def fresh_objectives():
    return importlib.import_module(
        'LinearResponseVariationalBayes.SparseObjectives')


def sweep(op):
    """The lines to interrupt a call at, one after the other, or none."""
    if 'int' not in op:
        return [None]
    k = op['int']
    return list(range(k, k + [25, 40, 80, 150][k], k + 1)) + [None]


def outcome(fn):
    """What a call gives, comparably."""
    try:
        r = fn()
    except Exception as e:
        if isinstance(e, (core.SimFault, Violation)):
            raise
        return ['raised', type(e).__name__], None
    return ['ok', flat(r)], r


class quiet(object):
    """Floating-point errors as the plan wants them; no warnings shown."""
    def __init__(self, op):
        self.e = onp.errstate(all=op.get('trap') or 'ignore')

    def __enter__(self):
        self.e.__enter__()

    def __exit__(self, *a):
        return self.e.__exit__(*a)


# ------------------------------------------------------------- distributions

def moments(par, names, boxed=False):
    out = []
    for m in names:
        if m == 'lkj':
            out.append(par.e_log_lkj_inv_prior(1.7))
        else:
            out.append(getattr(par, m)())
    return out


class MomentFun(object):
    def __init__(self, par, names, hook):
        self.par, self.names, self.hook = par, names, hook

    def __call__(self):
        if self.hook:
            HOOK.pre(self)
        tot = 0.
        for k, r in enumerate(moments(self.par, self.names)):
            tot = tot + (1. + .3 * k) * np.sum(np.sin(r))
        if self.hook:
            HOOK.post()
        return tot


class Obj(object):
    def __init__(self, spec, par=None):
        self.spec = spec
        self.node = models.Node(spec)
        self.par = self.node.build(vb) if par is None else par
        self.methods = METHODS[spec['k']]

    def values(self):
        out = {}
        for l in self.node.leaves:
            v = self.node.get_real(self.par, l.path).get()
            if not plain(v):
                raise Violation('not-numeric', l.path)
            out[l.path] = v
        return out

    def twin(self, fvb, vals):
        p = self.node.build(fvb)
        for l in self.node.leaves:
            self.node.get_real(p, l.path).set(copy.deepcopy(vals[l.path]))
        return p


def same_values(a, b):
    return all(onp.array_equal(onp.nan_to_num(onp.asarray(a[k], dtype=float)),
                               onp.nan_to_num(onp.asarray(b[k], dtype=float)))
               for k in a)


class Session(core.Giver):
    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.objs = [Obj(s) for s in cfg['specs']]
        self.pool = []          # [array given, its contents]
        self.results = []       # [array handed out, its contents, where from]
        self.lists = []         # lists handed out
        self.live = {}          # helper name -> (seed, args, function)
        for k, o in enumerate(self.objs):
            o.par.set_free(o.node.legal_vec(cfg['seed'] + k, True))

    def give(self, arr):
        arr = self.hand(arr, self.pool)
        self.pool.append([arr, onp.array(arr)])
        return arr

    def check_pools(self):
        for arr, snap in self.pool:
            if not onp.array_equal(arr, snap):
                raise Violation('argument-modified', 'an array given to an '
                                'earlier call')
        for arr, snap, what in self.results:
            if not onp.array_equal(onp.nan_to_num(arr), snap):
                raise Violation('result-changed', 'an answer of %s changed '
                                'after it was given' % what)

    def keep(self, r, what):
        """Remember the arrays of an answer that are nobody else's."""
        if isinstance(r, list):
            self.lists.append(r)
        own = [v for o in self.objs for v in o.values().values()
               if isinstance(v, onp.ndarray)] + \
              [a for n, (s, args, fn) in self.live.items() for a in args] + \
              [i[0] for i in self.pool]
        for a in arrays(r):
            if not any(onp.may_share_memory(a, b) for b in own) and \
                    a.dtype.kind in 'fiub':
                self.results.append([a, onp.nan_to_num(a), what])
        del self.results[:-12]

    # -- distribution objects
    def ask(self, op, o, names):
        vals = {k: copy.deepcopy(v) for k, v in o.values().items()}
        if 'cut' in op:
            self.interrupt(op, op['cut'], moments, o.par, names)
            return
        with Fresh() as fvb, quiet(op):
            want, _ = outcome(lambda: moments(o.twin(fvb, vals), names))
        for k in sweep(op):
            hit = self.interrupt(op, k, moments, o.par, names)
            with quiet(op):
                got, r = outcome(lambda: self.ctx.invoke(
                    moments, o.par, names))
            if not same_values(o.values(), vals):
                raise Violation('object-changed', 'asking for %s' % names)
            self.compare(got, want, '%s %s' % (o.spec['k'], names))
            if got[0] == 'ok':
                for m, x in zip(names, r):
                    with quiet({}):
                        y = dist.moment(o.spec, vals, m)
                    self.textbook(x, y, '%s %s' % (o.spec['k'], m))
            if not hit:
                break
        if r is not None:
            self.keep(r, '%s %s' % (o.spec['k'], names))

    def interrupt(self, op, k, fn, *args):
        """The call, interrupted at its k-th line; whether it was."""
        if k is None:
            return False
        with seams.LineInterrupt(k, core.SimKeyboardInterrupt('async'),
                                 self.ctx.fired) as li, quiet(op):
            try:
                fn(*args)
            except core.SimKeyboardInterrupt:
                self.ctx.probe('interrupted')
            except Exception:
                pass
        return li.hit

    def compare(self, got, want, what):
        d = differ(got, want)
        if d:
            raise Violation('wrong-answer', '%s: %s (got / a fresh library)' %
                            (what, d))
        if got[0] == 'raised':
            self.ctx.probe('both-raise-' + got[1])

    def textbook(self, got, want, what):
        if want is None:
            self.ctx.probe('no-reference')
            return
        self.ctx.probe('referenced')
        if not dist.agree(got, want):
            raise Violation('wrong-formula', '%s = %s, expected %s' %
                            (what, got, want))

    def grad(self, op, o, names):
        names = [m for m in names if m not in NO_GRAD]
        if not names:
            return
        z = o.node.legal_vec(op['s'], True)
        gz = self.give(z)
        HOOK.disarm()
        HOOK.exc = None
        if op.get('f'):
            HOOK.arm_fault(op['f']['at'], op['f']['kind'], op['f']['pos'])
        ob = obj_lib.Objective(o.par, MomentFun(o.par, names, True))
        try:
            with quiet(op):
                got, r = outcome(lambda: self.ctx.invoke(
                    ob.fun_free_grad, gz))
            fired = HOOK.exc is not None
        except BaseException as e:
            if not isinstance(e, core.SimFault):
                raise
            fired = True
        finally:
            HOOK.disarm()
            HOOK.exc = None
        if fired:
            return
        with Fresh() as fvb, quiet(op):
            p = o.node.build(fvb)
            f = fresh_objectives().Objective(p, MomentFun(p, names, False))
            want, _ = outcome(lambda: f.fun_free_grad(onp.array(z)))
        self.compare(got, want, 'gradient of %s %s' % (o.spec['k'], names))

    def write(self, op, o):
        how, node = op['how'], o.node
        z = node.legal_vec(op['s'], True)
        l = node.leaves[op['leaf'] % len(node.leaves)]
        v = onp.array(node.split(z, True)[l.path])
        if how == 'free':
            o.par.set_free(self.give(z))
        elif how == 'vector':
            o.par.set_vector(self.give(node.legal_vec(op['s'], False)))
        elif how == 'inplace':
            a = node.get_real(o.par, l.path).get()
            if isinstance(a, onp.ndarray) and a.ndim and a.flags.writeable:
                if a.dtype.kind == 'f':
                    a[...] = v
        else:
            v = float(v) if v.shape == () else core.layout(
                v, getattr(self, 'lay', None))
            if how == 'view':
                o.par.get()[l.name] = v
            else:
                node.get_real(o.par, l.path).set(v)

    def misfit(self, op, o):
        try:
            if op['how'] == 'free':
                o.par.set_free(onp.ones(o.node.free_size + 1))
            elif op['how'] == 'vector':
                o.par.set_vector(onp.ones(o.node.vec_size + 2))
            else:
                l = o.node.leaves[op['s'] % len(o.node.leaves)]
                o.node.get_real(o.par, l.path).set(onp.ones((7, 3)))
        except Exception as e:
            if not core.in_repo(e.__traceback__):
                raise
            self.ctx.fired('misfit:' + op['how'])

    def transfer(self, op, a):
        b = self.objs[op['j'] % len(self.objs)]
        if b.spec['k'] != 'uvnmom':
            a, b = b, a
        if b.spec['k'] != 'uvnmom':
            return
        if op['const']:
            src = vb.ArrayParam('c', shape=tuple(b.spec['shape']))
            src.set_free(self.give(models.rnd_vec(
                op['s'], int(onp.prod(b.spec['shape'])))))
            b.par.set_from_constant(src)
            want = [src.get(), src.get() ** 2]
        elif a.spec['k'] == 'uvnarr' and a.spec['shape'] == b.spec['shape']:
            b.par.set_from_uvn_param_array(a.par)
            with Fresh() as fvb:
                w = a.twin(fvb, a.values())
                want = [w.e(), w.e_outer()]
        else:
            return
        self.compare(['ok', flat([b.par.e(), b.par.e_outer()])],
                     ['ok', flat(want)], 'transferred moments')
        self.ctx.probe('transferred')
        # the two share storage from here on; separate them
        for l in b.node.leaves:
            real = b.node.get_real(b.par, l.path)
            real.set(onp.array(real.get()))

    # -- helpers
    def call(self, op):
        name, how = op['n'], op['how']
        if name not in self.live or how == 'new':
            args, fn = lib.CALLS[name](op['s'])
            old = self.live.get(name)
            if op.get('buf') and old and len(old[1]) == len(args) and \
                    all(a.shape == b.shape and a.dtype == b.dtype
                        for a, b in zip(old[1], args)):
                # the caller's arrays, overwritten
                for a, b in zip(old[1], args):
                    a[...] = b
                args = old[1]
            self.live[name] = (op['s'], args, fn)
        seed, args, fn = self.live[name]
        if how == 'refill':
            refill(args, op['s'])
        if 'big' in op and args and args[0].dtype.kind == 'f':
            args[0][...] = onp.array(args[0]) * op['big']
        snap = [onp.array(a) for a in args]
        boxed = how == 'grad' and args and args[0].dtype.kind == 'f' and \
            name not in BY_OBJECT
        if 'cut' in op:
            self.interrupt(op, op['cut'], fn, *args)
            return
        how = boxed_call if boxed else plain_call
        with Fresh() as fresh:
            fr = fresh_calls()[name](seed)[1]
            with quiet(op):
                want, _ = outcome(lambda: how(fr, [onp.array(a)
                                                   for a in snap]))
        for k in sweep(op):
            hit = self.interrupt(op, k, fn, *args)
            with quiet(op):
                got, r = outcome(lambda: self.ctx.invoke(how, fn, args))
            for a, s in zip(args, snap):
                if not onp.array_equal(onp.nan_to_num(a), onp.nan_to_num(s)):
                    raise Violation('argument-modified', name)
            self.compare(got, want, name +
                         (' differentiated' if boxed else ''))
            if got[0] == 'ok' and not boxed and hasattr(fn, 'ref'):
                with quiet({}):
                    y = fn.ref(*snap) if fn.ok(*snap) else None
                self.textbook(r, y, name)
            if not hit:
                break
        if r is not None and name not in BY_OBJECT:
            self.keep(r, name)

    def spoil(self):
        """The caller overwrites what it was given."""
        for a, snap, what in self.results:
            if a.flags.writeable:
                a[...] = 1 if a.dtype.kind in 'iub' else 77.5
        if self.results:
            self.ctx.fired('result-overwritten')
        for r in self.lists:
            del r[1:]
        self.results, self.lists = [], []


# helper calls around a parameter object they own
BY_OBJECT = [n for n in lib.NAMES if n.endswith(('Param', 'Vector', 'Array'))
             ] + ['bounded', 'matrix', 'simplex', 'moment']


def arrays(r):
    if isinstance(r, onp.ndarray):
        return [r]
    if isinstance(r, dict):
        return [a for k in sorted(r, key=str) for a in arrays(r[k])]
    if isinstance(r, (list, tuple)):
        return [a for v in r for a in arrays(v)]
    return []


def plain_call(fn, args):
    return fn(*args)


def boxed_call(fn, args):
    """The derivative of everything the call returns in its first argument."""
    def tot(a):
        s = 0.
        for k, x in enumerate(leaves_of(fn(a, *args[1:]))):
            s = s + (1. + .1 * k) * np.sum(np.sin(x))
        return s
    return autograd.grad(tot)(args[0])


def leaves_of(r):
    if isinstance(r, (list, tuple)):
        return [x for v in r for x in leaves_of(v)]
    return [r]


def refill(args, seed):
    """New contents of the same kind in the caller's own arrays."""
    r = random.Random(seed + 5)
    for a in args:
        if a.dtype.kind != 'f' or not a.flags.writeable:
            continue
        if a.ndim >= 2 and a.shape[-1] == a.shape[-2]:
            d = onp.array([r.uniform(.6, 1.5) for _ in range(a.shape[-1])])
            a[...] = a * onp.outer(d, d)
        else:
            a[...] = a * onp.array([r.uniform(.6, 1.5) for _ in range(
                a.size)]).reshape(a.shape)


def run(plan, ctx):
    s = Session(ctx, plan['cfg'])
    for op in plan['ops']:
        o = op['o']
        s.begin(op)
        obj = s.objs[op['i'] % len(s.objs)]
        names = obj.methods
        if op.get('m') is not None:
            names = [names[op['m'] % len(names)]]
        ctx.mark(o, op.get('how', ''), op.get('n', obj.spec['k']),
                 *sorted(k for k in ('f', 'int', 'cut', 'trap', 'big') if k in op))
        if o == 'ask':
            s.ask(op, obj, names)
        elif o == 'grad':
            s.grad(op, obj, names)
        elif o == 'write':
            s.write(op, obj)
        elif o == 'misfit':
            s.misfit(op, obj)
        elif o == 'extreme':
            try:
                with quiet(op):
                    obj.par.set_free(s.give(obj.node.legal_vec(
                        op['s'], True, op['scale'])))
            except ValueError as e:
                if not core.in_repo(e.__traceback__):
                    raise
                ctx.probe('overflow-refused')
        elif o == 'copy':
            if len(s.objs) < MAX_OBJS:
                s.objs.append(Obj(obj.spec, copy.deepcopy(obj.par)))
        elif o == 'transfer':
            s.transfer(op, obj)
        elif o == 'call':
            s.call(op)
        elif o == 'spoil':
            s.spoil()
        s.check_pools()
        ctx.ev(o)
