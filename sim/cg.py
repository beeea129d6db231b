"""Simulated conjugate-gradient sessions (C05, C11, C12, C17, C18).

The Hessian belongs to a quadratic-plus-quartic function with a known matrix
at every point; products are served through the user-function hook, which
advances the virtual clock and injects failures.  What each subset solve does
is known from running scipy's own solver on the same masked vector.
"""
import random

import numpy as np
import scipy.sparse.linalg as spl

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ConjugateGradient as cg_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib
import autograd
import autograd.numpy as anp

from . import core, seams
from .core import Violation
from .functors import HOOK
from .models import plain, rnd_vec, spot


def spd(seed, n):
    r = random.Random(seed * 7331 + 5)
    a = np.array([[round(r.uniform(-1, 1), 3) for _ in range(n)]
                  for _ in range(n)])
    return a.dot(a.T) / n + np.diag([round(r.uniform(.5, 2.), 3)
                                     for _ in range(n)])


class Quartic(object):
    """0.5 x'Ax + sum x^4 / 4, as an objective over a vector parameter."""
    def __init__(self, par, A):
        self.par, self.A = par, A

    def __call__(self):
        HOOK.pre(self)
        x = self.par.get_vector()
        val = .5 * anp.dot(x, anp.dot(self.A, x)) + .25 * anp.sum(x ** 4)
        HOOK.post()
        return val


class Product(object):
    """Hessian-vector products given as a plain function."""
    def __init__(self, A):
        self.A = A

    def __call__(self, x, v):
        HOOK.pre(self)
        r = self.A.dot(v) + 3. * x ** 2 * v
        HOOK.post()
        return r


def gen_masks(rng, n):
    r = rng.random()
    if r < .35 and n > 2:
        return ['blocks', rng.randint(1, n - 1)]
    k = rng.randint(1, 5)
    return ['list', [[rng.random() < rng.choice([.3, .6, 1.])
                      for _ in range(n)] for _ in range(k)]]


def build_masks(spec, n, as_list=False):
    if spec[0] == 'blocks':
        size = spec[1]
        out = []
        for i in range(0, n, size):
            m = np.full(n, False)
            m[i:i + size] = True
            out.append(m)
        return out
    return [np.array(m, dtype=bool) for m in spec[1]]


def gen_cfg(rng):
    n = rng.randint(2, 7)
    return {'n': n, 's': rng.randint(0, 999), 'real': rng.random() < .4,
            'dt': rng.choice([0., .125, .5, 3.]),
            'out_dt': rng.choice([0., 0., 2.])}


def pure_hvp(A, x, u):
    def f(x):
        return .5 * anp.dot(x, anp.dot(A, x)) + .25 * anp.sum(x ** 4)
    return autograd.hessian_vector_product(f)(x, u)


class CG(core.Giver):
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        n = self.n = cfg['n']
        self.A = spd(cfg['s'], n)
        self.x0 = rnd_vec(cfg['s'] + 1, n) * .8
        self.H = self.A + np.diag(3. * self.x0 ** 2)
        self.given = []
        self.buf = self.give(self.x0)
        if cfg['real']:
            self.par = vb.VectorParam('x', n)
            self.f = Quartic(self.par, np.array(self.A))
            self.objective = obj_lib.Objective(self.par, self.f)
            self.hvp = self.objective.fun_free_hvp
        else:
            self.hvp = Product(np.array(self.A))
        HOOK.dt = 0.
        HOOK.on_call = self.tick
        self.jumps = {}
        self.calls = 0
        self.cg = cg_lib.ConjugateGradientSolver(self.hvp, self.buf)
        self.recs = []
        self.M = None
        self.check()

    def give(self, arr, dtype=float):
        arr = self.hand(arr, self.given, dtype)
        self.given.append([arr, np.array(arr)])
        return arr

    def tick(self, functor):
        seams.CLOCK.advance(self.cfg['dt'])
        j = self.jumps.pop(self.calls, None)
        if j is not None:
            seams.CLOCK.step_wall(j)
            self.ctx.fired('clock-jump:' + ('back' if j < 0 else 'forward'))
        self.calls += 1

    def expected(self, v, x0=None):
        """Solution, status and number of products of one solve."""
        count = [0]

        # the same arithmetic as the library's caller, so that the number of
        # iterations agrees to the last one
        def mv(u):
            count[0] += 1
            if self.cfg['real']:
                return pure_hvp(self.A, self.x0, u)
            return self.A.dot(u) + 3. * self.x0 ** 2 * u
        op = spl.LinearOperator((self.n, self.n), mv, dtype=float)
        x, info = spl.cg(op, v, x0=x0, tol=self.cg.tol, M=self.M)
        return x, info, count[0]

    def solve(self, op):
        """One call over several masks; after a failure the harness continues
        with the remaining ones."""
        n = self.n
        masks = build_masks(op['masks'], n)
        if op.get('via_lib') and op['masks'][0] == 'blocks':
            masks = cg_lib.get_masks(n, op['masks'][1])
            check_masks(masks, n, op['masks'][1])
        vec = spot(op['s'], n)
        if op.get('zeros'):
            vec[op['s'] % n] = 0.
        want = []
        for m in masks:
            mv = np.where(m, vec, 0.)
            x, info, calls = self.expected(mv)
            want.append([np.array(m), mv, x, info, calls])
        todo = list(range(len(masks)))
        fault = op.get('f')
        out = op.get('out')
        first = True
        while todo:
            sub = [self.give(masks[i], bool) for i in todo]
            if op.get('aslist'):
                # a sequence of the caller's that is reused afterwards
                pass
            gv = self.give(vec)
            stream = seams.SimStream()
            stream.on_fire = self.ctx.fired
            if self.cfg['out_dt']:
                w = stream.write

                def write(s, w=w):
                    seams.CLOCK.advance(self.cfg['out_dt'])
                    return w(s)
                stream.write = write
            HOOK.disarm()
            if fault and first:
                HOOK.arm_fault(fault['at'], fault['kind'], fault['pos'])
            if out and first:
                stream.fail_at, stream.fail_kind = out
            self.jumps = {self.calls + int(k): v
                          for k, v in (op.get('jump') or {}).items()} \
                if first else {}
            c0 = self.calls
            armed_out = stream.fail_at is not None
            try:
                with seams.Stdout(stream):
                    self.ctx.invoke(
                        self.cg.get_hinv_vec_subsets, gv, sub,
                        verbose=bool(op.get("verbose")),
                        print_every=op.get('every', 10))
                st = 'ok'
            except Violation:
                raise
            except BaseException as e:
                if not (isinstance(e, core.SimFault) or
                        core.in_repo(e.__traceback__)):
                    raise
                st = e
            failed_call = HOOK.exc is not None
            fired = failed_call or \
                (armed_out and stream.fail_at is None)
            HOOK.disarm()
            HOOK.exc = None
            self.ctx.mark('solve', len(sub), 'x' if fired else '')
            self.ctx.ev('solve', len(sub), 'ok' if st == 'ok' else 'exc')
            if st != 'ok' and not fired:
                raise Violation('unexpected-exception', '%r at %s' %
                                (st, core.where(st)))
            if st == 'ok' and fired:
                raise Violation('fault-swallowed', 'get_hinv_vec_subsets')
            if not op.get('verbose') and stream.getvalue():
                raise Violation('unwanted-output', stream.getvalue()[:80])
            self.ctx.note(self.cg.hinv_vecs, self.cg.cg_infos)
            done = len(todo)
            if st != 'ok':
                # how many solves had all their products served: a solve
                # without products (a zero vector) is done if a later one
                # has begun
                good = self.calls - c0 - (1 if failed_call else 0)
                low = done = 0
                for i in todo:
                    if want[i][4] > good:
                        break
                    good -= want[i][4]
                    done += 1
                    if want[i][4]:
                        low = done
                got = len(self.cg.times) - len(self.recs)
                if not failed_call and low <= got <= done:
                    done = got
                self.ctx.probe('aborted-after-%d' % min(done, 3))
            for i in todo[:done]:
                m, mv, x, info, calls = want[i]
                self.recs.append([m, mv, x, info,
                                  calls * self.cfg['dt']])
            todo = todo[done:]
            if st != 'ok':
                # what the caller does about the rest: the same again, other
                # subsets first, or not the one that failed
                if op.get('after') == 'reverse':
                    todo = todo[::-1]
                elif op.get('after') == 'skip':
                    todo = todo[1:]
                elif op.get('after') == 'leave':
                    todo = []
            self.check()
            if st != 'ok' and not first:
                raise Violation('unexpected-exception', repr(st))
            first = False

    def check(self):
        g = self.cg
        n = [len(g.masks), len(g.vecs), len(g.hinv_vecs), len(g.cg_infos),
             len(g.times)]
        if len(set(n)) != 1:
            raise Violation('misaligned-records', 'lengths %s' % n)
        if n[0] != len(self.recs):
            raise Violation('wrong-record-count', '%d records, expected %d' %
                            (n[0], len(self.recs)))
        for i, (m, v, x, info, t) in enumerate(self.recs):
            if not np.array_equal(np.asarray(g.masks[i]), m):
                raise Violation('wrong-mask', 'record %d: %s, expected %s' %
                                (i, g.masks[i], m))
            if not plain(g.vecs[i]) or not np.array_equal(g.vecs[i], v):
                raise Violation('wrong-vec', 'record %d: %s, expected %s' %
                                (i, g.vecs[i], v))
            if g.cg_infos[i] != info:
                raise Violation('wrong-info', 'record %d: %s, expected %s' %
                                (i, g.cg_infos[i], info))
            if not plain(g.hinv_vecs[i]) or not same(g.hinv_vecs[i], x):
                raise Violation('wrong-solution', 'record %d: %s, expected %s'
                                % (i, g.hinv_vecs[i], x))
            if not seams.CLOCK.drag and not seams.CLOCK.wander and \
                    abs(g.times[i] - t) > 1e-6:
                raise Violation('wrong-time', 'record %d: %s s, expected %s' %
                                (i, g.times[i], t))
        for arr, snap in self.given:
            if not np.array_equal(arr, snap):
                raise Violation('argument-modified', 'a vector or mask given '
                                'to the solver was modified')

    def apply(self, op):
        o = op['o']
        self.begin(op)
        if o == 'solve':
            return self.solve(op)
        self.ctx.mark(o)
        self.ctx.ev(o)
        if o == 'reset':
            self.cg.initialize()
            self.recs = []
        elif o == 'clobber':
            for arr, snap in self.given:
                if not np.array_equal(arr, snap):
                    raise Violation('argument-modified', 'solver argument')
                if arr.flags.writeable:
                    arr[...] = op['v'] if arr.dtype != bool else op['v'] > 0
            self.given = []
            self.ctx.fired('buffer-overwrite')
        elif o == 'tol':
            self.cg.tol = op['tol']
            if self.cfg['real']:
                self.cg.tol = max(op['tol'], 1e-10)
        elif o == 'prec':
            d = np.abs(rnd_vec(op['s'], self.n)) + .2
            self.M = np.diag(d) if op['s'] % 3 else None
            self.cg.preconditioner = None if self.M is None else \
                np.array(self.M)
        elif o == 'one':
            v = spot(op['s'], self.n)
            x0 = rnd_vec(op['s'] + 3, self.n) if op['s'] % 2 else None
            x, info, calls = self.expected(v, x0)
            HOOK.disarm()
            gx = None if x0 is None else self.give(x0)
            r, ri = self.ctx.invoke(self.cg.get_hinv_vec, self.give(v),
                                    x0=gx)
            if ri != info or not plain(r) or not same(r, x):
                raise Violation('wrong-solution', '%s (%s), expected %s (%s)'
                                % (r, ri, x, info))
            if ri == 0 and np.linalg.norm(self.H.dot(r) - v) > \
                    4 * self.cg.tol * np.linalg.norm(v) + 1e-9:
                raise Violation('not-solved', 'residual %g' %
                                np.linalg.norm(self.H.dot(r) - v))
        elif o == 'move' and self.cfg['real']:
            self.par.set_free(rnd_vec(op['s'], self.n))
        elif o == 'jump':
            seams.CLOCK.step_wall(op['dt'])
            self.ctx.fired('clock-jump:' +
                           ('back' if op['dt'] < 0 else 'forward'))
        self.check()


def same(a, b):
    if np.isnan(b).any():
        return bool(np.isnan(a).any())
    return bool(np.max(np.abs(a - b)) <= 1e-8 * max(1., np.max(np.abs(b))))


def check_masks(masks, n, size):
    pos = 0
    for m in masks:
        m = np.asarray(m)
        if m.shape != (n,) or m.dtype != bool:
            raise Violation('wrong-masks', 'mask %r' % (m,))
        idx = np.flatnonzero(m)
        if len(idx) == 0 or len(idx) > size or idx[0] != pos or \
                idx[-1] != pos + len(idx) - 1:
            raise Violation('wrong-masks', 'blocks of at most %d of %d: %s' %
                            (size, n, [np.flatnonzero(q).tolist()
                                       for q in masks]))
        pos += len(idx)
    if pos != n:
        raise Violation('wrong-masks', 'masks cover %d of %d' % (pos, n))


def gen_op(rng, n, p_fault=.3, jumps=False):
    r = rng.random()
    if r < .6:
        op = {'o': 'solve', 'masks': gen_masks(rng, n),
              's': rng.randint(0, 999), 'via_lib': rng.random() < .5,
              'zeros': rng.random() < .15,
              'after': rng.choice(['retry', 'reverse', 'skip', 'leave'])}
        if rng.random() < .5:
            op['verbose'] = True
            op['every'] = rng.choice([1, 2, 10])
        q = rng.random()
        if q < p_fault:
            op['f'] = {'at': rng.choice([0, 1, 2, 3, 5, 8, 12]),
                       'kind': rng.choice(core.FAULT_KINDS),
                       'pos': rng.choice(['pre', 'post'])}
        elif q < p_fault * 1.5 and op.get('verbose'):
            op['out'] = [rng.randint(0, 4),
                         rng.choice(['EPIPE', 'ENOSPC', 'short', 'EIO'])]
        if jumps and rng.random() < .8:
            op['jump'] = {str(rng.randint(0, 12)):
                          rng.choice([-3600., 7200., -.3, -86400., 1e6, 40.])
                          for _ in range(rng.randint(1, 3))}
        return op
    return rng.choice([
        {'o': 'reset'}, {'o': 'one', 's': rng.randint(0, 999)},
        {'o': 'one', 's': rng.randint(0, 999)},
        {'o': 'clobber', 'v': round(rng.uniform(-5, 5), 2)},
        {'o': 'tol', 'tol': rng.choice([1e-8, 1e-5, 1e-2, 1e-10, 1e-30])},
        {'o': 'prec', 's': rng.randint(0, 999)},
        {'o': 'move', 's': rng.randint(0, 999)},
        {'o': 'jump', 'dt': rng.choice([-3600., 500.])}])
