"""C15: a session restarted from saved parameters continues as before."""
import importlib
import json

import numpy as np
import json_tricks

import LinearResponseVariationalBayes as vb

from sim import core, models, seams
from sim.core import Violation
from sim.functors import Functor, core_fun, make_data
from sim.models import close, plain, rnd_vec

FORMATS = ['free', 'vector', 'dict']


def gen(rng, tier):
    for _ in range(200):
        spec = models.gen_param(rng, 'theta', .6)
        if models.Node(spec).free_size <= 10:
            break
    ints = []

    def visit(s):
        if s['k'] in ('scalar', 'vector', 'array'):
            if rng.random() < .5:
                s['default'] = True
            # an integer inside the bounds, if there is one
            lb, ub = models._bound(s)
            k = rng.randint(-3, 3) if lb == -models.INF and ub == models.INF \
                else int(np.ceil(lb)) + 1 if ub == models.INF \
                else int(np.floor(ub)) - 1 if lb == -models.INF \
                else int(np.floor((lb + ub) / 2))
            if lb < k < ub and rng.random() < .35:
                ints.append([s['name'], k, rng.choice(['int', 'np'])])
        for c in s.get('ch', []):
            visit(c)
    visit(spec)
    plan = {'cfg': {'spec': spec, 'ints': ints, 'seed': rng.randint(0, 999),
                    'start': rng.choice(['default', 'set', 'ints'])},
            'ops': []}
    n = rng.randint(3, 8 if tier == 'quick' else 20)
    for i in range(n):
        plan['ops'].append({'o': 'step', 'k': rng.choice(
            ['free', 'vec', 'val', 'grad', 'trans', 'view']),
            's': rng.randint(0, 999)})
        r = rng.random()
        if r < .6:
            op = {'o': 'save', 'fmt': rng.choice(FORMATS),
                  'enc': rng.choice(['json', 'json', 'tricks'])}
            q = rng.random()
            if q < .1:
                op['w'] = rng.choice(['ENOSPC', 'short'])
            elif q < .15:
                op['sync'] = 'EIO'
            elif q < .3:
                op['crash'] = rng.choice(['read', 'written', 'synced',
                                          'renamed'])
            elif q < .38:
                op['line'] = rng.randint(0, 40)
            plan['ops'].append(op)
        elif r < .75:
            plan['ops'].append({'o': 'crash', 'line': rng.choice(
                [0, 1, 2, 4, 8, 16, 32, 64, 128])})
    plan['ops'].append({'o': 'save', 'fmt': rng.choice(FORMATS),
                        'enc': 'json'})
    plan['cfg']['fresh'] = rng.random() < .35
    return plan


class Machine(object):
    """The computation: one parameter, stepped deterministically."""

    def __init__(self, node, lib):
        self.node = node
        self.par = node.build(lib)
        self.lib = lib
        self.i = 0
        self.out = []

    def leafs(self):
        for l in self.node.leaves:
            yield l, self.node.get_real(self.par, l.path)

    def set_ints(self, ints):
        for l, real in self.leafs():
            for name, k, how in ints:
                if l.name == name and hasattr(l, 'lb') and \
                        l.lb < k < l.ub:
                    if l.shape == ():
                        real.set(int(k) if how == 'int' else np.int64(k))
                    else:
                        real.set(np.full(l.shape, k))

    def step(self, op, data):
        k, par, node = op['k'], self.par, self.node
        drift = rnd_vec(op['s'], node.free_size)
        if k == 'free':
            z = par.get_free()
            par.set_free(.6 * z + .3 * np.sin(z + drift))
        elif k == 'grad':
            lib = importlib.import_module(
                'LinearResponseVariationalBayes.SparseObjectives')
            ob = lib.Objective(par, Functor([(par, 'free')], data))
            z = par.get_free()
            z = np.array(z, dtype=float)
            g = ob.fun_free_grad(z)
            par.set_free(.7 * z - .2 * np.tanh(g))
            self.out.append(float(ob.fun_free(par.get_free())))
        elif k == 'vec':
            z = par.get_free() * .5
            par.set_vector(np.array(node.join(node.split(z, True), False),
                                    dtype=float))
        elif k == 'trans':
            z = par.get_free()
            J = par.free_to_vector_jac(np.array(z, dtype=float))
            par.set_free(.8 * z + .1 * np.tanh(J.sum()))
            self.out.append(float(J.sum()))
        elif k in ('val', 'view'):
            o = 0
            z = par.get_free()
            for l, real in self.leafs():
                part = .7 * z[o:o + l.free_size] + .1
                o += l.free_size
                v = np.array(l.free2val(part))
                v = float(v) if v.shape == () else v
                if k == 'view' and '/' in l.path:
                    up = node.get_real(par, l.path.rsplit('/', 1)[0])
                    up.get()[l.name] = v
                else:
                    real.set(v)
        self.i += 1

    def state(self):
        vals = {}
        for l, real in self.leafs():
            v = real.get()
            if not plain(v):
                raise Violation('not-numeric', l.path)
            vals[l.path] = np.reshape(np.array(v, dtype=float), l.shape)
        return {'vals': vals, 'vec': np.array(self.par.get_vector()),
                'free': np.array(self.par.get_free())}

    def dump(self, fmt, enc):
        x = self.par.dictval() if fmt == 'dict' else \
            self.par.get_free() if fmt == 'free' else self.par.get_vector()
        rec = {'i': self.i, 'fmt': fmt, 'out': list(self.out), 'enc': enc}
        if fmt != 'dict':
            x = np.asarray(x)
            x = x.tolist() if enc == 'json' else x
        rec['x'] = json_tricks.dumps(x) if enc == 'tricks' else x
        return json.dumps(rec).encode()

    def load(self, raw):
        rec = json.loads(raw.decode())
        x = rec['x']
        if rec['enc'] == 'tricks':
            x = json_tricks.loads(x)
        fmt = rec['fmt']
        if fmt == 'dict':
            restore_dict(self.par, x)
        elif fmt == 'free':
            self.par.set_free(np.array(x))
        else:
            self.par.set_vector(np.array(x))
        self.i, self.out = rec['i'], list(rec['out'])


def restore_dict(par, x):
    if isinstance(x, dict):
        for name, v in x.items():
            restore_dict(par[name], v)
    else:
        par.set(np.array(x) if isinstance(x, list) else x)


def compare(a, b, tol, what):
    for p in sorted(b['vals']):
        if not close(a['vals'][p], b['vals'][p], tol, tol) if tol else \
                not np.array_equal(a['vals'][p], b['vals'][p]):
            raise Violation('state-lost', '%s: %s = %s, expected %s' %
                            (what, p, a['vals'][p], b['vals'][p]))
    for k in ('vec', 'free'):
        t = max(tol, 0. if k == 'vec' else 1e-12 if tol == 0 else 1e-10)
        if not close(a[k], b[k], t, t) if t else \
                not np.array_equal(a[k], b[k]):
            raise Violation('state-lost', '%s: %s %s, expected %s' %
                            (what, k, a[k], b[k]))


def run(plan, ctx):
    cfg = plan['cfg']
    node = models.Node(cfg['spec'])
    data = make_data(cfg['seed'], node.free_size)
    steps = [op for op in plan['ops'] if op['o'] == 'step']

    def start(lib=vb):
        m = Machine(node, lib)
        if cfg['start'] == 'set':
            m.par.set_free(node.legal_vec(cfg['seed'], True))
        elif cfg['start'] == 'ints':
            m.set_ints(cfg['ints'])
        return m
    # the uninterrupted computation
    twin = start()
    twin_states = [twin.state()]
    for op in steps:
        twin.step(op, data)
        twin_states.append(twin.state())
    twin_out = twin.out

    disk = seams.SimDisk(ctx.fired)
    m = start()
    compare(m.state(), twin_states[0], 1e-12, 'construction')
    check_roundtrip(ctx, node, m, 'all')
    new_process = []

    def restart():
        """A new process: everything volatile is gone."""
        while new_process:
            new_process.pop().__exit__()
        lib = vb
        if cfg['fresh']:
            np_ = seams.NewProcess()
            lib = np_.__enter__()
            new_process.append(np_)
        else:
            seams.reset_process_state()
        m = start(lib)
        raw = disk.read('ckpt')
        if raw is not None:
            m.load(raw)
            ctx.probe('restored')
        else:
            ctx.probe('restarted-from-scratch')
        compare(m.state(), twin_states[m.i], 1e-7, 'restart at step %d' % m.i)
        catch_up(m)
        return m

    def catch_up(m):
        while m.i < pos[0]:
            m.step(steps[m.i], data)
            compare(m.state(), twin_states[m.i], 1e-6,
                    'step %d after a restart' % m.i)

    pos = [0]
    try:
        for op in plan['ops']:
            o = op['o']
            ctx.mark(o, op.get('k', op.get('fmt', '')),
                     *sorted(k for k in ('w', 'sync', 'crash', 'line')
                             if k in op))
            if o == 'step':
                pos[0] += 1
                catch_up(m)
            elif o == 'crash':
                # dies somewhere inside the next step
                nxt = steps[pos[0] % len(steps)]
                try:
                    with seams.LineInterrupt(op['line'], core.SimCrash(),
                                             ctx.fired):
                        m.step(nxt, data)
                except core.SimCrash:
                    pass
                disk.crash()
                m = restart()
            else:
                m = save(ctx, disk, node, m, op, restart)
            ctx.ev(o, m.i, [float('%.9g' % v) for v in m.out])
        compare(m.state(), twin_states[-1], 1e-6, 'the end')
        if not close(np.array(m.out), np.array(twin_out), 1e-6, 1e-8):
            raise Violation('results-differ', '%s, uninterrupted %s' %
                            (m.out, twin_out))
        # finally, restart once more from what is on disk
        disk.crash()
        m = restart()
        compare(m.state(), twin_states[-1], 1e-6, 'the last restart')
    finally:
        while new_process:
            new_process.pop().__exit__()


def check_roundtrip(ctx, node, m, which):
    s0 = m.state()
    for fmt in FORMATS if which == 'all' else [which]:
        for enc in ('json', 'tricks'):
            try:
                raw = m.dump(fmt, enc)
            except (TypeError, ValueError) as e:
                raise Violation('not-serialisable', '%s: %s' % (fmt, e))
            c = Machine(node, m.lib)
            c.load(raw)
            # exactly, except through the nonlinear free coordinates
            compare(c.state(), s0, 1e-9 if fmt == 'free' else 0.,
                    'saved as ' + fmt)
    s1 = m.state()
    compare(s1, s0, 0., 'reading changed the state')


def save(ctx, disk, node, m, op, restart):
    try:
        if 'line' in op:
            with seams.LineInterrupt(op['line'], core.SimCrash(),
                                     ctx.fired):
                raw = m.dump(op['fmt'], op['enc'])
        else:
            raw = m.dump(op['fmt'], op['enc'])
            check_roundtrip(ctx, node, m, op['fmt'])
    except core.SimCrash:
        disk.crash()
        return restart()
    except (TypeError,) as e:
        raise Violation('not-serialisable', '%s: %s' % (op['fmt'], e))
    c = op.get('crash')
    try:
        if c == 'read':
            disk.crash()
            return restart()
        disk.write('tmp', raw, op.get('w'))
        if c == 'written':
            disk.crash(.5)
            return restart()
        disk.fsync('tmp', op.get('sync'))
        if c == 'synced':
            disk.crash()
            return restart()
        disk.rename('tmp', 'ckpt')
        ctx.probe('saved')
        if c == 'renamed':
            disk.crash()
            return restart()
    except OSError as e:
        if not isinstance(e, core.SimFault):
            raise
        ctx.probe('save-failed')
    return m
