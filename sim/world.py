"""A session: real parameters and clients next to their reference state.

Every operation is executed on the real objects and on the reference, and the
whole visible state is compared after it.  Sessions can be deep-copied, which
gives a second session whose real objects are the copies.
"""
import copy

import autograd
import autograd.numpy as anp
import numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.Parameters as par_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

from . import core, models, seams
from .core import Violation
from .functors import (HOOK, ConverterFunctor, Functor, RefFunctor,
                       converter_map, make_data, read_ref)
from .models import close, plain, rnd_vec, spot


def num(x):
    return np.array(x, dtype=float)


# --------------------------------------------------------------- generation

def twin(rng, specs):
    """Another component like one there is, under its own name."""
    def leaves(ss):
        for s in ss:
            if s['k'] == 'dict':
                for x in leaves(s['ch']):
                    yield x
            else:
                yield s
    ls = list(leaves(specs))
    arrays = [s for s in ls if s['k'] != 'scalar']
    new = copy.deepcopy(rng.choice(arrays or ls))
    new['name'] = 'tw'
    dicts = [s for s in specs if s['k'] == 'dict']
    if dicts and rng.random() < .6:
        rng.choice(dicts)['ch'].append(new)
    else:
        specs.append(new)


def gen_cfg(rng, nparam=None, nclient=None, max_free=9, types=None,
            kinds=None, p_comp=.5, p_twin=0.):
    """Random parameters and clients over them."""
    for _ in range(200):
        specs = []
        for i in range(nparam or rng.choice([1, 2, 2, 3])):
            if kinds:
                specs.append(models.gen_leaf(rng, 'p%d' % i, kinds))
            else:
                specs.append(models.gen_param(rng, 'p%d' % i, p_comp))
        if p_twin and rng.random() < p_twin:
            twin(rng, specs)
        nodes = [models.Node(s) for s in specs]
        if sum(n.free_size for n in nodes) <= max_free:
            break
    allnodes = [n for t in nodes for n in t.all_nodes()]
    clients = []
    for i in range(nclient if nclient is not None else rng.choice([1, 2, 3])):
        clients.append(gen_client(rng, nodes, allnodes, 'c%d' % i, types))
    return {'params': specs, 'clients': [c for c in clients if c]}


def disjoint(a, b):
    return not (set(l.path for l in a.leaves) & set(l.path for l in b.leaves))


def gen_reads(rng, nodes, allnodes, must):
    """What the user's function reads: everything in `must`, ambient others."""
    reads = []
    for n in must:
        reads.append([n.path, gen_how(rng, n)])
    for n in rng.sample(allnodes, min(len(allnodes), rng.randint(0, 2))):
        reads.append([n.path, gen_how(rng, n)])
    rng.shuffle(reads)
    return reads


def gen_how(rng, node):
    if node.leaf is not None:
        return rng.choice(['value', 'value', 'vector', 'vector', 'free'])
    return rng.choice(['vector', 'named', 'named', 'free'])


def gen_client(rng, nodes, allnodes, name, types=None):
    t = rng.choice(types or ['obj', 'obj', 'obj', 'vec', 'two', 'two', 'conv',
                             'conv'])
    c = {'name': name, 't': t, 'seed': rng.randint(0, 999)}
    if t in ('obj', 'vec'):
        n = rng.choice(allnodes if rng.random() < .3 else nodes)
        c['par'] = n.path
        c['reads'] = gen_reads(rng, nodes, allnodes, [n])
        return c
    pairs = [(a, b) for a in allnodes for b in allnodes
             if a is not b and disjoint(a, b)]
    if not pairs:
        c['t'] = 'obj'
        n = rng.choice(nodes)
        c['par'] = n.path
        c['reads'] = gen_reads(rng, nodes, allnodes, [n])
        return c
    a, b = rng.choice(pairs)
    c['par'], c['par2'] = a.path, b.path
    if t == 'two':
        c['reads'] = gen_reads(rng, nodes, allnodes, [a, b])
    else:
        others = [n for n in allnodes if disjoint(n, b)]
        c['reads'] = gen_reads(rng, nodes, others, [a])
        c['mode'] = rng.choice(['whole', 'parts'])
        if b.leaf is not None and b.spec['k'] == 'vector' and \
                'lb' not in b.spec and 'ub' not in b.spec:
            c['mode'] = 'byval'
    return c


OBJ_METHODS = ['fun_free', 'fun_vector', 'fun_free_grad', 'fun_vector_grad',
               'fun_free_hessian', 'fun_vector_hessian', 'fun_free_hvp',
               'fun_vector_hvp', 'fun_free_jacobian', 'fun_vector_jacobian']
VEC_METHODS = ['fun_free', 'fun_vector', 'fun_free_jacobian',
               'fun_vector_jacobian']
TWO_METHODS = ['fun_free', 'fun_vector', 'eval_fun', 'fun_grad1', 'fun_grad2',
               'fun_free_hessian12', 'fun_free_hessian21',
               'fun_vector_hessian12', 'fun_vector_hessian21',
               'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2']
CONV_METHODS = ['converter_free_to_vec', 'converter_free_to_free',
                'converter_vec_to_vec', 'converter_vec_to_free',
                'free_to_free_jacobian', 'free_to_vec_jacobian',
                'vec_to_free_jacobian', 'vec_to_vec_jacobian']
COND_METHODS = ['fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond',
                'fun_free_hvp_cond']
METHODS = {'obj': OBJ_METHODS, 'vec': VEC_METHODS, 'two': TWO_METHODS,
           'conv': CONV_METHODS}
DERIV = set(m for ms in METHODS.values() for m in ms) - {
    'fun_free', 'fun_vector', 'eval_fun', 'converter_free_to_vec',
    'converter_free_to_free', 'converter_vec_to_vec', 'converter_vec_to_free'}


def gen_eval(rng, cfg, client=None, methods=None, p_fault=.2, p_bad=.05,
             p_int=0.0):
    c = client or rng.choice(cfg['clients'])
    ms = METHODS[c['t']]
    if methods:
        ms = [m for m in ms if m in methods] or ms
    m = rng.choice(ms)
    if 'hessian' in m and rng.random() < .4:
        m = rng.choice(ms)
    op = {'o': 'eval', 'c': c['name'], 'm': m, 's': rng.randint(0, 999)}
    if c['t'] == 'two':
        op['s2'] = rng.randint(0, 999)
        if m in ('eval_fun', 'fun_grad1', 'fun_grad2'):
            op['fr'] = [rng.random() < .5, rng.random() < .5]
    if 'hvp' in m:
        op['sv'] = rng.randint(0, 999)
    if c['t'] != 'conv':
        if rng.random() < .25:
            op['a'] = [round(rng.uniform(-.9, .9), 2)]
        if rng.random() < .25:
            op['k'] = {'shift': round(rng.uniform(-1, 1), 2)}
    r = rng.random()
    if r < p_fault:
        op['f'] = {'at': 0, 'kind': rng.choice(core.FAULT_KINDS),
                   'pos': rng.choice(['pre', 'post', 'post'])}
    elif r < p_fault + p_bad:
        op['bad'] = rng.choice([-1, 1, 2])
    elif r < p_fault + p_bad + p_int:
        op['int'] = rng.choice([rng.randint(0, 12), rng.randint(0, 80)])
    return op


def gen_trap(rng, cfg, client=None):
    """The same question before and after a change of something else that
    the answer depends on."""
    c = client or rng.choice(cfg['clients'])
    ev = gen_eval(rng, cfg, c, p_fault=0., p_bad=0.)
    ops = [ev]
    for _ in range(rng.choice([1, 1, 2])):
        own = [c['par']] + ([c['par2']] if 'par2' in c else [])
        nodes = [models.Node(s) for s in cfg['params']]
        reads = [n for t in nodes for n in t.all_nodes()
                 if any(n.path == p or n.path.startswith(p + '/')
                        for p, _ in c['reads'])]
        other = [n for n in reads
                 if not any(n.path == p or n.path.startswith(p + '/') or
                            p.startswith(n.path + '/') for p in own)]
        r = rng.random()
        if other and r < .5:
            n = rng.choice(other)
            ops.append({'o': 'write', 'p': n.path, 's': rng.randint(0, 999),
                        'via': rng.choice(['free', 'vec'] + (
                            ['set'] if n.leaf is not None else []))})
        elif r < .85:
            ops.append({'o': 'setdata', 'c': c['name'],
                        's': rng.randint(0, 999),
                        'inplace': rng.random() < .5})
        elif c['t'] == 'conv':
            ops.append({'o': 'write', 'p': c['par2'], 'via': 'free',
                        's': rng.randint(0, 999)})
        else:
            ops.append(gen_write(rng, cfg))
        again = copy.deepcopy(ev)
        if c['t'] != 'conv' and rng.random() < .3:
            again['a'] = [round(rng.uniform(-.9, .9), 2)]
        if c['t'] != 'conv' and rng.random() < .3:
            again['k'] = {'shift': round(rng.uniform(-1, 1), 2)}
        ops.append(again)
    return ops


def gen_write(rng, cfg):
    """A write to a random node by a random route."""
    nodes = [models.Node(s) for s in cfg['params']]
    alln = [n for t in nodes for n in t.all_nodes()]
    n = rng.choice(alln)
    route = rng.choice(['free', 'vec', 'ftv'])
    if n.leaf is not None:
        route = rng.choice(['free', 'vec', 'set', 'set', 'ftv'] +
                           (['view', 'view'] if n.parent else []))
    return {'o': 'write', 'p': n.path, 'via': route, 's': rng.randint(0, 999)}


def gen_trans(rng, cfg):
    nodes = [models.Node(s) for s in cfg['params']]
    alln = [n for t in nodes for n in t.all_nodes()]
    n = rng.choice(alln)
    return {'o': 'trans', 'p': n.path,
            'm': rng.choice(['free_to_vector_jac', 'free_to_vector_hess',
                             'convert', 'convert_sparse']),
            's': rng.randint(0, 999)}


# ------------------------------------------------------------------ session

class Session(core.Giver):
    def __init__(self, ctx, roots, vals, tag='A'):
        self.ctx = ctx
        self.tag = tag
        self.roots = roots            # [(Node, real object)]
        self.vals = vals              # {leaf path: ndarray | None unknown}
        self.clients = {}
        self.nofree = False
        self.pool = []                # vectors shared with the library
        self.alias = False
        self.held = {}                # by-name views taken early

    # -- construction
    @staticmethod
    def build(ctx, cfg, tag='A'):
        roots, vals = [], {}
        for s in cfg['params']:
            node = models.Node(s)
            roots.append((node, node.build(vb)))
        ses = Session(ctx, roots, vals, tag)
        for i, (node, real) in enumerate(roots):
            z = node.legal_vec(100 + i, True)
            real.set_free(z)
            vals.update({k: num(v) for k, v in node.split(z, True).items()})
        for sh in cfg.get('shared', []):
            ses.add_shared(sh)
        for c in cfg.get('clients', []):
            ses.add_client(c)
        return ses

    def add_shared(self, sh):
        """A second composite over components that belong to others."""
        d = vb.ModelParamsDict(sh['name'])
        kids = []
        for path in sh['paths']:
            n = self.node(path)
            if n.name in [k.name for k in kids]:
                continue
            kids.append(n)
            d.push_param(self.real(path))
        node = models.Node({'k': 'dict', 'name': sh['name'],
                            'ch': [k.spec for k in kids]})
        for mine, orig in zip(node.kids, kids):
            models.alias_leaves(mine, orig)
        self.roots.append((node, d))

    def node(self, path):
        for root, real in self.roots:
            for n in root.all_nodes():
                if n.path == path:
                    return n
        raise KeyError(path)

    def real(self, path):
        for root, real in self.roots:
            if path == root.path or path.startswith(root.path + '/'):
                return root.get_real(real, path)
        raise KeyError(path)

    def has(self, path):
        try:
            self.node(path)
            return True
        except KeyError:
            return False

    def data_for(self, c):
        m = 0
        for path, how in c['reads']:
            n = self.node(path)
            m += n.free_size if how == 'free' else \
                n.vec_size if how == 'vector' else \
                sum(l.size() for l in n.leaves)
        nout = self.node(c['par2']).free_size if c['t'] == 'conv' else 3
        return make_data(c['seed'], m, nout)

    def add_client(self, c):
        data = self.data_for(c)
        reads = [(self.real(p), how) for p, how in c['reads']]
        rreads = [(self.node(p), how) for p, how in c['reads']]
        t = c['t']
        e = {'cfg': c, 't': t, 'log': [], 'prec': None, 'printed': 0,
             'node': self.node(c['par']), 'data': copy.deepcopy(data)}
        if t in ('obj', 'vec'):
            kind = 'vec' if t == 'vec' else 'num'
            e['f'] = Functor(reads, data, kind)
            e['ref'] = RefFunctor(rreads, e['data'], kind)
            e['real'] = obj_lib.Objective(self.real(c['par']), e['f'])
        elif t == 'two':
            e['f'] = Functor(reads, data)
            e['ref'] = RefFunctor(rreads, e['data'])
            e['node2'] = self.node(c['par2'])
            e['real'] = obj_lib.TwoParameterObjective(
                self.real(c['par']), self.real(c['par2']), e['f'])
        else:
            e['node2'] = self.node(c['par2'])
            e['rreads'] = rreads
            e['f'] = ConverterFunctor(reads, self.real(c['par2']), c['mode'],
                                      data)
            e['real'] = obj_lib.ParameterConverter(
                self.real(c['par']), self.real(c['par2']), e['f'])
        self.clients[c['name']] = e
        return e

    # -- deep copies
    def clone(self, what, tag):
        """Deep-copy everything, one client, or one root parameter."""
        if what == 'all':
            names, roots = list(self.clients), list(self.roots)
        elif what in self.clients:
            names = [what]
            c = self.clients[what]['cfg']
            paths = [c['par']] + ([c['par2']] if 'par2' in c else []) + \
                [p for p, _ in c['reads']]
            paths = [p for p in set(paths)
                     if not any(p != q and p.startswith(q + '/')
                                for q in paths)]
            roots = [(self.node(p), self.real(p)) for p in sorted(paths)]
        else:
            names = []
            roots = [(n, r) for n, r in self.roots if n.path == what]
            if not roots:
                roots = [(self.node(what), self.real(what))]
        first = self.clients[names[0]]['real'] if names else roots[0][1]
        bundle = {'first': first, 'roots': [r for _, r in roots],
                  'clients': [self.clients[n]['real'] for n in names],
                  'fs': [self.clients[n]['f'] for n in names]}
        st, cp = self.call(copy.deepcopy, bundle)
        if st != 'ok':
            raise Violation('deepcopy-failed', repr(cp))
        keep = set(l.path for n, _ in roots for l in n.leaves)
        new = Session(self.ctx,
                      [(n, r) for (n, _), r in zip(roots, cp['roots'])],
                      {k: v for k, v in self.vals.items() if k in keep}, tag)
        new.nofree = self.nofree
        for n, real, f in zip(names, cp['clients'], cp['fs']):
            e = dict(self.clients[n])
            e['real'], e['f'] = real, f
            e['data'] = copy.deepcopy(e['data'])
            e['log'] = list(e['log'])
            e['prec'] = None if e['prec'] is None else np.array(e['prec'])
            if 'ref' in e:
                e['ref'] = RefFunctor(e['ref'].reads, e['data'],
                                      e['ref'].kind)
            new.clients[n] = e
        return new

    def index_param(self, path, tag):
        node, real = self.node(path), self.real(path)
        st, idx = self.call(obj_lib.make_index_param, real)
        if st != 'ok':
            raise Violation('index-param-failed', repr(idx))
        if idx is real:
            raise Violation('copy-shares', 'make_index_param returned itself')
        new = Session(self.ctx, [(node, idx)], {}, tag)
        new.nofree = True
        new.vals = {k: num(v) for k, v in node.split(
            np.arange(node.vec_size, dtype=float), False).items()}
        return new

    # -- calling the library
    def call(self, fn, *a, **k):
        try:
            return 'ok', self.ctx.invoke(fn, *a, **k)
        except Violation:
            raise
        except core.SimCrash:
            raise
        except BaseException as e:
            if not core.in_repo(e.__traceback__) and \
                    not isinstance(e, core.SimFault) and \
                    not _in_copy(e.__traceback__):
                raise
            return 'exc', e

    def give(self, arr):
        """A vector handed to the library (registered for aliasing checks)."""
        arr = self.hand(arr, self.pool)
        if self.alias:
            self.pool.append([arr, np.array(arr), 'given'])
        return arr

    def keep(self, r):
        """Register a flat vector the library handed out."""
        if self.alias and isinstance(r, np.ndarray):
            self.pool.append([r, np.array(r), 'returned'])

    # -- reference
    def put(self, node, z, free):
        self.vals.update({k: num(v)
                          for k, v in node.split(np.array(z, float),
                                                 free).items()})

    def unknown(self, node):
        for l in node.leaves:
            self.vals[l.path] = None

    def ensure_known(self, c):
        """Parameters whose state an interrupt made unknown are set anew
        before anyone reads them, as a user has to."""
        for root, real in self.roots:
            for l in root.leaves:
                if self.vals[l.path] is None:
                    z = rnd_vec(77, l.free_size)
                    st, r = self.call(self.real(l.path).set_free, z)
                    if st != 'ok':
                        raise Violation('reset-failed',
                                        '%s %r' % (l.path, r))
                    self.vals[l.path] = num(l.free2val(z))

    # -- operations
    def apply(self, op):
        self.ensure_known(None)
        self.begin(op)
        getattr(self, 'op_' + op['o'])(op)

    def op_write(self, op):
        if not self.has(op['p']):
            return
        node, real, via = self.node(op['p']), self.real(op['p']), op['via']
        self.ctx.mark('w', via, node.spec['k'])
        z = node.legal_vec(op['s'], True)
        if via == 'view' and node.path not in [r.path for r, _ in self.roots]:
            parent = self.real(node.path.rsplit('/', 1)[0])
            v = num(node.leaf.free2val(z))
            view = parent.get() if op['s'] % 2 else parent.values
            ppath = node.path.rsplit('/', 1)[0]
            if op['s'] % 3 == 0 and ppath in self.held:
                view = self.held[ppath]
            arg = float(v) if v.shape == () else self.value(node, v, op)
            st, r = self.call(view.__setitem__, node.name, arg)
            self.vals[node.leaf.path] = num(v)
        elif via in ('set', 'view') and node.leaf is not None:
            v = num(node.leaf.free2val(z))
            arg = float(v) if v.shape == () else self.value(node, v, op)
            st, r = self.call(real.set, arg)
            self.vals[node.leaf.path] = v
        elif via == 'vec':
            x = node.legal_vec(op['s'], False)
            st, r = self.call(real.set_vector, self.give(np.array(x)))
            self.put(node, x, False)
        elif via == 'ftv':
            st, r = self.call(real.free_to_vector, self.give(np.array(z)))
            self.put(node, z, True)
            if st == 'ok':
                self.keep(r)
                if not plain(r) or not close(
                        np.reshape(r, -1), node.legal_vec(op['s'], False)):
                    raise Violation('free_to_vector-result', '%s %r' %
                                    (node.path, r))
        else:
            st, r = self.call(real.set_free, self.give(np.array(z)))
            self.put(node, z, True)
        self.ctx.ev('write', op['p'], via, op['s'])
        if st != 'ok':
            raise Violation('write-refused', '%s via %s: %r %s' %
                            (op['p'], via, r, core.where(r)))

    def value(self, node, v, op):
        """A value to write: a new array, or the one written before to the
        same component, with the new contents."""
        if not op.get('buf'):
            return core.layout(np.array(v), op.get('lay'))
        key = ('value', node.path, v.shape)
        buf = self.__dict__.setdefault('bufs', {}).setdefault(
            key, np.array(v))
        buf[...] = v
        return buf

    def op_setdata(self, op):
        e = self.clients.get(op['c'])
        if e is None:
            return
        self.ctx.mark('setdata')
        new = make_data(op['s'], e['f'].data['A'].shape[1],
                        e['f'].data['A'].shape[0])
        if op.get('inplace'):
            for k in ('A', 'b', 'w'):
                e['f'].data[k][:] = new[k]
            e['f'].data['q'] = new['q']
        else:
            e['f'].data = new
        e['data'].clear()
        e['data'].update(copy.deepcopy(new))

    def point(self, node, seed, free, bad):
        z = node.legal_vec(seed, free)
        if bad:
            z = np.resize(z, max(0, z.size + bad)) if z.size + bad > 0 \
                else np.zeros(z.size + 3)
        return z

    def op_eval(self, op):
        e = self.clients.get(op['c'])
        if e is None:
            return
        m = op['m']
        if m not in METHODS[e['t']]:
            return
        bad = op.get('bad') or 0
        fault = op.get('f')
        self.ctx.mark('e', e['t'], m, 'x' if fault else
                      'b' if bad else 'i' if 'int' in op else '')
        args = list(op.get('a', []))
        kw = dict(op.get('k', {}))
        plan = self.plan_eval(e, op, m, bad)
        HOOK.disarm()
        if fault:
            HOOK.arm_fault(fault['at'], fault['kind'], fault['pos'])
        if 'int' in op:
            exc = core.SimKeyboardInterrupt('async')
            with seams.LineInterrupt(op['int'], exc, self.ctx.fired) as li:
                st, r = self.call(getattr(e['real'], m), *plan['argv'],
                                  **plan['kw'])
            HOOK.disarm()
            if li.hit:
                for n, z, fr in plan['sets']:
                    self.unknown(n)
                if e['t'] == 'conv':
                    self.unknown(e['node2'])
                if st == 'ok' and not plain(r):
                    raise Violation('result-not-numeric', '%s' % m)
                return
        else:
            st, r = self.call(getattr(e['real'], m), *plan['argv'],
                              **plan['kw'])
        fired = HOOK.exc if fault else None
        HOOK.disarm()
        HOOK.exc = None
        self.ctx.ev('eval', self.tag, op['c'], m, op['s'], st)
        if bad:
            if st == 'ok':
                raise Violation('misfit-accepted', '%s.%s accepted a point '
                                'of the wrong size' % (e['t'], m))
            for n, z, fr in plan['sets']:
                for l in n.leaves:
                    if not plain(self.real(l.path).get()):
                        raise Violation('not-numeric', '%s holds %s after a '
                                        'refused %s.%s' % (
                                            l.path, type(self.real(
                                                l.path).get()).__name__,
                                            e['t'], m))
            self.ctx.fired('misfit-point')
            return
        # reference state
        before_out = None
        for n, z, fr in plan['sets']:
            self.put(n, z, fr)
        if e['t'] == 'conv' and m.startswith('converter_'):
            if fired is None or fault['pos'] == 'post':
                self.put(e['node2'], self.ref_out(e), True)
        if fired is not None:
            if st == 'ok':
                raise Violation('fault-swallowed', '%s returned %r although '
                                'the user function raised' % (m, r))
            return
        if st != 'ok':
            raise Violation('unexpected-exception', '%s.%s raised %r at %s' %
                            (e['t'], m, r, core.where(r)))
        want = plan['want']()
        if not plain(r):
            raise Violation('result-not-numeric', '%s.%s returned %s' %
                            (e['t'], m, type(r).__name__))
        if m.startswith('converter_'):
            self.keep(r)
        if not close(r, want, 1e-6, 1e-8):
            raise Violation('wrong-result', '%s.%s = %s, expected %s' %
                            (e['t'], m, short(r), short(want)))

    def ref_out(self, e, vals=None):
        vals = vals or self.vals
        u = anp.concatenate([read_ref(n, how, vals)
                             for n, how in e['rreads']])
        return converter_map(u, e['data'])

    def plan_eval(self, e, op, m, bad):
        """Arguments, reference result (lazily, on the state before) and the
        points the parameters hold afterwards."""
        node = e['node']
        args = list(op.get('a', []))
        kw = dict(op.get('k', {}))
        vals0 = dict(self.vals)
        t = e['t']
        if t == 'conv':
            fin = 'free_to' in m
            fout = m.endswith('to_free') or 'to_free_jac' in m
            z = self.point(node, op['s'], fin, bad)

            def out_fun(zz):
                v = dict(vals0)
                v.update(node.split(zz, fin))
                o = self.ref_out(e, v)
                if fout:
                    return o
                return e['node2'].join(e['node2'].split(o, True), False)
            want = (lambda: autograd.jacobian(out_fun)(np.array(z))) \
                if 'jacobian' in m else (lambda: out_fun(z))
            return {'argv': [self.give(np.array(z))], 'kw': {},
                    'sets': [(node, z, fin)], 'want': want}
        if t == 'two':
            if 'fr' in op:
                fr = op['fr']
            elif m == 'fun_hessian_free1_vector2':
                fr = [True, False]
            elif m == 'fun_hessian_vector1_free2':
                fr = [False, True]
            else:
                fr = [('free' in m)] * 2
            n2 = e['node2']
            # a misfit in the first or in the second point
            b1, b2 = (bad, 0) if op['s'] % 2 else (0, bad)
            z1 = self.point(node, op['s'], fr[0], b1)
            z2 = self.point(n2, op['s2'], fr[1], b2)

            def two(a, b):
                v = dict(vals0)
                v.update(node.split(a, fr[0]))
                v.update(n2.split(b, fr[1]))
                return e['ref'](v, args, kw)
            g1 = autograd.grad(two, 0)
            g2 = autograd.grad(two, 1)
            if m == 'fun_grad1':
                want = lambda: g1(np.array(z1), np.array(z2))
            elif m == 'fun_grad2':
                want = lambda: g2(np.array(z1), np.array(z2))
            elif 'hessian21' in m:
                want = lambda: autograd.jacobian(g2, 0)(z1, z2)
            elif 'hessian' in m:
                want = lambda: autograd.jacobian(g1, 1)(z1, z2)
            else:
                want = lambda: two(z1, z2)
            argv = [self.give(np.array(z1)), self.give(np.array(z2))]
            if 'fr' in op:
                argv += fr
            sets = [(node, z1, fr[0]), (n2, z2, fr[1])]
            if bad:
                # a point that fits is applied before the other is refused
                if b2:
                    self.unknown(node)
                else:
                    self.unknown(n2)
            return {'argv': argv + args, 'kw': kw, 'sets': sets, 'want': want}
        free = 'free' in m
        z = self.point(node, op['s'], free, bad)

        def fun(zz):
            v = dict(vals0)
            v.update(node.split(zz, free))
            return e['ref'](v, args, kw)
        argv = [self.give(np.array(z))] + args
        if 'hvp' in m:
            d = spot(op['sv'], z.size)
            argv.append(self.give(np.array(d)))
            gd = lambda x: anp.dot(autograd.grad(fun)(x), d)
            want = lambda: autograd.grad(gd)(np.array(z))
        elif 'grad' in m:
            want = lambda: autograd.grad(fun)(np.array(z))
        elif 'hessian' in m:
            want = lambda: autograd.hessian(fun)(np.array(z))
        elif 'jacobian' in m:
            want = lambda: autograd.jacobian(fun)(np.array(z))
        else:
            want = lambda: fun(z)
        return {'argv': argv, 'kw': kw, 'sets': [(node, z, free)],
                'want': want}

    def op_trans(self, op):
        """The parameter's own transformation derivatives."""
        if not self.has(op['p']) or self.nofree:
            return
        node, real, m = self.node(op['p']), self.real(op['p']), op['m']
        self.ctx.mark('t', m, node.spec['k'])
        z = node.legal_vec(op['s'], True)
        if m.startswith('convert'):
            g = rnd_vec(op['s'] + 1, node.vec_size)
            h = rnd_vec(op['s'] + 2, node.vec_size ** 2).reshape(
                node.vec_size, node.vec_size)
            h = h + h.T
            if m == 'convert_sparse':
                import scipy.sparse
                h = scipy.sparse.csr_matrix(h)
            st, r = self.call(par_lib.convert_vector_to_free_hessian, real,
                              self.give(np.array(z)), g, h)
            self.put(node, z, True)
        else:
            st, r = self.call(getattr(real, m), self.give(np.array(z)))
        self.ctx.ev('trans', op['p'], m, op['s'], st)
        if st != 'ok':
            raise Violation('unexpected-exception', '%s.%s raised %r at %s' %
                            (node.spec['k'], m, r, core.where(r)))

    def hold_views(self):
        for root, real in self.roots:
            for n in root.all_nodes():
                if n.leaf is None:
                    self.held[n.path] = root.get_real(real, n.path).get()

    def op_push(self, op):
        """A new component of a top-level composite."""
        for i, (root, real) in enumerate(self.roots):
            if root.path == op['p'] and root.spec['k'] == 'dict':
                if op['spec']['name'] in [k.name for k in root.kids]:
                    return
                spec = dict(root.spec)
                spec['ch'] = list(spec['ch']) + [op['spec']]
                node = models.Node(spec)
                new = node.kids[-1]
                comp = new.build(vb)
                st, r = self.call(real.push_param, comp)
                self.ctx.mark('push', op['spec']['k'])
                self.ctx.ev('push', op['p'], st)
                if st != 'ok':
                    raise Violation('push-refused', repr(r))
                z = new.legal_vec(op['s'], True)
                comp.set_free(z)
                self.roots[i] = (node, real)
                self.put(new, z, True)
                self.hold_views()

    def op_share(self, op):
        """One value array written to two components of the same shape."""
        ls = [n for root, _ in self.roots for n in root.all_nodes()
              if n.leaf is not None and n.spec['k'] in
              ('vector', 'array', 'posdef', 'pdvec', 'pdarr', 'simplex')]
        pairs = [(a, b) for a in ls for b in ls
                 if a.path < b.path and a.leaf.shape == b.leaf.shape and
                 a.spec['k'] == b.spec['k']]
        if not pairs:
            return
        a, b = pairs[op['s'] % len(pairs)]
        self.ctx.mark('share', a.spec['k'])
        # a value legal for both
        cand = [num(n.leaf.free2val(n.legal_vec(op['s'], True)))
                for n in (a, b)]
        for v in cand:
            with np.errstate(all='ignore'):
                try:
                    ok = all(np.isfinite(num(n.leaf.val2free(v))).all()
                             for n in (a, b))
                except np.linalg.LinAlgError:
                    ok = False
            if ok:
                break
        else:
            return
        arr = np.array(v)
        for n in (a, b):
            st, r = self.call(self.real(n.path).set, arr)
            if st != 'ok':
                raise Violation('write-refused', '%s.set: %r' % (n.path, r))
            self.vals[n.leaf.path] = num(v)
        self.ctx.probe('one-array-two-components')
        if 'via' in op:
            self.check(deep=False)
            c = (a, b)[op['s'] // 7 % 2]
            self.op_write({'p': c.path, 'via': op['via'],
                           's': op['s'] + 1})

    def op_misfit(self, op):
        """An update that does not fit: refused, nothing changes."""
        if not self.has(op['p']):
            return
        node, real, how = self.node(op['p']), self.real(op['p']), op['how']
        d = op['d']
        if how in ('free', 'vec', 'ftv'):
            want = node.vec_size if how == 'vec' else node.free_size
            n = {'drop': want - 1, 'one': want + 1, 'double': 2 * want,
                 'empty': 0, 'three': want + 3}[d]
            if n < 0 or n == want:
                return
            z = np.resize(node.legal_vec(op['s'], how != 'vec'), n) \
                if want else np.zeros(n)
            fn = {'free': real.set_free, 'vec': real.set_vector,
                  'ftv': real.free_to_vector}[how]
            st, r = self.call(fn, z)
        elif how in ('set', 'view'):
            if node.leaf is None or node.spec['k'] == 'scalar':
                return
            v = num(node.leaf.free2val(node.legal_vec(op['s'], True)))
            v = misshape(v, d, node.spec['k'])
            if v is None or v.shape == node.leaf.shape:
                return
            if how == 'view' and node.parent and \
                    node.path not in [r.path for r, _ in self.roots]:
                parent = self.real(node.path.rsplit('/', 1)[0])
                st, r = self.call(parent.get().__setitem__, node.name, v)
            else:
                st, r = self.call(real.set, v)
        elif how == 'asym':
            if node.leaf is None or node.spec['k'] != 'posdef' or \
                    node.spec['n'] < 2:
                return
            v = num(node.leaf.free2val(node.legal_vec(op['s'], True)))
            n = node.spec['n']
            i = op['s'] % n
            j = (i + 1 + op['s'] // n % (n - 1)) % n
            v[i, j] += {'drop': 1e-3, 'one': .5, 'double': -.25,
                        'empty': 1e-6, 'three': 2.}[d]
            st, r = self.call(real.set, v)
        else:
            if node.leaf is not None or not node.kids:
                return
            k = node.kids[op['s'] % len(node.kids)]
            spec = dict(op['spec'], name=k.name)
            comp = models.Node(spec).build(vb)
            st, r = self.call(real.push_param, comp)
        self.ctx.mark('misfit', how, d, node.spec['k'])
        self.ctx.ev('misfit', op['p'], how, d, st)
        if st == 'ok':
            raise Violation('misfit-accepted', '%s %s accepted a misfit (%s)'
                            % (node.spec['k'], how, d))
        if not isinstance(r, Exception):
            raise Violation('misfit-error', repr(r))
        self.ctx.fired('misfit:' + how)

    def op_numfail(self, op):
        """A composite update that may fail part-way for a numerical reason:
        every component ends up entirely old or entirely new."""
        if not self.has(op['p']) or self.nofree:
            return
        node, real = self.node(op['p']), self.real(op['p'])
        if any(self.vals[l.path] is None for l in node.leaves):
            return
        z = node.legal_vec(op['s'], True)
        for i, v in op['spikes']:
            if z.size:
                z[i % z.size] = v
        old = {l.path: self.vals[l.path] for l in node.leaves}
        self.ctx.mark('numfail', op['trap'], node.spec['k'])
        with np.errstate(**({'over': 'raise', 'invalid': 'raise',
                             'divide': 'raise'} if op['trap']
                            else {'all': 'ignore'})):
            st, r = self.call(real.set_free, np.array(z))
        self.ctx.ev('numfail', op['p'], st)
        if st == 'exc' and not isinstance(r, (ValueError, ArithmeticError,
                                              np.linalg.LinAlgError)):
            raise Violation('unexpected-exception', '%s: %r' % (op['p'], r))
        with np.errstate(all='ignore'):
            new = {k: num(v) for k, v in node.split(z, True).items()}
        where = {}
        for root, rl in self.roots:
            for n in root.all_nodes():
                if n.leaf is not None:
                    where.setdefault(n.leaf.path,
                                     root.get_real(rl, n.path))
        if st == 'exc':
            self.ctx.fired('numerical-failure:' + type(r).__name__)
        for l in node.leaves:
            got = num(where[l.path].get()).reshape(l.shape)
            spiked = self.spiked(node, l, z)
            if not spiked.any():
                if close(got, new[l.path], 1e-9, 1e-11):
                    self.vals[l.path] = new[l.path]
                    continue
            elif l.spec['k'] in ('scalar', 'vector', 'array'):
                # elementwise: what the numbers at the spikes are is not at
                # issue here, the others are new
                f = ~spiked
                if close(got.reshape(-1)[f], new[l.path].reshape(-1)[f]):
                    self.vals[l.path] = None
                    continue
            elif not close(got, old[l.path], 1e-9, 1e-11):
                self.vals[l.path] = None
                continue
            if st == 'exc' and close(got, old[l.path], 1e-9, 1e-11):
                self.ctx.probe('component-kept-old')
                continue
            raise Violation('partial-update', '%s holds %s, neither old '
                            '%s nor new %s (%s)' %
                            (l.path, short(got), short(old[l.path]),
                             short(new[l.path]), st))

    def spiked(self, node, leaf, z):
        o = 0
        for l in node.leaves:
            if l is leaf:
                part = z[o:o + l.free_size]
                return ~(np.abs(part) < 10)
            o += l.free_size

    # verbose evaluation, preconditioner: light versions used by the
    # isolation scenarios; their own properties have deeper ones
    def op_evlog(self, op):
        e = self.clients.get(op['c'])
        if e is None or e['t'] != 'obj':
            return
        self.ctx.mark('evlog')
        z = e['node'].legal_vec(op['s'], True)
        stream = seams.SimStream()
        with seams.Stdout(stream):
            st, r = self.call(e['real'].fun_free, self.give(np.array(z)),
                              verbose=True)
        if st != 'ok':
            raise Violation('unexpected-exception', 'fun_free(verbose) '
                            'raised %r' % (r,))
        self.put(e['node'], z, True)
        e['log'].append((np.array(z), float(e['ref'](self.vals))))

    def op_loginit(self, op):
        e = self.clients.get(op['c'])
        if e is None or e['t'] != 'obj':
            return
        self.ctx.mark('loginit')
        e['real'].logger.initialize()
        e['log'] = []

    def op_setprec(self, op):
        e = self.clients.get(op['c'])
        if e is None or e['t'] != 'obj':
            return
        self.ctx.mark('setprec')
        n = e['node'].free_size
        p = rnd_vec(op['s'], n * n).reshape(n, n) * .2 + np.eye(n)
        e['prec'] = np.array(p)
        e['real'].preconditioner = p
        if op.get('inplace') and op['s'] % 2:
            e['real'].preconditioner[:] = p * 1.5
            e['prec'] = np.array(p)

    def op_cond(self, op):
        e = self.clients.get(op['c'])
        if e is None or e['t'] != 'obj' or e['prec'] is None:
            return
        m = op['m']
        self.ctx.mark('cond', m)
        node, P = e['node'], e['prec']
        x = spot(op['s'], node.free_size, .7)
        vals0 = dict(self.vals)

        def fun(xx):
            v = dict(vals0)
            v.update(node.split(anp.dot(P, xx), True))
            return e['ref'](v)
        argv = [self.give(np.array(x))]
        if m == 'fun_free_cond':
            want = fun(x)
        elif m == 'fun_free_grad_cond':
            want = autograd.grad(fun)(x)
        elif m == 'fun_free_hessian_cond':
            want = autograd.hessian(fun)(x)
        else:
            d = spot(op['s'] + 5, node.free_size)
            argv.append(self.give(np.array(d)))
            want = autograd.hessian(fun)(x).dot(d)
        st, r = self.call(getattr(e['real'], m), *argv)
        if st != 'ok':
            raise Violation('unexpected-exception', '%s raised %r' % (m, r))
        self.put(node, P.dot(x), True)
        if not plain(r) or not close(r, want, 1e-6, 1e-8):
            raise Violation('wrong-result', '%s = %s, expected %s' %
                            (m, short(r), short(want)))

    def op_take(self, op):
        """Keep a vector the library hands out, to overwrite it later."""
        if not self.has(op['p']):
            return
        real = self.real(op['p'])
        how = op['how']
        if how == 'free' and self.nofree:
            return
        self.ctx.mark('take', how, self.node(op['p']).spec['k'])
        st, r = self.call(getattr(real, 'get_' + how))
        if st != 'ok':
            raise Violation('unexpected-exception', 'get_%s %r' % (how, r))
        if isinstance(r, np.ndarray):
            self.pool.append([r, np.array(r), 'returned'])

    def op_clobber(self, op):
        """Overwrite vectors that were handed over or handed out."""
        if not self.pool:
            return
        which = self.pool if op.get('all') else \
            [self.pool[op['i'] % len(self.pool)]]
        for item in list(which):
            arr, snap, origin = item
            if not np.array_equal(arr, snap):
                raise Violation('argument-modified', 'a vector that was %s '
                                'was modified by the library' % origin)
            self.ctx.mark('clobber', origin)
            if arr.flags.writeable:
                self.ctx.fired('buffer-overwrite:' + origin)
                arr[...] = op['v']
        if op.get('all'):
            self.pool = []
        else:
            self.pool = [p for p in self.pool if p is not which[0]]

    # -- checks
    def check_args(self):
        for arr, snap, origin in self.pool:
            if not np.array_equal(arr, snap):
                raise Violation('argument-modified', 'a vector that was %s '
                                'was modified' % origin)

    def check(self, deep=True):
        for root, real in self.roots:
            for n in root.all_nodes():
                if any(self.vals[l.path] is None for l in n.leaves):
                    continue
                self.check_node(n, root.get_real(real, n.path), deep)
        for name, e in self.clients.items():
            if e['log'] or e['t'] == 'obj':
                self.check_log(e)
        for arr, snap, origin in self.pool:
            if origin == 'given' and not np.array_equal(arr, snap):
                raise Violation('argument-modified', 'a vector that was %s '
                                'was modified by the library' % origin)

    def check_log(self, e):
        if e['t'] != 'obj':
            return
        lg = e['real'].logger
        if len(lg.val_array) != len(e['log']) or \
                len(lg.x_array) != len(e['log']):
            raise Violation('log-length', 'log has %d/%d entries, expected %d'
                            % (len(lg.x_array), len(lg.val_array),
                               len(e['log'])))
        for (x, v), lx, lv in zip(e['log'], lg.x_array, lg.val_array):
            if not plain(lx) or not close(lx, x) or not close(lv, v):
                raise Violation('log-entry', 'log holds %s -> %s, expected '
                                '%s -> %s' % (short(lx), short(lv), short(x),
                                              short(v)))

    def check_node(self, n, real, deep=True):
        path = n.path
        if n.leaf is not None:
            st, v = self.call(real.get)
            if st != 'ok':
                raise Violation('read-failed', '%s.get: %r' % (path, v))
            if not plain(v):
                raise Violation('not-numeric', '%s holds %s' %
                                (path, type(v).__name__))
            want = self.vals[n.leaf.path]
            got = np.reshape(v, want.shape) if np.size(v) == want.size and \
                n.spec['k'] == 'scalar' else np.asarray(v)
            if not close(got, want, 1e-9, 1e-11):
                raise Violation('wrong-value', '%s.get() = %s, expected %s' %
                                (path, short(v), short(want)))
        st, x = self.call(real.get_vector)
        if st != 'ok':
            raise Violation('read-failed', '%s.get_vector: %r' % (path, x))
        want = num(n.join(self.vals, False))
        if not plain(x) or not close(x, want, 1e-9, 1e-11):
            raise Violation('wrong-vector', '%s.get_vector() = %s, expected '
                            '%s' % (path, short(x), short(want)))
        if real.vector_size() != n.vec_size or real.free_size() != n.free_size:
            raise Violation('wrong-size', '%s reports sizes %s/%s' %
                            (path, real.free_size(), real.vector_size()))
        if self.nofree:
            return
        st, z = self.call(real.get_free)
        if st != 'ok':
            raise Violation('read-failed', '%s.get_free: %r' % (path, z))
        want = num(n.join(self.vals, True))
        if not plain(z) or not close(z, want, 1e-7, 1e-8):
            raise Violation('wrong-free', '%s.get_free() = %s, expected %s' %
                            (path, short(z), short(want)))
        if deep and n.leaf is None:
            self.check_views(n, real)

    def check_views(self, n, real):
        """By-name views, index ranges and the value dictionary."""
        st, dv = self.call(real.dictval)
        if st != 'ok':
            raise Violation('read-failed', '%s.dictval: %r' % (n.path, dv))
        fo = vo = 0
        if sorted(dv.keys()) != sorted(k.name for k in n.kids):
            raise Violation('wrong-dictval', '%s has keys %s' %
                            (n.path, sorted(dv.keys())))
        for k in n.kids:
            fi = list(real.free_indices_dict[k.name])
            vi = list(real.vector_indices_dict[k.name])
            if fi != list(range(fo, fo + k.free_size)) or \
                    vi != list(range(vo, vo + k.vec_size)):
                raise Violation('wrong-index-range', '%s: %s at %s / %s' %
                                (n.path, k.name, fi, vi))
            fo += k.free_size
            vo += k.vec_size
            if k.leaf is not None:
                views = [real.get(), real.values]
                if n.path in self.held:
                    views.append(self.held[n.path])
                for view in views:
                    v = view[k.name]
                    w = self.vals[k.leaf.path]
                    if np.size(v) != w.size or not close(
                            np.reshape(v, -1), w.reshape(-1), 1e-9, 1e-11):
                        raise Violation('wrong-view', '%s[%s] = %s, expected '
                                        '%s' % (n.path, k.name, short(v),
                                                short(w)))
                d = np.asarray(dv[k.name], dtype=float)
                w = self.vals[k.leaf.path]
                if d.size != w.size or not close(
                        d.reshape(-1), w.reshape(-1), 1e-9, 1e-11):
                    raise Violation('wrong-dictval', '%s[%s] = %s, expected '
                                    '%s' % (n.path, k.name, dv[k.name],
                                            short(w)))


def misshape(v, d, kind):
    """A value of the wrong shape (for a vector parameter: size)."""
    if d == 'drop':
        return v[:-1] if v.shape[0] > 1 else None
    if d == 'one':
        return np.concatenate([v, v[:1]], axis=0)
    if d == 'double':
        return np.concatenate([v, v], axis=-1)
    if d == 'empty':
        if kind in ('vector', 'subspace'):
            return np.zeros(0)
        return v.reshape(-1) if v.ndim > 1 else v[:0]
    # same number of elements, other shape
    if kind in ('vector', 'subspace'):
        return np.concatenate([v, v, v])
    if v.ndim > 1 and v.shape != v.shape[::-1]:
        return np.ascontiguousarray(v.T)
    return v[None] if kind != 'posdef' else v[:, :, None]


def _in_copy(tb):
    import traceback
    return any('copy.py' in f[0] or 'autograd' in f[0]
               for f in traceback.extract_tb(tb))


def short(x):
    with np.printoptions(precision=6, threshold=20):
        return str(x).replace('\n', ' ')[:300]
