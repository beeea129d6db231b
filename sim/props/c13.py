"""C13: sensitivity answers refer to the base point they were built for."""
import copy

from sim import core, sens
from sim.core import Violation
from sim.functors import HOOK
from sim.sens import Sens, guarded, num


def gen_ask(rng, p_fault=.2):
    op = {'o': 'ask', 'q': rng.randint(0, 9), 's': rng.randint(0, 999),
          'k': rng.randint(0, 11)}
    r = rng.random()
    if r < p_fault:
        op['f'] = {'at': rng.choice([0, 0, 1, 2]),
                   'kind': rng.choice(core.FAULT_KINDS),
                   'pos': rng.choice(['pre', 'post'])}
    elif r < p_fault * 1.4:
        op['lf'] = {'names': ['ag.solve', 'np.solve', 'sp.cho_solve'], 'nth': rng.choice([0, 0, 1]),
                    'kind': rng.choice(['LinAlgError', 'MemoryError'])}
    return op


def gen_other(rng):
    r = rng.random()
    if rng.random() < .12:
        return {'o': 'second', 's': rng.randint(0, 999)}
    if r < .3:
        return {'o': 'clobber', 'v': round(rng.uniform(-9, 9), 1)}
    if r < .6:
        return {'o': 'move', 'which': rng.choice(['in', 'hyper', 'both',
                                                  'out']),
                'how': rng.choice(['free', 'vector']),
                's': rng.randint(0, 999)}
    if r < .9:
        op = {'o': 'eval', 'm': rng.choice(['fun_free', 'fun_free_grad',
                                            'fun_vector_grad',
                                            'fun_free_hessian', 'grad1',
                                            'cross']),
              's': rng.randint(0, 999)}
        if rng.random() < .4:
            op['f'] = {'at': 0, 'kind': rng.choice(core.FAULT_KINDS),
                       'pos': 'post'}
        return op
    return {'o': 'order', 'n': rng.randint(1, 3)}


def gen(rng, tier):
    # order four is slow: seldom
    cfg = sens.gen_cfg(rng, max_order=4 if tier != 'quick' or
                       rng.random() < .3 else 3)
    ops = []
    n = rng.randint(3, 8 if tier == 'quick' else 14)
    while len(ops) < n:
        ops.append(gen_ask(rng) if rng.random() < .55 else gen_other(rng))
    ops.append(gen_ask(rng, 0.))
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def other(s, op, ctx):
    """What other code does to the parameters in between."""
    from LinearResponseVariationalBayes import SparseObjectives as ol
    if op['o'] == 'clobber':
        s.clobber(op['v'])
    elif op['o'] == 'move':
        ctx.mark('move', op['which'], op['how'])
        for node, real, w in ((s.ni, s.inp, 'in'), (s.nh, s.hyp, 'hyper'),
                              (s.no, s.out, 'out')):
            if op['which'] == w or op['which'] == 'both' and w != 'out':
                x = node.legal_vec(op['s'], op['how'] == 'free')
                getattr(real, 'set_' + op['how'])(num(x))
    elif op['o'] == 'eval':
        o1 = ol.Objective(s.inp, s.f)
        o2 = ol.TwoParameterObjective(s.inp, s.hyp, s.f)
        x = num(s.ni.legal_vec(op['s'], 'vector' not in op['m']))
        h = num(s.nh.legal_vec(op['s'] + 1, True))
        if 'f' in op:
            HOOK.arm_fault(0, op['f']['kind'], op['f']['pos'])
        m = op['m']
        if m == 'grad1':
            fn = lambda: o2.fun_grad1(x, h, True, True)
        elif m == 'cross':
            fn = lambda: o2.fun_free_hessian12(x, h)
        else:
            fn = lambda: getattr(o1, m)(x)
        st, r, fired = guarded(ctx, fn)
        HOOK.disarm()
        HOOK.exc = None
        ctx.mark('other-eval', m, 'x' if fired else '')
        if st != 'ok' and not fired:
            raise Violation('unexpected-exception', repr(r))
    elif op['o'] == 'order' and s.cfg['kind'] == 'taylor' and \
            not s.cfg['parts']:
        ctx.mark('order', op['n'])
        s.order = op['n']
        s.obj.set_order(op['n'])
        if s.obj.order != op['n']:
            raise Violation('wrong-order', str(s.obj.order))


def run(plan, ctx):
    objs = [Sens(ctx, plan['cfg'])]
    objs[0].build()
    for i, op in enumerate(plan['ops']):
        # questions go to any of the objects, at the end to all of them
        s = objs[op['s'] % len(objs)] if op['o'] == 'ask' else objs[0]
        s.begin(op)
        if op['o'] == 'second':
            if len(objs) < 3:
                ctx.mark('second')
                t = copy.copy(s)
                t.pool = []
                t.bufs = {}
                t.cfg = dict(s.cfg, h0=op['s'], order=1 + op['s'] % 2)
                t.order = t.cfg['order']
                if s.cfg['parts']:
                    t.order = t.cfg['order'] = 1
                t.build()
                objs.append(t)
        elif op['o'] == 'ask':
            qs = s.questions()
            s.ask(qs[op['q'] % len(qs)], op['s'], op['k'], op.get('f'),
                  op.get('lf'))
        else:
            other(s, op, ctx)
        s.check_args()
    for s in objs:
        for q in sorted(set(s.questions())):
            s.ask(q, 5, 1, when=' at the end')
