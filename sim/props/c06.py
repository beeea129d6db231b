"""C06: deep copies share nothing with the original."""
import copy

import numpy as onp

from sim import core, models, sens, world
from sim.core import Violation
from sim.world import Session


def gen(rng, tier):
    if rng.random() < .15:
        return gen_sens(rng, tier)
    cfg = world.gen_cfg(rng, max_free=rng.choice([4, 6, 9]))
    nodes = [models.Node(s) for s in cfg['params']]
    alln = [n for t in nodes for n in t.all_nodes()]
    ops = []
    n = rng.randint(6, 16 if tier == 'quick' else 32)
    p_fault = rng.choice([0, .2, .4])
    ncopy = 0
    objs = [c['name'] for c in cfg['clients'] if c['t'] == 'obj']
    while len(ops) < n or not ncopy:
        r = rng.random()
        if r < .14 or (len(ops) > 3 and not ncopy):
            if ncopy < 3:
                what = rng.choice(
                    ['all', 'all'] + [c['name'] for c in cfg['clients']] +
                    [x.path for x in alln])
                ops.append({'o': 'copy', 'what': what, 'on':
                            rng.randint(0, ncopy)})
                ncopy += 1
            continue
        if r < .19 and ncopy < 3:
            ops.append({'o': 'index', 'p': rng.choice(alln).path})
            ncopy += 1
            continue
        if r < .4:
            op = world.gen_write(rng, cfg)
        elif r < .7:
            op = world.gen_eval(rng, cfg, p_fault=p_fault)
        elif r < .75:
            op = world.gen_trans(rng, cfg)
        elif r < .83:
            op = {'o': 'setdata', 'c': rng.choice(cfg['clients'])['name'],
                  's': rng.randint(0, 999), 'inplace': rng.random() < .7}
        elif objs:
            c = rng.choice(objs)
            op = rng.choice([
                {'o': 'evlog', 'c': c, 's': rng.randint(0, 999)},
                {'o': 'evlog', 'c': c, 's': rng.randint(0, 999)},
                {'o': 'loginit', 'c': c},
                {'o': 'setprec', 'c': c, 's': rng.randint(0, 999),
                 'inplace': True},
                {'o': 'cond', 'c': c, 'm': rng.choice(world.COND_METHODS),
                 's': rng.randint(0, 999)},
                {'o': 'cond', 'c': c, 'm': rng.choice(world.COND_METHODS),
                 's': rng.randint(0, 999)}])
        else:
            continue
        op['on'] = rng.randint(0, ncopy)
        ops.append(op)
    for c in cfg['clients']:
        for s in range(ncopy + 1):
            op = world.gen_eval(rng, cfg, c, p_fault=0., p_bad=0.)
            op['on'] = s
            ops.append(op)
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def gen_sens(rng, tier):
    """Copies of sensitivity objects, moved and asked in turn."""
    from sim.props import c13, c14
    cfg = sens.gen_cfg(rng, max_order=2)
    moves = [op for op in c14.gen(rng, tier)['ops'] if op['o'] == 'rebase']
    ops = []
    n = rng.randint(3, 7 if tier == 'quick' else 12)
    while len(ops) < n:
        r = rng.random()
        if r < .25:
            op = {'o': 'copy'}
        elif r < .45 and moves:
            op = dict(rng.choice(moves))
        elif r < .7:
            op = c13.gen_ask(rng, .2)
        else:
            op = c13.gen_other(rng)
            if op['o'] == 'second':
                continue
        op['on'] = rng.randint(0, 3)
        ops.append(op)
    if not any(op['o'] == 'copy' for op in ops):
        ops.insert(rng.randint(0, len(ops)), {'o': 'copy', 'on': 0})
    return {'sens': True, 'cfg': cfg, 'ops': core.mix(rng, ops)}


def sens_copy(s):
    names = ['obj', 'inp', 'hyp', 'out', 'f', 'fhyper', 'data', 'conv']
    parts = copy.deepcopy([getattr(s, k, None) for k in names])
    t = copy.copy(s)
    for k, v in zip(names, parts):
        setattr(t, k, v)
    t.pool, t.bufs = [], {}
    t.base = dict(s.base, cache=dict(s.base['cache']))
    return t


def run_sens(plan, ctx):
    from sim.props import c13
    ses = [sens.Sens(ctx, plan['cfg'])]
    ses[0].build()
    state = lambda q: [onp.array(p.get_vector()) for p in
                       (q.inp, q.hyp, q.out)]
    for op in plan['ops']:
        s = ses[op.get('on', 0) % len(ses)]
        before = [state(q) for q in ses]
        if op['o'] == 'copy':
            if len(ses) < 4:
                ctx.mark('copy', s.cfg['kind'])
                ses.append(sens_copy(s))
                before.append(state(s))
            s = None
        else:
            s.begin(op)
            if op['o'] == 'ask':
                qs = s.questions()
                s.ask(qs[op['q'] % len(qs)], op['s'], op['k'], op.get('f'),
                      op.get('lf'))
            elif op['o'] == 'rebase':
                s.rebase(op)
            else:
                c13.other(s, op, ctx)
            s.check_args()
        for q, b in zip(ses, before):
            if q is not s and not all(
                    x.shape == y.shape and (x == y).all()
                    for x, y in zip(state(q), b)):
                raise Violation('copy-not-separate', 'parameters of another '
                                'copy moved during %s' % op['o'])
    for s in ses:
        for k, q in enumerate(sorted(set(s.questions()))):
            s.ask(q, 5, k, when=' at the end')


def run(plan, ctx):
    if plan.get('sens'):
        return run_sens(plan, ctx)
    ses = [Session.build(ctx, plan['cfg'])]
    for op in plan['ops']:
        s = ses[op.get('on', 0) % len(ses)]
        if op['o'] == 'copy':
            what = op['what']
            if s.nofree or (what != 'all' and what not in s.clients and
                            not s.has(what)):
                continue
            s.ensure_known(None)
            ctx.mark('copy', 'all' if what == 'all' else
                     s.clients[what]['t'] if what in s.clients else 'par')
            ctx.ev('copy', what)
            ses.append(s.clone(what, 'ABCDEFG'[len(ses)]))
        elif op['o'] == 'index':
            if s.nofree or not s.has(op['p']):
                continue
            ctx.mark('index')
            ses.append(s.index_param(op['p'], 'ABCDEFG'[len(ses)]))
        else:
            if s.nofree and op['o'] != 'write':
                continue
            if s.nofree:
                if not s.has(op['p']):
                    continue
                op = dict(op, via='vec')
            s.apply(op)
        for q in ses:
            q.check(deep=False)
