"""C14: moving a sensitivity object to a new base point is all or nothing."""
from sim import core, sens
from sim.props import c13
from sim.sens import Sens


def gen(rng, tier):
    cfg = sens.gen_cfg(rng, max_order=2)
    ops = []
    n = rng.randint(2, 6 if tier == 'quick' else 12)
    p_ok = rng.choice([.2, .5])
    while len(ops) < n:
        r = rng.random()
        if r < .6:
            op = {'o': 'rebase', 'h': rng.randint(0, 999),
                  'hess': rng.choice([None, None, None, 'true', 'other'])}
            if rng.random() < .3:
                op['none'] = True
            q = rng.random()
            if q < p_ok:
                pass
            elif q < p_ok + (1 - p_ok) * .45:
                op['f'] = {'at': rng.choice([0, 0, 1, 1, 2]),
                           'kind': rng.choice(core.FAULT_KINDS),
                           'pos': rng.choice(['pre', 'post'])}
            elif q < p_ok + (1 - p_ok) * .65:
                op['lf'] = {'names': [rng.choice(['sp.cho_factor',
                                                  'sp.cho_solve'])],
                            'nth': 0,
                            'kind': rng.choice(['LinAlgError', 'MemoryError',
                                                'ValueError'])}
            else:
                op['bad'] = rng.choice(['notpd', 'concave', 'input-size',
                                        'hyper-size'])
            ops.append(op)
        elif r < .85:
            ops.append(c13.gen_ask(rng, .15))
        else:
            op = c13.gen_other(rng)
            if op['o'] not in ('second', 'order'):
                ops.append(op)
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def run(plan, ctx):
    s = Sens(ctx, plan['cfg'])
    s.build()
    for op in plan['ops']:
        qs = s.questions()
        s.begin(op)
        if op['o'] == 'ask':
            s.ask(qs[op['q'] % len(qs)], op['s'], op['k'], op.get('f'),
                  op.get('lf'))
        elif op['o'] == 'rebase':
            s.rebase(op)
            for j, q in enumerate(sorted(set(qs))):
                s.ask(q, op['h'] + j, j, when=' after moving')
        else:
            c13.other(s, op, ctx)
        s.check_args()
