"""C04: updates that do not fit are refused and change nothing."""
from sim import core, models, world
from sim.world import Session


def gen(rng, tier):
    cfg = world.gen_cfg(rng, nclient=rng.choice([0, 1, 2]),
                        max_free=rng.choice([6, 10, 14]), p_comp=.7)
    nodes = [models.Node(s) for s in cfg['params']]
    alln = [n for t in nodes for n in t.all_nodes()]
    ops = []
    n = rng.randint(5, 16 if tier == 'quick' else 40)
    while len(ops) < n:
        r = rng.random()
        x = rng.choice(alln)
        if r < .5:
            how = rng.choice(
                ['free', 'vec', 'free', 'vec', 'ftv'] +
                (['set', 'set', 'view', 'asym'] if x.leaf is not None
                 else ['dup', 'dup']))
            if x.leaf is not None and x.spec['k'] == 'posdef' and \
                    rng.random() < .3:
                how = 'asym'
            op = {'o': 'misfit', 'p': x.path, 'how': how,
                  'd': rng.choice(['drop', 'one', 'double', 'empty',
                                   'three']),
                  's': rng.randint(0, 999)}
            if how == 'dup':
                op['spec'] = models.gen_param(rng, 'x', .2)
            ops.append(op)
        elif r < .65:
            ops.append({'o': 'numfail', 'p': x.path, 's': rng.randint(0, 999),
                        'trap': rng.random() < .5,
                        'spikes': [[rng.randint(0, 20),
                                    rng.choice([800., -800., 1e308, 400.,
                                                float('nan')])]
                                   for _ in range(rng.choice([1, 1, 2]))]})
        elif r < .82 or not cfg['clients']:
            ops.append(world.gen_write(rng, cfg))
        else:
            ops.append(world.gen_eval(rng, cfg, p_fault=.1, p_bad=.6))
    for x in nodes:
        ops.append({'o': 'write', 'p': x.path, 'via': rng.choice(
            ['free', 'vec']), 's': rng.randint(0, 999)})
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def run(plan, ctx):
    ses = Session.build(ctx, plan['cfg'])
    ses.hold_views()
    for op in plan['ops']:
        ses.apply(op)
        ses.check()
