"""C03: every view of a parameter store reads the latest write."""
from sim import core, models, world
from sim.world import Session


def gen(rng, tier):
    cfg = world.gen_cfg(rng, nclient=rng.choice([0, 0, 1]),
                        max_free=rng.choice([6, 10, 16]),
                        p_comp=.8, p_twin=.35)
    nodes = [models.Node(s) for s in cfg['params']]
    alln = [n for t in nodes for n in t.all_nodes()]
    kids = [n for n in alln if n.parent]
    if rng.random() < .4:
        pick = rng.sample(alln, min(len(alln), rng.randint(1, 3)))
        # components of one composite must not overlap
        pick = [n for n in pick
                if not any(m is not n and n.path.startswith(m.path + '/')
                           for m in pick)]
        cfg['shared'] = [{'name': 'sh', 'paths': [n.path for n in pick]}]
    ops = []
    n = rng.randint(5, 16 if tier == 'quick' else 40)
    p_fault = rng.choice([0, .3])
    pushed = 0
    while len(ops) < n:
        r = rng.random()
        if r < .72:
            op = world.gen_write(rng, cfg)
            if kids and rng.random() < .35:
                k = rng.choice(kids)
                if k.leaf is not None:
                    op = {'o': 'write', 'p': k.path, 'via': 'view',
                          's': rng.randint(0, 999)}
            if 'shared' in cfg and rng.random() < .25:
                op = {'o': 'write', 'p': 'sh', 'via': rng.choice(
                    ['free', 'vec', 'ftv']), 's': rng.randint(0, 999)}
            ops.append(op)
        elif r < .8:
            op = {'o': 'share', 's': rng.randint(0, 999)}
            if rng.random() < .7:
                op['via'] = rng.choice(['free', 'vec', 'vec', 'ftv', 'set'])
            ops.append(op)
        elif r < .86 and 'shared' not in cfg and not cfg['clients']:
            root = rng.choice(nodes)
            pushed += 1
            ops.append({'o': 'push', 'p': root.path, 's': rng.randint(0, 999),
                        'spec': models.gen_param(rng, 'n%d' % pushed, .2)})
        elif r < .9:
            ops.append(world.gen_trans(rng, cfg))
        elif cfg['clients']:
            ops.append(world.gen_eval(rng, cfg, p_fault=p_fault))
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def run(plan, ctx):
    ses = Session.build(ctx, plan['cfg'])
    ses.hold_views()
    ses.check()
    for op in plan['ops']:
        ses.apply(op)
        ses.check()
