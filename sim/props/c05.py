"""C05: flat vectors are never shared with the caller."""
from sim import core, models, world
from sim.world import Session


def gen(rng, tier):
    r = rng.random()
    if r < .78:
        return gen_world(rng, tier)
    from sim import alias
    return alias.gen(rng, tier)


def gen_world(rng, tier):
    cfg = world.gen_cfg(rng, max_free=rng.choice([4, 7, 10]))
    nodes = [models.Node(s) for s in cfg['params']]
    alln = [n for t in nodes for n in t.all_nodes()]
    ops = []
    n = rng.randint(5, 14 if tier == 'quick' else 30)
    p_fault = rng.choice([0, .25])
    objs = [c['name'] for c in cfg['clients'] if c['t'] == 'obj']
    while len(ops) < n:
        r = rng.random()
        if r < .32:
            ops.append(world.gen_write(rng, cfg))
        elif r < .42:
            ops.append(world.gen_eval(rng, cfg, p_fault=p_fault))
        elif r < .46:
            ops.append(world.gen_trans(rng, cfg))
        elif r < .55 and objs:
            ops.append({'o': 'evlog', 'c': rng.choice(objs),
                        's': rng.randint(0, 999)})
        elif r < .68:
            ops.append({'o': 'take', 'p': rng.choice(alln).path,
                        'how': rng.choice(['free', 'vector'])})
        else:
            ops.append({'o': 'clobber', 'i': rng.randint(0, 50),
                        'v': round(rng.uniform(-40, 40), 1),
                        'all': rng.random() < .5})
    ops.append({'o': 'clobber', 'i': 0, 'v': 9.25, 'all': True})
    for c in cfg['clients']:
        ops.append(world.gen_eval(rng, cfg, c, p_fault=0, p_bad=0))
    return {'t': 'world', 'cfg': cfg, 'ops': core.mix(rng, ops)}


def run(plan, ctx):
    if plan['t'] != 'world':
        from sim import alias
        return alias.run(plan, ctx)
    ses = Session.build(ctx, plan['cfg'])
    ses.alias = True
    for op in plan['ops']:
        ses.apply(op)
        ses.check(deep=False)
