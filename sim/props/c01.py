"""C01: evaluations depend only on their arguments and current values."""
from sim import core, world
from sim.world import Session


def gen(rng, tier):
    cfg = world.gen_cfg(rng, max_free=rng.choice([5, 7, 9]))
    ops = []
    n = rng.randint(4, 12 if tier == 'quick' else 24)
    p_fault = rng.choice([0., .15, .35])
    p_int = rng.choice([0., 0., .15])
    while len(ops) < n:
        r = rng.random()
        if r < .62:
            ops.append(world.gen_eval(rng, cfg, p_fault=p_fault, p_int=p_int))
        elif r < .82:
            ops.append(world.gen_write(rng, cfg))
        elif r < .92:
            ops.append(world.gen_trans(rng, cfg))
        elif cfg['clients']:
            c = rng.choice(cfg['clients'])
            if c['t'] in ('obj', 'conv'):
                ops.append({'o': 'setdata', 'c': c['name'],
                            's': rng.randint(0, 999),
                            'inplace': rng.random() < .5})
    while cfg['clients'] and rng.random() < .5:
        at = rng.randint(0, len(ops))
        ops[at:at] = world.gen_trap(rng, cfg)
    # every history ends in a clean evaluation of each client
    for c in cfg['clients']:
        ops.append(world.gen_eval(rng, cfg, c, p_fault=0., p_bad=0.))
    # the same point again after other activity: caches must not answer
    ev = [o for o in ops if o['o'] == 'eval']
    if ev and rng.random() < .5:
        o = dict(rng.choice(ev))
        for k in ('f', 'bad', 'int'):
            o.pop(k, None)
        ops.append(o)
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def run(plan, ctx):
    ses = Session.build(ctx, plan['cfg'])
    for op in plan['ops']:
        ses.apply(op)
        ses.check(deep=False)
