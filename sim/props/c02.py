"""C02: derivative requests leave parameters numeric and in place."""
from sim import core, world
from sim.world import Session


def gen(rng, tier):
    cfg = world.gen_cfg(rng, max_free=rng.choice([4, 6, 9]))
    ops = []
    n = rng.randint(4, 12 if tier == 'quick' else 24)
    p_fault = rng.choice([.1, .4, .7])
    while len(ops) < n:
        r = rng.random()
        if r < .55:
            ops.append(world.gen_eval(rng, cfg, p_fault=p_fault,
                                      methods=world.DERIV))
        elif r < .65:
            ops.append(world.gen_write(rng, cfg))
        elif r < .7:
            ops.append(world.gen_eval(rng, cfg, p_fault=p_fault))
        else:
            ops.append(world.gen_trans(rng, cfg))
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def run(plan, ctx):
    ses = Session.build(ctx, plan['cfg'])
    for op in plan['ops']:
        ses.apply(op)
        ses.check(deep=False)
