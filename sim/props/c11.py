"""C11: conjugate-gradient subset solves are recorded once, aligned, in order."""
from sim import cg, core


def gen(rng, tier):
    cfg = cg.gen_cfg(rng)
    n = rng.randint(2, 7 if tier == 'quick' else 16)
    ops = [cg.gen_op(rng, cfg['n'], rng.choice([.1, .5])) for _ in range(n)]
    for _ in range(2):
        full = rng.randint(2, 40)
        ops.append({'o': 'masks', 'n': full, 'm': rng.randint(1, full - 1)})
    return {'cfg': cfg, 'ops': core.mix(rng, ops)}


def run(plan, ctx):
    from LinearResponseVariationalBayes import ConjugateGradient as lib
    s = cg.CG(ctx, plan['cfg'])
    for op in plan['ops']:
        if op['o'] == 'masks':
            if op['m'] < op['n']:
                cg.check_masks(lib.get_masks(op['n'], op['m']), op['n'],
                               op['m'])
        else:
            s.apply(op)
