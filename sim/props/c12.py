"""C12: recorded durations are true elapsed time."""
from sim import cg, core, seams
from sim.core import SimFault, Violation

NAMES = ['fit', 'hessian', 'cg']


def gen(rng, tier):
    n = rng.randint(6, 18 if tier == 'quick' else 50)
    if rng.random() < .4:
        cfg = cg.gen_cfg(rng)
        cfg['dt'] = rng.choice([.125, .5, 3.])
        ops = []
        while len(ops) < max(3, n // 3):
            op = cg.gen_op(rng, cfg['n'], .2, jumps=True)
            if op['o'] in ('solve', 'jump', 'reset'):
                ops.append(op)
        return {'t': 'cg', 'cfg': cfg, 'ops': core.mix(rng, ops)}
    ops = [{'o': 'tic'}]
    for _ in range(n):
        r = rng.random()
        if r < .22:
            ops.append({'o': 'tic'})
        elif r < .5:
            op = {'o': 'toc', 'n': rng.choice(NAMES),
                  'verbose': rng.choice([True, False, None])}
            if rng.random() < .3:
                op['out'] = [rng.randint(0, 1),
                             rng.choice(['EPIPE', 'ENOSPC', 'short', 'EIO'])]
            ops.append(op)
        elif r < .75:
            ops.append({'o': 'wait', 'dt': rng.choice(
                [1e-4, .003, 1., 17.25, 3600., 90000.])})
        elif r < .8:
            ops.append({'o': 'other'})
        else:
            ops.append({'o': 'jump', 'dt': rng.choice(
                [-1., -3600., 3600., -1e9, 1e9, -1e-3, 2.5])})
    ops.append({'o': 'toc', 'n': 'fit', 'verbose': False})
    return {'t': 'timer', 'cfg': {'slow': rng.choice([0., 0., .5])},
            'ops': ops}


def run(plan, ctx):
    if plan['t'] == 'cg':
        s = cg.CG(ctx, plan['cfg'])
        for op in plan['ops']:
            s.apply(op)
        return
    from LinearResponseVariationalBayes.SparseObjectives import Timer
    clock = seams.CLOCK
    # each printed line may take time, which is not part of any duration
    slow = plan['cfg']['slow']
    timers = [Timer(), Timer()]
    start, want = [None, None], [{}, {}]
    cur = 0
    for op in plan['ops']:
        o = op['o']
        ctx.mark(o, op.get('n', ''), 'x' if 'out' in op else '')
        if o == 'wait':
            clock.advance(op['dt'])
        elif o == 'jump':
            clock.step_wall(op['dt'])
            ctx.fired('clock-jump:' + ('back' if op['dt'] < 0 else
                                       'forward'))
        elif o == 'other':
            cur = 1 - cur
        elif o == 'tic':
            timers[cur].tic()
            start[cur] = clock.now
        elif start[cur] is not None:
            stream = seams.SimStream()
            stream.on_fire = ctx.fired
            if op.get('out'):
                stream.fail_at, stream.fail_kind = op['out']
            w0 = stream.write

            def write(s, w0=w0):
                clock.advance(slow)
                return w0(s)
            stream.write = write
            armed = stream.fail_at is not None
            want[cur][op['n']] = clock.now - start[cur]
            kw = {} if op['verbose'] is None else {'verbose': op['verbose']}
            try:
                with seams.Stdout(stream):
                    timers[cur].toc(op['n'], **kw)
            except OSError as e:
                if not isinstance(e, SimFault):
                    raise
            text = stream.getvalue()
            if op['verbose'] is False and text:
                raise Violation('unwanted-output', text)
            if op['verbose'] and not armed and op['n'] not in text:
                raise Violation('not-printed', repr(text))
        ctx.ev(o, round(clock.now, 6))
        for i in (0, 1):
            d = timers[i].time_dict
            if sorted(d) != sorted(want[i]):
                raise Violation('wrong-names', '%s, expected %s' %
                                (sorted(d), sorted(want[i])))
            for k, v in want[i].items():
                # clock readings are large numbers: half a microsecond
                if d[k] < 0:
                    raise Violation('negative-duration', '%s %r' % (k, d[k]))
                if abs(d[k] - v) > 1e-6 + 1e-9 * abs(v):
                    raise Violation('wrong-duration', '%s took %r, recorded '
                                    '%r' % (k, v, d[k]))
