"""C18: independent sessions on concurrent threads do not interfere.

Two or three sessions over separate objects run under a scheduled
interleaving; each is also run alone, by the same machinery.  Both executions
of each session must give the same results.
"""
import copy

from sim import core, seams, threads
from sim.core import Violation
from sim.functors import HOOK
from sim.props.c17 import differ, flat, load
from sim.threads import EndRun

LISTS = ['sched', 'ops0', 'ops1', 'ops2']
SUBS = ['C01', 'C01', 'C03', 'C04', 'C07', 'C07', 'C08', 'C09', 'C11', 'C11',
        'lib', 'lib']


def strip(sub, plan):
    """Without what is out of scope: second derivatives (autograd's trace
    counter) and faults injected into process-wide functions."""
    ops = []
    for op in plan['ops']:
        op = dict(op)
        for k in ('int', 'lf', 'jump'):
            op.pop(k, None)
        m = op.get('m', '')
        if isinstance(m, str) and ('hess' in m or 'hvp' in m or
                                   m.startswith('convert')):
            continue
        if m == 'trust':
            op['m'] = 'bfgs'
        if op['o'] in ('prechess', 'jump', 'hess'):
            continue
        ops.append(op)
    plan['ops'] = ops
    if sub == 'C11':
        plan['cfg'].update({'real': False, 'dt': 0., 'out_dt': 0.})
    return plan


def gen_sub(rng, sub):
    if sub == 'lib':
        from sim import lib
        return {'cfg': {}, 'ops': [{'o': rng.choice(lib.NAMES),
                                    's': rng.randint(0, 9999)}
                                   for _ in range(rng.randint(2, 6))]}
    for _ in range(50):
        plan = strip(sub, load(sub).gen(rng, 'quick'))
        if plan['ops']:
            return plan
    raise RuntimeError('no plan')


def reseed(x, d):
    """The same session over other numbers."""
    if isinstance(x, dict):
        return {k: (v + d if k in ('s', 's2', 'sv', 'seed') and
                    isinstance(v, int) else reseed(v, d))
                for k, v in x.items()}
    if isinstance(x, list):
        return [reseed(v, d) for v in x]
    return x


def gen(rng, tier):
    n = 2 if rng.random() < .75 else 3
    how = rng.choice(['same', 'same', 'like', 'any', 'any'])
    sub = rng.choice(SUBS)
    first = gen_sub(rng, sub)
    plan = {'subs': [], 'cfgs': [], 'extra': [], 'how': how}
    for i in range(n):
        if i == 0:
            p = first
        elif how == 'same':
            p = reseed(first, 17 * i)
        elif how == 'like':
            p = gen_sub(rng, sub)
        else:
            sub = rng.choice(SUBS)
            p = gen_sub(rng, sub)
        p = copy.deepcopy(p)
        plan['subs'].append(sub)
        plan['ops%d' % i] = p.pop('ops')
        plan['cfgs'].append(p.pop('cfg'))
        plan['extra'].append(p)
    size = rng.choice([1, 3, 10, 40, 150, 500])
    sched = []
    if rng.random() < .6:
        sched.append([rng.randint(1, 3000), rng.randint(0, 1)])
    for _ in range(rng.choice([5, 40, 150, 600])):
        g = rng.randint(1, 2 * size)
        if rng.random() < .1:
            g = rng.randint(1, 10 * size)
        sched.append([g, rng.randint(0, 1)])
    plan['sched'] = sched
    if rng.random() < .5:
        mod = rng.choice([5, 20, 60, 120])
        plan['hot'] = [mod, rng.randrange(mod), rng.choice([20, 300, 1500])]
    if rng.random() < .25:
        plan['kill'] = [rng.randrange(n), rng.choice(
            [5, 20, 60, 150, 400, 1000, 2500])]
    return plan


class Recorder(object):
    """What one session returned, call by call."""
    def __init__(self):
        self.outs = []
        self.thread = None

    def note(self, what):
        for w in what:
            self.outs.append(flat(w))

    def unwanted(self, text):
        self.outs.append(['unwanted-output'])

    def __call__(self, fn, a, k):
        t = self.thread
        outer = t.in_call
        t.in_call = True
        try:
            r = fn(*a, **k)
        except Violation:
            raise
        except BaseException as e:
            self.outs.append(['raised', type(e).__name__])
            if t.killed:
                raise EndRun('end', 'killed')
            raise
        finally:
            t.in_call = outer
        if t.killed:
            raise EndRun('end', 'killed')
        self.outs.append(flat(r))
        return r


def body(plan, i, rec):
    def go(thread):
        rec.thread = thread
        p = dict(plan['extra'][i])
        p['cfg'] = copy.deepcopy(plan['cfgs'][i])
        p['ops'] = copy.deepcopy(plan['ops%d' % i])
        ctx = thread.ctx
        try:
            if plan['subs'][i] == 'lib':
                run_lib(p, ctx)
            else:
                load(plan['subs'][i]).run(p, ctx)
        except EndRun:
            rec.outs.append(['end'])
        except Violation as v:
            rec.outs.append(['violation', v.kind])
            rec.viol = v
        except BaseException as e:
            if isinstance(e, MemoryError) and \
                    not isinstance(e, core.SimFault):
                raise
            rec.outs.append(['exception', type(e).__name__])
            rec.viol = e
    return go


def run_lib(p, ctx):
    from sim import lib
    for op in p['ops']:
        ctx.mark('lib', op['o'])
        args, fn = lib.CALLS[op['o']](op['s'])
        try:
            ctx.invoke(fn, *args)
        except Violation:
            raise
        except Exception:
            continue


def simplify(plan):
    if plan.get('hot'):
        for n in (0, plan['hot'][2] // 4, plan['hot'][2] - 1):
            if 0 <= n < plan['hot'][2]:
                c = copy.deepcopy(plan)
                c['hot'][2] = n
                yield c
    if plan.get('kill'):
        c = copy.deepcopy(plan)
        c['kill'] = None
        yield c


def execute(plan, which, ctx, schedule):
    """Run the sessions `which` together; their transcripts."""
    s = threads.Sched(schedule, ctx,
                      plan.get('hot') if len(which) > 1 else None)
    recs = []
    for i in which:
        c = core.Ctx()
        rec = Recorder()
        c.monitor = rec
        kill = plan.get('kill')
        HOOK.reset(c)
        s.add(body(plan, i, rec), c,
              kill[1] if kill and kill[0] == i else None)
        recs.append((rec, c))
    HOOK.reset(None)
    seams.reset_process_state()
    s.run()
    for t in s.threads:
        if t.error is not None and s.aborted is None:
            raise t.error
    return recs, s


def run(plan, ctx):
    n = len(plan['subs'])
    for sub in plan['subs']:
        # no session may lose the baton inside an import
        if sub != 'lib':
            load(sub)
    from sim import alias, lib  # noqa: F401
    for i in range(n):
        ctx.mark(plan['subs'][i])
    recs, s = execute(plan, list(range(n)), ctx, plan['sched'])
    ctx.ev('switches', s.switches)
    for who, where in s.points:
        ctx.ev('switch', who, where)
        ctx.mark(who, where)
    for _ in range(s.switches):
        ctx.faults['thread-switch'] = ctx.faults.get('thread-switch', 0) + 1
    for rec, c in recs:
        for k, v in c.faults.items():
            ctx.faults[k] = ctx.faults.get(k, 0) + v
    for i in range(n):
        (alone, c), = execute(plan, [i], ctx, [])[0]
        together = recs[i][0]
        ctx.ev('session', i, len(alone.outs))
        d = differ(alone.outs, together.outs)
        if d:
            raise Violation('interference', 'session %d (%s): %s alone / '
                            'together' % (i, plan['subs'][i], d))
        if alone.outs and alone.outs[-1][:1] in (['violation'],
                                                 ['exception']):
            ctx.probe('sub-' + '-'.join(str(x) for x in alone.outs[-1]))
