"""Run counts and soft time caps (s) per check, and what evidence says."""

BUDGET = {}
META = {}

REAL = ['the whole library (parameters, objectives, optimisation, sensitivity)',
        'autograd', 'numpy', 'scipy']
SIM_COMMON = ['standard output (breakable in-memory stream)',
              'clock (virtual time)']


def prop(pid, runs, thorough, rule, stub, real=None, assumptions=None,
         cap=60, tcap=1500):
    BUDGET[pid] = {'quick': {'runs': runs, 'cap': cap, 'stall': 90},
                   'thorough': {'runs': thorough, 'cap': tcap, 'stall': 180}}
    META[pid] = {'rule': rule, 'stub': stub, 'real': real or REAL,
                 'assumptions': assumptions or []}


WORLD_RULE = ('one run = one generated session (random parameter tree, random '
              'clients) and one generated operation, schedule and fault '
              'sequence; non-trivial: at least one fault fired and more than '
              'two operations; distinct by the sequence of operation kinds, '
              'routes, parameter kinds and faults')
USER = ['user functions (simulated, faultable)']

prop('C01', 2400, 60000, WORLD_RULE, USER + SIM_COMMON)
prop('C02', 2400, 60000, WORLD_RULE, USER + SIM_COMMON)
prop('C03', 3000, 80000, WORLD_RULE, USER + SIM_COMMON)
prop('C04', 3000, 80000, WORLD_RULE, USER + SIM_COMMON)
prop('C05', 2400, 60000, WORLD_RULE, USER + SIM_COMMON)
prop('C06', 2000, 50000, WORLD_RULE, USER + SIM_COMMON)

prop('C07', 3000, 80000, 'one run = one generated objective and one generated '
     'sequence of logged evaluations, derivative calls, minimisations, '
     'preconditioners, callbacks and faults; non-trivial: at least one fault '
     'fired and more than two operations; distinct by the sequence of '
     'operation kinds, methods and faults', USER + SIM_COMMON)
prop('C08', 1200, 30000, 'one run = one generated problem with a known '
     'optimum and one generated history of aborted and completed '
     'minimisations, preconditioners and moves; non-trivial: a fault fired '
     'and more than two operations; distinct by the sequence of operations '
     'and faults', USER + SIM_COMMON)
prop('C09', 3000, 80000, 'one run = one generated optimiser script and '
     'objective; non-trivial: a fault or misbehaving optimiser and more than '
     'two optimiser calls; distinct by the sequence of calls and outcomes',
     USER + ['optimiser (simulated, faultable)'] + SIM_COMMON)
prop('C10', 3000, 80000, 'one run = one generated sequence of preconditioner '
     'installations (some failing) and conditioned evaluations; non-trivial: '
     'at least one fault; distinct by the sequence of operations and faults',
     USER + ['failing decompositions'] + SIM_COMMON)
prop('C11', 3000, 80000, 'one run = one generated sequence of subset solves, '
     'retries, resets, and preconditioners with failing products and output; '
     'non-trivial: a fault and more than two operations; distinct by the '
     'sequence of operations and faults', USER + SIM_COMMON)
prop('C12', 4000, 100000, 'one run = one generated sequence of timed sections '
     'under a virtual clock with wall-clock jumps and output failures; '
     'non-trivial: a jump or fault; distinct by the sequence of operations '
     'and faults', USER + SIM_COMMON)
prop('C13', 1000, 25000, 'one run = one generated sensitivity problem with a '
     'closed-form optimum and one generated history of queries, moves and '
     'faults; non-trivial: a fault or foreign move; distinct by the sequence '
     'of operations and faults', USER + SIM_COMMON)
prop('C14', 1000, 25000, 'one run = one generated sensitivity problem and one '
     'generated sequence of changes of base point, many failing, with '
     'queries; non-trivial: at least one failed change; distinct by the '
     'sequence of operations and faults', USER + ['failing decompositions'] +
     SIM_COMMON)
prop('C15', 2000, 50000, 'one run = one generated parameter description or '
     'iterative computation with checkpoints on a simulated disk and crashes; '
     'non-trivial: a crash or disk fault; distinct by the sequence of '
     'operations and faults', USER + ['disk (in-memory, torn, lost and failed '
     'writes)', 'process restart (library re-imported)'] + SIM_COMMON)
prop('C16', 4000, 100000, 'one run = one generated set of matrices, stored '
     'and damaged on a simulated disk and read back by a restarted process; '
     'non-trivial: a disk or record fault; distinct by the sequence of '
     'operations and faults', ['disk (in-memory, torn, lost and failed '
     'writes)', 'process restart (library re-imported)'])
prop('C17', 1200, 30000, 'one run = one generated session of any other kind '
     'executed under two generated process environments, one in a second '
     'process with another hash seed; non-trivial: more than two calls; '
     'distinct by the sequence of operations and faults',
     USER + SIM_COMMON)
prop('C18', 700, 20000, 'one run = two or three generated sessions and one '
     'generated thread schedule; non-trivial: at least one thread switch; '
     'distinct by the sequence of (thread, code line) at which switches '
     'happened', USER + ['thread scheduler (baton passing, real threads)',
                         "lock inside scipy's cg (scheduler-aware)"] +
     SIM_COMMON)

prop('C19', 1600, 40000, 'one run = one generated history of writes, in-place '
     'changes, queries, derivative requests, failures, interrupts, copies and '
     'helper calls on reused arrays; non-trivial: at least one fault fired '
     'and more than two operations; distinct by the sequence of operation '
     'kinds, distributions, helpers and faults', USER + SIM_COMMON)
