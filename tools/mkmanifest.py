"""Writes /verif/MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    'C01': 'seeded histories of evaluations, writes, failures and interrupts by several clients against an independent reference of each function',
    'C02': 'parameter values checked after every derivative request and transformation, failed ones included',
    'C03': 'reference model of every component, all views read after every write',
    'C04': 'misfitting and numerically failing updates against a reference model, everything compared before and after',
    'C05': 'every vector passed in or handed out is overwritten later and must show no effect',
    'C06': 'original and deep copy run as two systems, each against its own reference',
    'C07': 'each completed evaluation is observed inside the user function and compared with the log',
    'C08': 'problems with a closed-form optimum, histories of aborted runs',
    'C09': 'scripted optimisers and a step-by-step reference of the protocol',
    'C10': 'reference preconditioner kept through failing installations',
    'C11': "scipy's own solver on the same masked vectors as reference, failures at any product or print",
    'C12': 'virtual monotonic and wall clocks with jumps',
    'C13': 'closed-form derivatives of the optimum up to fourth order',
    'C14': 'complete behaviour of the object compared across failed moves',
    'C15': 'crash at any library line or disk step, restart from durable checkpoints in a freshly imported library',
    'C16': 'simulated disk damage and process restart',
    'C17': 'twin executions under two environments in two processes, global state compared around each call',
    'C18': 'deterministic baton-passing thread scheduler with switches at any library line',
    'C19': 'the same question put to an object or call without a history in a freshly imported library, after every kind of history',
}
na = {
    'N01': 'a numerical identity of pure functions of one argument: no schedule, fault, crash or history takes part, so simulation would only be input sampling',
    'N02': 'legality of the image of pure maps: depends on the input alone, nothing to simulate',
    'N03': 'correctness of derivative formulas at a point: depends on the input alone (that they are computed without side effects is C02, that they are not confused by history is C01)',
    'N04': 'an algebraic identity of pure functions: depends on the input alone (its side effects are C02)',
    'N05': 'closed formulas: depend on the input alone',
    'N06': 'closed formulas: depend on the input alone',
    'N07': 'accuracy of quadrature rules: depends on the input alone (the draws are deterministic quantiles, no randomness)',
    'N08': 'matrix algebra of pure functions: depends on the input alone',
    'N09': 'symbolic combinatorics of pure functions, a finite enumeration; its consequences over histories are checked in C13 up to order four',
    'N10': 'linear algebra of one input',
    'N11': 'index placement of one input',
}
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
ids = [p['id'] for p in props]
cmd = '/opt/venv/bin/python -B sim/runner.py '
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B tools/selfcheck.py',
    'checks': [{
        'property': i,
        'quick_cmd': cmd + i,
        'thorough_cmd': 'VERIF_TIER=thorough ' + cmd + i,
        'technique': 'deterministic simulation with fault injection',
        'level': 'exploration',
        'level_note': NOTES[i],
        'evidence_file': 'evidence/%s.json' % i,
    } for i in ids if i in NOTES],
    'not_applicable': [{'property': i, 'reason': na[i]} for i in ids
                       if i not in NOTES],
}
with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
