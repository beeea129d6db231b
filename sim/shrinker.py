"""Plan minimisation: drop operations, drop faults, drop configuration,
shrink integers; a candidate counts if it fails with the same kind."""
import copy


def shrink(mod, plan, kind, run, seconds, now):
    t_end = now() + seconds
    tried = [0]

    def fails(p):
        if now() > t_end:
            return False
        tried[0] += 1
        try:
            v = run(p)
        except BaseException:
            return False
        return v is not None and v['kind'] == kind

    best = copy.deepcopy(plan)
    if not fails(copy.deepcopy(best)):
        return best, tried[0]
    changed = True
    while changed and now() < t_end:
        changed = False
        for key in getattr(mod, 'LISTS', ['ops']):
            if isinstance(best.get(key), list):
                new = ddmin(best, key, fails)
                if len(new[key]) < len(best[key]):
                    changed = True
                best = new
        # drop optional keys (faults first) and shrink integers
        for cand in variants(mod, best):
            if now() > t_end:
                break
            if fails(copy.deepcopy(cand)):
                best = cand
                changed = True
                break
    return best, tried[0]


def ddmin(plan, key, fails):
    items = list(plan[key])
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n)
        shrunk = False
        i = 0
        while i < len(items):
            cand = copy.deepcopy(plan)
            cand[key] = items[:i] + items[i + size:]
            if fails(copy.deepcopy(cand)):
                items = cand[key]
                shrunk = True
            else:
                i += size
        if size == 1:
            if not shrunk:
                break
            n = max(2, len(items))
        elif not shrunk:
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    out = copy.deepcopy(plan)
    out[key] = items
    return out


OPTIONAL = ['f', 'int', 'bad', 'a', 'k', 'lf', 'inplace', 'out', 'dt', 'jump',
            'clob', 'nan']


def variants(mod, plan):
    for key in getattr(mod, 'LISTS', ['ops']):
        for i, op in enumerate(plan.get(key) or []):
            if not isinstance(op, dict):
                continue
            for k in OPTIONAL:
                if k in op:
                    c = copy.deepcopy(plan)
                    del c[key][i][k]
                    yield c
    cfg = plan.get('cfg')
    if isinstance(cfg, dict) and isinstance(cfg.get('clients'), list):
        for i in range(len(cfg['clients'])):
            c = copy.deepcopy(plan)
            del c['cfg']['clients'][i]
            yield c
        for i, cl in enumerate(cfg['clients']):
            for j in range(len(cl.get('reads', []))):
                if len(cl['reads']) > 1:
                    c = copy.deepcopy(plan)
                    del c['cfg']['clients'][i]['reads'][j]
                    yield c
    if isinstance(cfg, dict) and isinstance(cfg.get('params'), list):
        for i in range(len(cfg['params'])):
            if len(cfg['params']) > 1:
                c = copy.deepcopy(plan)
                del c['cfg']['params'][i]
                yield c
    if hasattr(mod, 'simplify'):
        for c in mod.simplify(copy.deepcopy(plan)):
            yield c
