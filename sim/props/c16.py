"""C16: stored sparse matrices come back identical or not at all."""
import json
import pickle
import random

import numpy as np
import scipy.sparse as sps

import LinearResponseVariationalBayes.SparseObjectives as so

from sim import core, seams
from sim.core import Violation

DTYPES = ['f8', 'f8', 'f8', 'f4', 'i8', 'i4', 'i1', 'u1', '?', 'c16', 'c8']


def gen_mat(rng):
    r = rng.random()
    n, m = rng.randint(1, 7), rng.randint(1, 7)
    if r < .08:
        n = 1
    elif r < .16:
        m = 1
    nnz = rng.choice([0, 0, 1, 2, 3, 5, 9, n * m])
    return {'n': n, 'm': m, 'nnz': min(nnz, n * m), 's': rng.randint(0, 9999),
            'dt': rng.choice(DTYPES), 'zeros': rng.random() < .3,
            'unsorted': rng.random() < .25, 'dups': rng.random() < .15,
            'special': rng.random() < .2, 'slack': rng.random() < .1,
            'tail': rng.random() < .4, 'form': rng.choice(
                ['csr'] * 5 + ['csc', 'coo', 'dense'])}


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(3, 8 if tier == 'quick' else 20)):
        r = rng.random()
        op = {'o': 'store', 'name': rng.choice('ab'), 'mat': gen_mat(rng),
              'fmt': rng.choice(['pickle', 'json', 'json'])}
        q = rng.random()
        if r < .55:
            if q < .12:
                op['w'] = 'ENOSPC'
            elif q < .24:
                op['w'] = 'short'
            elif q < .32:
                op['sync'] = 'EIO'
            elif q < .44:
                op['crash'] = ['before', 'written', 'synced',
                               'renamed'][rng.randint(0, 3)]
            elif q < .5:
                op['line'] = rng.randint(0, 12)
            ops.append(op)
        elif r < .85:
            ops.append({'o': 'corrupt', 'mat': gen_mat(rng),
                        'fmt': op['fmt'], 'part': rng.choice(
                            ['data', 'indices', 'indptr', 'shape', 'type',
                             'record']),
                        'how': rng.choice(['missing', 'trunc', 'trunc',
                                           'label']),
                        'cut': rng.randint(1, 4)})
        else:
            ops.append({'o': 'crash', 'torn': rng.choice([None, .3, .8]),
                        'direct': rng.random() < .5, 'mat': gen_mat(rng),
                        'fmt': op['fmt']})
    return {'cfg': {}, 'ops': ops}


def build(spec):
    """A matrix and its reference: shape, dtype and dense content."""
    r = random.Random(spec['s'])
    n, m = spec['n'], spec['m']
    rows = n
    if spec['tail']:
        rows = max(1, n // 2)         # trailing empty rows
        m_used = max(1, m // 2)       # and columns
    else:
        m_used = m
    cells = [(i, j) for i in range(rows) for j in range(m_used)]
    r.shuffle(cells)
    cells = cells[:spec['nnz']]
    dt = np.dtype(spec['dt'])
    per = {}
    for i, j in cells:
        per.setdefault(i, []).append(j)
    data, ind, ptr = [], [], [0]

    def val():
        if spec['zeros'] and r.random() < .4:
            return 0
        if dt.kind == 'f' and spec['special'] and r.random() < .5:
            return r.choice([np.nan, np.inf, -np.inf, -0., 1e-320, 1e300,
                             1. / 3])
        if dt.kind == 'f':
            return r.choice([r.uniform(-2, 2), r.uniform(-1, 1) * 10. **
                             r.randint(-30, 30), .1])
        if dt.kind == 'c':
            return complex(r.uniform(-2, 2), r.uniform(-2, 2))
        if dt.kind == 'b':
            return True
        if dt.kind == 'u':
            return r.randint(0, 255)
        return r.choice([r.randint(-100, 100), np.iinfo(dt).max,
                         np.iinfo(dt).min])
    for i in range(n):
        cols = per.get(i, [])
        if not spec['unsorted']:
            cols = sorted(cols)
        for j in cols:
            ind.append(j)
            data.append(val())
            if spec['dups'] and dt.kind == 'f' and r.random() < .4:
                ind.append(j)
                data.append(.5)
        ptr.append(len(ind))
    with np.errstate(all='ignore'):
        mat = sps.csr_matrix((np.array(data, dtype=dt),
                              np.array(ind, dtype='i4'),
                              np.array(ptr, dtype='i4')), shape=(n, m))
        dense = np.zeros((n, m), dtype=dt)
        for i in range(n):
            for k in range(ptr[i], ptr[i + 1]):
                dense[i, ind[k]] = dense[i, ind[k]] + mat.data[k]
        form = spec['form']
        if form == 'csc':
            mat = mat.tocsc()
        elif form == 'coo':
            mat = mat.tocoo()
    return mat, dense


def densify(m):
    m = sps.csr_matrix(m)
    out = np.zeros(m.shape, dtype=m.dtype)
    for i in range(m.shape[0]):
        for k in range(m.indptr[i], m.indptr[i + 1]):
            out[i, m.indices[k]] = out[i, m.indices[k]] + m.data[k]
    return out


def pack(mat, fmt):
    if fmt == 'json':
        return so.json_pack_csr_matrix(mat if sps.isspmatrix_csr(mat)
                                       else sps.csr_matrix(mat))
    return so.pack_csr_matrix(mat)


def pack_or_refuse(ctx, mat, fmt):
    """JSON has no non-finite numbers, so packing them may be refused."""
    try:
        return pack(mat, fmt)
    except Exception as e:
        if fmt == 'json' and mat.dtype.kind in 'fc' and \
                not np.isfinite(mat.data).all() and \
                core.in_repo(e.__traceback__):
            ctx.probe('non-finite-refused')
            return None
        raise


def encode(rec, fmt):
    return json.dumps(rec).encode() if fmt == 'json' else \
        pickle.dumps(rec, protocol=2)


def decode(raw, fmt):
    return json.loads(raw.decode()) if fmt == 'json' else pickle.loads(raw)


def unpack(rec, fmt):
    return so.json_unpack_csr_matrix(rec) if fmt == 'json' else \
        so.unpack_csr_matrix(rec)


def stored(mat):
    """The cells a CSR matrix has an entry for, zero or not."""
    return sorted((i, int(mat.indices[k])) for i in range(mat.shape[0])
                  for k in range(mat.indptr[i], mat.indptr[i + 1]))


def check_equal(got, dense, what, cells=None):
    if not sps.isspmatrix_csr(got):
        raise Violation('wrong-kind', '%s: %s' % (what, type(got)))
    if tuple(got.shape) != dense.shape:
        raise Violation('wrong-shape', '%s: %s, expected %s' %
                        (what, got.shape, dense.shape))
    if got.dtype != dense.dtype:
        raise Violation('wrong-dtype', '%s: %s, expected %s' %
                        (what, got.dtype, dense.dtype))
    with np.errstate(all='ignore'):
        d = densify(got)
        d2 = got.toarray()
        for x in (d, d2):
            # bitwise, except that zeros need not keep their sign
            if dense.dtype.kind in 'fc':
                ok = np.array_equal(np.isnan(x), np.isnan(dense)) and \
                    np.array_equal(x[~np.isnan(x)], dense[~np.isnan(dense)])
            else:
                ok = np.array_equal(x, dense)
            if not ok:
                raise Violation('wrong-elements', '%s: %s, expected %s' %
                                (what, x.tolist(), dense.tolist()))
    if cells is not None and stored(got) != cells:
        raise Violation('wrong-entries', '%s: entries at %s, expected %s' %
                        (what, stored(got), cells))


def run(plan, ctx):
    disk = seams.SimDisk(ctx.fired)
    want = {}        # name -> (dense, fmt) that must be durable, or None
    for op in plan['ops']:
        o = op['o']
        mat, dense = build(op['mat'])
        ctx.mark(o, op['fmt'], op['mat']['dt'], op.get('part', ''),
                 op.get('how', ''), op['mat']['nnz'] > 0,
                 *sorted(k for k in ('w', 'sync', 'crash', 'line')
                         if k in op))
        if o == 'store':
            store(ctx, disk, want, op, mat, dense)
        elif o == 'corrupt':
            corrupt(ctx, op, mat, dense)
        else:
            if op['direct']:
                # written in place without syncing, then the power fails
                rec = pack_or_refuse(ctx, mat, op['fmt'])
                if rec is not None:
                    disk.write('raw', encode(rec, op['fmt']))
            disk.crash(op['torn'])
            raw = disk.read('raw')
            if raw is not None and op['direct']:
                load_damaged(ctx, raw, op['fmt'], dense)
                disk.cache.pop('raw', None)
                disk.durable.pop('raw', None)
        for name, w in want.items():
            raw = disk.read(name)
            if w is None:
                continue
            d, fmt, cells = w
            rec = decode(raw, fmt)
            check_equal(unpack(rec, fmt), d, 'stored ' + fmt, cells)
            ctx.ev('read', name)
        if 'form' in op['mat'] and op['mat']['form'] != 'csr' and \
                o == 'store':
            ctx.probe('other-form')


def load_damaged(ctx, raw, fmt, dense):
    try:
        rec = decode(raw, fmt)
    except Exception:
        ctx.probe('record-unreadable')
        return
    # what the decoder accepts must be complete
    check_equal(unpack(rec, fmt), dense, 'complete after a crash')


def store(ctx, disk, want, op, mat, dense):
    name, fmt = op['name'], op['fmt']
    if op['mat']['form'] == 'coo' and fmt == 'json':
        mat = sps.csr_matrix(mat)
    if op['mat']['dups'] and op['mat']['form'] != 'csr':
        mat = sps.csr_matrix(mat)
    before = mat.copy()
    if 'line' in op:
        try:
            with seams.LineInterrupt(op['line'], core.SimCrash('crash'),
                                     ctx.fired):
                rec = pack_or_refuse(ctx, mat, fmt)
        except core.SimCrash:
            disk.crash()
            return
    else:
        rec = pack_or_refuse(ctx, mat, fmt)
    if rec is None:
        return
    if mat.format == before.format:
        with np.errstate(all='ignore'):
            if not np.array_equal(np.nan_to_num(densify(mat)),
                                  np.nan_to_num(densify(before))) or \
                    mat.dtype != before.dtype:
                raise Violation('argument-modified', 'packing changed the '
                                'matrix')
        if mat.format == 'csr' and stored(mat) != stored(before):
            raise Violation('argument-modified', 'packing changed the '
                            'entries the matrix stores')
    raw = encode(rec, fmt)
    try:
        c = op.get('crash')
        if c == 'before':
            disk.crash()
            return
        disk.write('tmp', raw, op.get('w'))
        if c == 'written':
            disk.crash(.6)
            return
        disk.fsync('tmp', op.get('sync'))
        if c == 'synced':
            disk.crash()
            return
        disk.rename('tmp', name)
        want[name] = (dense, fmt, stored(before)
                      if before.format == 'csr' else None)
        if c == 'renamed':
            disk.crash()
    except OSError as e:
        if not isinstance(e, core.SimFault):
            raise
        ctx.probe('store-failed')


def corrupt(ctx, op, mat, dense):
    """A record with a missing, truncated or mislabelled part."""
    fmt, part, how, cut = op['fmt'], op['part'], op['how'], op['cut']
    rec = pack_or_refuse(ctx, mat, fmt)
    if rec is None:
        return
    rec = decode(encode(rec, fmt), fmt)
    if part == 'type' and fmt != 'json':
        return
    if part == 'record':
        rec = {k: rec[k] for k in sorted(rec)[:max(0, len(rec) - cut)]}
        if 'type' not in rec and fmt != 'json' and len(rec) == 4:
            return
    elif how == 'missing' or how == 'label' and part != 'type':
        del rec[part]
        if how == 'label':
            rec[part + 's'] = 0
    elif part == 'type':
        rec['type'] = {'trunc': 'csr_matrix'[:-cut],
                       'label': 'csc_matrix'}.get(how, 'coo_matrix')
    elif part == 'shape':
        rec['shape'] = list(rec['shape'])[:1] if cut % 2 else []
    elif fmt == 'json' and cut % 2:
        # the text itself is cut short
        rec[part] = rec[part][:max(0, len(rec[part]) - cut)]
    else:
        arr = np.asarray(so.json_tricks.loads(rec[part]) if fmt == 'json'
                         else rec[part])
        if arr.size == 0:
            return
        arr = arr[:max(0, arr.size - cut)]
        rec[part] = so.json_tricks.dumps(arr) if fmt == 'json' else arr
    ctx.fired('record:%s:%s' % (part, how))
    try:
        with np.errstate(all='ignore'):
            r = unpack(rec, fmt)
    except Exception as e:
        ctx.ev('refused', part, how)
        if not core.in_repo(e.__traceback__):
            raise
        return
    raise Violation('damaged-record-accepted', '%s %s of a %s record gave '
                    '%r' % (part, how, fmt, r))
