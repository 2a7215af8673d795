"""C03: reading a grid gives exactly what is stored, or an error."""
import io
import os

import numpy as np

from .. import codec, core, ops
from .common import *

CASES = {'quick': 1500, 'thorough': 40000}
RULE = ('a run stores a grid (or coordinate files) and reads it 2-6 times under seeded read faults, truncation, removal of '
        'rows, extra bytes and damaged padding, strict or not, each in its own process; non-trivial: a fault fired or the '
        'file was damaged')
ASSUMPTIONS = ASSUME + ['loss of characters inside the last number of a text coordinate file is not detectable from the format']
SIG = 'input kind x damage x fired faults x verdict'

VALUES = [1.0, -1e-300, 5e-324, float('inf'), float('nan'), 360.0, -7.25]


def gen(rng, ctx, tier, i):
    kind = rng.choice(['grid', 'grid', 'grid', 'grid', 'bin', 'csv'])
    case = {'kind': kind, 'steps': [], 'file': rng.choice(['g.mitgrid', 'in/g.mitgrid', 'g'])}
    if kind == 'grid':
        ni, nj = dims(rng)
        case.update(ni=ni, nj=nj, grid=rand_grid(rng, ni, nj))
    else:
        ni, nj = rng.randint(1, 4), rng.randint(1, 4)
        lon, lat, d = rng.choice([-40.0, 30.0, 175.0]), rng.choice([-50.0, 0.0, 35.0]), rng.choice([0.02, 0.4, 1.5])
        case.update(ni=ni, nj=nj, grid={'kind': 'geo', 'lon1': lon, 'lat1': lat + d * nj, 'lon2': lon + d * ni, 'lat2': lat,
                                        'ni': ni, 'nj': nj}, fmt=rng.choice(['%.17g', '%.18e', '%r']), nl=rng.random() < 0.8)
    for s in range(rng.randint(2, 6)):
        st = {'strict': rng.random() < 0.5, 'verbose': rng.random() < 0.2, 'stdio_buf': bufs(rng, ni * nj), 'faults': [], 'damage': None}
        r = rng.random()
        if kind == 'grid':
            size = 128 * (case['ni'] + 1) * (case['nj'] + 1)
            if r < 0.2:
                st['damage'] = {'cut': rng.choice([0, 1, 7, 8, size - 1, size - 8, size - 8 * rng.randint(1, 16 * (ni + 1)), rng.randint(0, size - 1),
                                                   8 * rng.randint(0, size // 8 - 1), size // 16 * rng.randint(0, 15)])}
            elif r < 0.3:
                st['damage'] = {'extra': rng.choice([1, 8, size // 16, size // 8, rng.randint(1, size)])}
            elif r < 0.7:
                f = rng.choice([x for x in codec.FIELDS if not (x[1] and x[2])])
                where = []
                if not f[1]:
                    where += [('row', rng.randint(0, nj))]
                if not f[2]:
                    where += [('col', rng.randint(0, ni))]
                w = rng.choice(where)
                st['damage'] = {'pad': f[0], 'line': w[0], 'at': w[1], 'value': rng.choice(VALUES)}
                if rng.random() < 0.4:
                    # more than one damaged place in the same field: cancelling values, a whole line, scattered ones
                    v, how = st['damage']['value'], rng.choice(['cancel', 'cancel', 'line', 'scatter'])
                    cells = [(x, y) for x in where for y in range(nj + 1 if x[0] == 'row' else ni + 1)]
                    more = []
                    for x, y in cells:
                        if (x[0], y) == (w[0], w[1]) or how == 'line' and x[0] != w[0]:
                            continue
                        more.append([x[0], y, -v if how == 'cancel' else v if how == 'line' else rng.choice(VALUES)])
                    if how != 'line':
                        more = rng.sample(more, min(len(more), 1 if how == 'cancel' else rng.randint(1, 4)))
                    st['damage']['more'] = more
                if rng.random() < 0.7:
                    st['strict'] = True
        else:
            if r < 0.15:
                st['damage'] = {'cutx': rng.choice([0, 3, 8, rng.randint(0, 8 * (ni + 1) * (nj + 1) - 1)])} if kind == 'bin' else {'rowsx': rng.randint(1, ni + 1)}
            elif r < 0.3:
                st['damage'] = {'cuty': rng.choice([0, 3, 8, rng.randint(0, 8 * (ni + 1) * (nj + 1) - 1)])} if kind == 'bin' else {'rowsy': rng.randint(1, ni + 1)}
            elif r < 0.5 and kind == 'csv':
                n = rng.randint(1, ni + 1)
                st['damage'] = {'rowsx': n, 'rowsy': n}
            elif r < 0.62 and kind == 'csv':
                w = rng.choice('xy')
                # (cutting inside the last number leaves another number)
                at = rng.choice([rng.random(), 1.0])
                st['damage'] = {rng.choice(['text', 'empty', 'junk']) + w: at if rng.random() < 0.5 else [rng.randint(0, ni), rng.randint(0, nj)]}
            elif r < 0.7 and kind == 'csv':
                n = rng.randint(1, nj + 1)
                st['damage'] = {'colsx': n, 'colsy': n}
            elif r < 0.78 and r >= 0.7 and kind == 'csv':
                # lines or columns too many, or the lines and columns exchanged
                how, n = rng.choice(['morerows', 'morecols', 'swap'][:2 + (ni != nj)]), rng.choice([1, 1, 2, ni + 1])
                st['damage'] = {how + w: n for w in rng.choice(['x', 'y', 'xy'])}
            elif r < 0.6 and r >= 0.5 and kind == 'bin':
                n = rng.choice([8, 8 * (ni + 1), 8 * (nj + 1), 8 * (ni + 1) * (nj + 1), rng.randint(8, 5000)])
                st['damage'] = {'more' + w: n for w in rng.choice(['x', 'y', 'xy'])}
            elif r < 0.5 and kind == 'bin':
                n = rng.choice([rng.randint(0, 8 * (ni + 1) * (nj + 1) - 1), 8 * (ni + 1) * nj, 8 * (nj + 1) * ni])
                st['damage'] = {'cutx': n, 'cuty': n}
        if rng.random() < 0.55:
            place(ctx, case, st)
            o = ctx.node('ops:run_op', rop(case, st), stdio_buf=st['stdio_buf'], probe=True)
            ol = oplist(o.log)
            if ol:
                if kind != 'grid' and rng.random() < 0.3:
                    # another process removes one file between two operations
                    a = rng.choice(ol)
                    st['faults'] = [{'on': a[0], 'nth': a[1], 'kind': 'action', 'act': ['unlink', rng.choice(files(case)), '']}]
                else:
                    st['faults'] = gen_faults(rng, ol)
        case['steps'].append(st)
    return case


def files(case):
    if case['kind'] == 'grid':
        return [case['file']]
    ext = '.csv' if case['kind'] == 'csv' else '.bin'
    return ['xg' + ext, 'yg' + ext]


def rop(case, st):
    if case['kind'] == 'grid':
        return {'op': 'read_grid', 'file': case['file'], 'ni': case['ni'], 'nj': case['nj'], 'strict': st['strict'], 'verbose': st['verbose']}
    g = case['grid']
    x, y = files(case)
    return {'op': 'regrid', 'src': {'kind': 'xgyg', 'xg': x, 'yg': y, 'ni': case['ni'], 'nj': case['nj']}, 'verbose': st['verbose'],
            'strict': st['strict'], 'lon1': g['lon1'], 'lat1': g['lat1'], 'lon2': g['lon2'], 'lat2': g['lat2'],
            'lon_subscale': 1, 'lat_subscale': 1}


def coord_file(case, a, st, which):
    d = st['damage'] or {}
    if case['kind'] == 'bin':
        data = np.asarray(a, '>f8').tobytes(order='F')
        if 'more' + which in d:
            data += data * (d['more' + which] // len(data) + 1)
            data = data[:8 * a.size + d['more' + which]]
        return data[:d['cut' + which]] if 'cut' + which in d else data
    rows = a[:d.get('rows' + which, a.shape[0]), :d.get('cols' + which, a.shape[1])]
    if 'morerows' + which in d:
        rows = np.concatenate([rows] + [rows[-1:]] * d['morerows' + which])
    if 'morecols' + which in d:
        rows = np.concatenate([rows] + [rows[:, -1:]] * d['morecols' + which], 1)
    if 'swap' + which in d:
        rows = rows.T
    f = (lambda v: repr(float(v))) if case['fmt'] == '%r' else (lambda v: case['fmt'] % v)
    rows = [[f(v) for v in r] for r in rows]
    for k in ('empty', 'junk'):
        if k + which in d:
            at = d[k + which]
            i, j = at if isinstance(at, list) else (int(at * (len(rows) - 1)), int(at * 7919) % len(rows[0]))
            rows[min(i, len(rows) - 1)][min(j, len(rows[0]) - 1)] = '' if k == 'empty' else '1.0x'
    text = '\n'.join(','.join(r) for r in rows)
    if 'text' + which in d:
        at = d['text' + which]
        top = len(text) - len(rows[-1][-1])
        if isinstance(at, list):
            # just before or after a number
            i, j = min(at[0], len(rows) - 1), min(at[1], len(rows[0]) - 1)
            n = sum(len(','.join(r)) + 1 for r in rows[:i]) + sum(len(x) + 1 for x in rows[i][:j])
            return text[:min(n, top)].encode()
        return text[:int(at * top)].encode()
    return (text + ('\n' if case['nl'] else '')).encode()


def place(ctx, case, st):
    g = ops.grid_of(case['grid'])
    ni, nj, d = case['ni'], case['nj'], st['damage'] or {}
    if case['kind'] == 'grid':
        data = codec.encode_grid(g, ni, nj)
        if 'cut' in d:
            data = data[:d['cut']]
        if 'extra' in d:
            data = data + bytes(range(1, 256)) * (d['extra'] // 255 + 1)
            data = data[:128 * (ni + 1) * (nj + 1) + d['extra']]
        if 'pad' in d:
            k = codec.NAMES.index(d['pad'])
            a = np.frombuffer(data, '>f8').copy()
            for line, at, value in d.get('more', []) + [[d['line'], d['at'], d['value']]]:
                i, j = (ni, min(at, nj)) if line == 'row' else (min(at, ni), nj)
                a[k * (ni + 1) * (nj + 1) + j * (ni + 1) + i] = value
            data = a.tobytes()
        ctx.put(case['file'], data)
        return g
    x, y = files(case)
    ctx.put(x, coord_file(case, g['XG'], st, 'x'))
    ctx.put(y, coord_file(case, g['YG'], st, 'y'))
    return g


def run(case, ctx):
    case['ni'], case['nj'] = ops.grid_shape(case['grid'])
    for k, st in enumerate(case['steps']):
        g = place(ctx, case, st)
        before = ctx.snap()
        o = ctx.node('ops:run_op', rop(case, st), plan=st['faults'], stdio_buf=st['stdio_buf'])
        d = st['damage'] or {}
        nf = fired(o)
        if nf or d:
            ctx.nontrivial = True
        dk = '+'.join(sorted(d)) or 'intact'
        ctx.sig(case['kind'], dk, st['strict'], *sorted(o.log.fired), o.kind, o.etype)
        b = bad_end(o)
        if b:
            return [b]
        whole = case['grid'].get('none') or []
        short = 'cut' in d or any(x in d for x in ('cutx', 'cuty', 'textx', 'texty', 'emptyx', 'emptyy', 'junkx', 'junky')) or \
            any(d.get('rows' + w, 10 ** 9) < case['ni'] + 1 or d.get('cols' + w, 10 ** 9) < case['nj'] + 1 for w in 'xy')
        other = case['kind'] != 'grid' and any(x.startswith(('more', 'swap')) for x in d)
        if o.ok:
            ctx.count('accepted')
            if other and not nf:
                return [vio('misfit-accepted', 'step %d: an input that is not of the size asked for (%s) was accepted' % (k, d))]
            if short:
                return [vio('short-accepted', 'step %d: an input that lost data (%s) was accepted' % (k, d))]
            if case['kind'] == 'grid':
                if st['strict'] and 'pad' in d:
                    return [vio('padding-accepted', 'step %d: strict reading accepted %r in padding of %s'
                                % (k, [[d['line'], d['at'], d['value']]] + d.get('more', []), d['pad']))]
                if sorted(o.value) != sorted(codec.NAMES):
                    return [vio('wrong-read', 'fields are %s' % sorted(o.value))]
                for n in codec.NAMES:
                    want = g[n] if g[n] is not None else np.full(codec.shape_of(n, case['ni'], case['nj']), np.nan)
                    if not codec.same_bits(o.value[n], want):
                        return [vio('wrong-read', 'step %d: field %s of a %dx%d grid differs (shape %s); faults: %s'
                                    % (k, n, case['ni'], case['nj'], np.shape(o.value[n]), o.log.fired))]
            else:
                r, ni, nj = o.value
                if (ni, nj) != (case['ni'], case['nj']) or not codec.same_bits(r['XG'], g['XG']) or not codec.same_bits(r['YG'], g['YG']):
                    return [vio('wrong-read', 'step %d: corners read from %s differ; damage %s, faults %s' % (k, files(case), d, o.log.fired))]
        else:
            ctx.count('refused')
            if not nf and not d:
                return [vio('spurious-error', 'step %d: an intact input was refused: %s' % (k, o.brief()))]
            if not nf and 'pad' in d and not st['strict']:
                return [vio('spurious-error', 'step %d: padding damage was refused without strict: %s' % (k, o.brief()))]
        if not any(f['kind'] == 'action' for f in st['faults']) and ctx.snap() != before:
            return [vio('input-changed', 'step %d: reading changed the disk' % k)]
    return []
