"""MDS file sets from a description, and what reading them must give."""
import itertools
import re

import numpy as np

from . import codec

SPECIAL = [0.0, -0.0, float('inf'), float('-inf'), 1e-30, -1.5, 360.0]


def gen_set(rng, threed=None, maxn=4, its=None, wild=True, special=True, nrec=None, packed=True, base=None, prec=None):
    """Description of one file set (JSON)."""
    d = {'base': base or rng.choice(['T', 'run/T', 'hFac', 'out.d/S']), 'seed': rng.randint(0, 10**9),
         'prec': prec or rng.choice(['float32', 'float64']), 'endian': rng.choice(['b', 'b', 'l']),
         'nrec': nrec or rng.choice([1, 1, 1, 2, 3, 5]), 'style': rng.choice(['dataprec', 'dataprec', 'format']),
         'extras': rng.random() < 0.5, 'comments': rng.random() < 0.2, 'special': special and rng.random() < 0.3, 'flat': flat(rng) if rng.random() < 0.06 else None,
         'dirs': False, 'blank': []}
    tx, ty = rng.randint(1, maxn), rng.randint(1, maxn)
    if packed and rng.random() < 0.12:
        # facets of width w stored as whole rows of the global array
        w, m, k = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
        d.update(layout='packed', w=w, rows=m * k, nx=w * k, ntiles=rng.randint(1, 4))
        d['ny'] = m * d['ntiles']
        n = d['ntiles']
    else:
        px, py = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 1)])
        d.update(layout='global' if (px, py) == (1, 1) and rng.random() < 0.7 else 'tiled', tx=tx, ty=ty, px=px, py=py,
                 nx=tx * px, ny=ty * py, map2glob=rng.random() < 0.2)
        n = px * py
    if maxn >= 4 and nrec is None and its is None and rng.random() < 0.06:
        # much of something
        k = rng.choice(['tiles', 'tiles', 'nrec', 'its', 'size', 'size'])
        if k == 'nrec':
            d['nrec'] = rng.choice([11, 12, 25])
        elif k == 'its':
            its = sorted(rng.sample(range(0, 99999), rng.choice([10, 12]))) + rng.choice([[], [9999999999], [1234567890]])
            rng.shuffle(its)
        elif k == 'tiles' and d['layout'] == 'tiled':
            px, py = rng.choice([(11, 1), (1, 12), (10, 2), (2, 10), (5, 5)])
            d.update(px=px, py=py, nx=tx * px, ny=ty * py)
            n = px * py
        elif k == 'size' and d['layout'] != 'packed':
            tx, ty = rng.choice([(33, 40), (130, 70), (1, 1100), (1100, 1), (90, 97)])
            px, py = (d['px'], d['py']) if tx * ty < 2000 else (1, 1) if d['layout'] == 'global' else rng.choice([(2, 1), (1, 2)])
            d.update(px=px, py=py, tx=tx, ty=ty, nx=tx * px, ny=ty * py)
            n = px * py
    d['nz'] = (rng.choice([0, 0, 1, 2, 4]) if threed is None else rng.randint(1, 4) if threed else 0)
    d['its'] = its if its is not None else rng.choice([[], [], [0], [20], [5, 17], [100, 20, 3]])
    if n > 1 and rng.random() < 0.3:
        d['blank'] = sorted(rng.sample(range(n), rng.randint(1, n - 1)))
    if d['layout'] != 'global' and wild and rng.random() < 0.2:
        d['dirs'] = True
        d['base'] = d['base'].split('/')[-1]
    return d


def flat(rng):
    """[value, of the last half only]"""
    return [rng.choice([0.0, 0.0, 0.0, -0.0, 1.0, float('nan')]), rng.random() < 0.3]


def flatten(a, f):
    if f:
        v = a.reshape(-1)
        v[len(v) // 2 if f[1] else 0:] = f[0]


def dims(d):
    return ([d['nz']] if d['nz'] else []) + [d['ny'], d['nx']]


def full(d):
    """(iterations, records, [nz,] ny, nx) as float64, every tile present."""
    r = np.random.Generator(np.random.PCG64(d['seed']))
    sh = [max(1, len(d['its'])), d['nrec']] + dims(d)
    a = r.standard_normal(sh) * 50
    flatten(a, d.get('flat'))
    if d['special'] and not d.get('flat'):
        m = r.random(sh) < 0.2
        a[m] = np.array(SPECIAL)[r.integers(0, len(SPECIAL), int(m.sum()))]
    return a.astype('f4').astype('f8') if d['prec'] == 'float32' else a


def tiles(d):
    """[(number, name suffix, lo, hi (1-based, fastest first), picker of flat indices (rows, cols), map2glob)]"""
    out = []
    nx = d['nx']
    if d['layout'] == 'packed':
        m = d['w'] * d['rows'] // nx
        for t in range(d['ntiles']):
            idx = (t * m * nx + np.arange(d['w'] * d['rows'])).reshape(d['rows'], d['w'])
            out.append((t, '.%03d.001' % (t + 1), [1, t * m + 1], [d['w'], t * m + d['rows']], idx, [d['w'], 0]))
        return out
    t = 0
    for q in range(d['py']):
        for p in range(d['px']):
            lo = [p * d['tx'] + 1, q * d['ty'] + 1]
            hi = [lo[0] + d['tx'] - 1, lo[1] + d['ty'] - 1]
            idx = (np.arange(lo[1] - 1, hi[1])[:, None] * nx + np.arange(lo[0] - 1, hi[0])[None, :])
            out.append((t, '' if d['layout'] == 'global' else '.%03d.%03d' % (p + 1, q + 1), lo, hi, idx,
                        [0, 1] if d.get('map2glob') else None))
            t += 1
    return out


def name_of(d, t, suffix, it):
    pre = 'res_%04d/' % t if d['dirs'] else ''
    return pre + d['base'] + ('' if it is None else '.%010d' % it) + suffix


def fname(d):
    return ('res_*/' if d['dirs'] else '') + d['base']


def files(d):
    """{name: bytes} of the set, and [(t, it index, name without extension)]"""
    a = full(d)
    out, index = {}, []
    tp = {'b': '>', 'l': '<'}[d['endian']] + {'float32': 'f4', 'float64': 'f8'}[d['prec']]
    for k, it in enumerate(d['its'] or [None]):
        for t, suf, lo, hi, idx, m2g in tiles(d):
            if t in d['blank']:
                continue
            n = name_of(d, t, suf, it)
            v = a[k].reshape(a[k].shape[:-2] + (-1,))[..., idx]
            out[n + '.data'] = v.astype(tp).tobytes()
            g, l, h = [d['nx'], d['ny']], list(lo), list(hi)
            if d['nz']:
                g, l, h = g + [d['nz']], l + [1], h + [d['nz']]
            kw = {}
            if d['extras']:
                kw = dict(timestep=it or 0, timeinterval=[3600.0 * (k + 1)], fields=['FLD%d' % i for i in range(d['nrec'])],
                          simulation='sim')
            out[n + '.meta'] = codec.encode_meta(g, l, h, d['prec'], d['nrec'], map2glob=m2g, key=d['style'],
                                                 comments=d['comments'], **kw)
            index.append((t, k, n))
    return out, index


def neighbours(rng, d):
    """Names of files beside those of the set that do not belong to it: other
    quantities whose names begin or end alike, backups, other iterations of
    nothing.  (name, what it is a copy of)"""
    fs, index = files(d)
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        t, k, n = rng.choice(index)
        head, tail = n.rsplit('/', 1) if '/' in n else ('', n)
        base = d['base'].split('/')[-1]
        rest = tail[len(base):]
        how = rng.choice(['longer', 'longer', 'prefix', 'backup', 'hidden', 'digits', 'more', 'three', 'plain'])
        if how == 'longer':
            new = base + rng.choice(['ave', '2', '_x', '-old', '.old']) + rest
        elif how == 'prefix':
            new = rng.choice(['A', 'x_', '0']) + tail
        elif how == 'backup':
            for ext in ('.meta', '.data'):
                out.append([(head + '/' if head else '') + tail + ext + rng.choice(['~', '.bak', '.1']), n + ext])
            continue
        elif how == 'hidden':
            new = '.' + tail
        elif how == 'digits':
            new = base + rng.choice(['.000000099', '.00000000999', '.9', '.0000000x99']) + ('.001.001' if d['layout'] != 'global' else '')
        elif how == 'more':
            new = tail + rng.choice(['.001', '.new', '0', '.0000000099', '.001.001.001'])
        elif how == 'three':
            new = base + '.0000' + rest
        else:
            new = base + rng.choice(['.txt', '.ref', '' if d['its'] else '.0000000099']) + rng.choice(['', '.001.001'])
        m = re.fullmatch(re.escape(base) + r'(\.\d{10})?(\.\d{3}\.\d{3})?', new)
        if m and bool(m[1]) == bool(d['its']):
            continue                            # (that would belong to the set)
        for ext in ('.meta', '.data'):
            out.append([(head + '/' if head else '') + new + ext, n + ext])
    return out


def gen_read(rng, d, simple=False):
    """Keyword arguments of a read of this set."""
    kw, pos = {}, []
    if d['endian'] != 'b' or rng.random() < 0.1:
        kw['machineformat'] = rng.choice({'b': ['b', 'b', '>', 'ieee-be'], 'l': ['l', 'l', '<', 'ieee-le']}[d['endian']])
    if d['its']:
        r = rng.random()
        if r < 0.35:
            itrs = rng.choice(d['its'])
        elif r < 0.6:
            itrs = rng.sample(d['its'], rng.randint(1, len(d['its'])))
            if rng.random() < 0.1:
                itrs = {'t': itrs}
        elif r < 0.8:
            itrs = 'nan'
        else:
            itrs = 'inf'
        if rng.random() < 0.5:
            pos = [itrs]
        else:
            kw['itrs'] = itrs
    if simple:
        return {'pos': pos, 'kw': kw}
    n = d['nrec']
    if rng.random() < 0.45:
        some = [k - n * rng.randint(0, 1) for k in rng.sample(range(n), rng.randint(1, n))]
        kw['rec'] = rng.choice([rng.randrange(n), -1, -n, rng.sample(range(n), rng.randint(1, n)), {'range': [0, n]}, some, some,
                                {'t': some}, {'np': some}, some + some[:1]])
    if d['nz'] and rng.random() < 0.4:
        z = d['nz']
        lv = rng.choice([[rng.randrange(z)], sorted(rng.sample(range(z), rng.randint(1, z))), rng.randrange(z),
                         [k - z * rng.randint(0, 1) for k in rng.sample(range(z), rng.randint(1, z))],
                         [rng.randrange(-z, z) for _ in range(rng.randint(1, z))], {'range': [0, rng.randint(1, z)]}, -1])
        kw['lev'] = rng.choice([lv, {'t': [lv]}])
    if d['layout'] != 'packed' and not d.get('map2glob') and rng.random() < 0.35:
        x = sorted(rng.sample(range(d['nx'] + 1), 2)) if d['nx'] > 1 else [0, 1]
        y = sorted(rng.sample(range(d['ny'] + 1), 2)) if d['ny'] > 1 else [0, 1]
        if rng.random() < 0.2 and 0 < x[1] < d['nx']:
            x[1] -= d['nx']
        if rng.random() < 0.2:
            x[0] -= d['nx']
        if rng.random() < 0.2:
            y = [v - d['ny'] if v < d['ny'] else v for v in y]
        kw['region'] = rng.choice([{'t': x + y}, x + y])
    if rng.random() < 0.35:
        kw[rng.choice(['usememmap', 'mm'])] = True
    if rng.random() < 0.3:
        kw['fill_value'] = rng.choice([-999.0, 1e20, 'nan'])
    if rng.random() < 0.25:
        kw['astype'] = rng.choice(['float32', 'float64', None])
    if rng.random() < 0.25:
        kw['squeeze'] = False
    if rng.random() < 0.2:
        kw['returnmeta'] = True
    if rng.random() < 0.08:
        kw['verbose'] = True
    return {'pos': pos, 'kw': kw}


def aslist(x):
    if isinstance(x, dict):
        return list(range(*x['range'])) if 'range' in x else list(x.get('t', x.get('np')))
    return x if isinstance(x, list) else [x]


def expected(d, rd, gone=()):
    """What the read must return (float64), and the iterations it reads."""
    kw = rd['kw']
    a = full(d)
    fill = kw.get('fill_value', 0)
    fill = float('nan') if fill == 'nan' else fill
    flat = a.reshape(a.shape[:-2] + (-1,)).copy()
    have = np.zeros(flat.shape[-1], bool)
    for t, suf, lo, hi, idx, m2g in tiles(d):
        if t not in d['blank']:
            have[idx.ravel()] = True
    flat[..., ~have] = fill
    for t, k, *narrow in gone:
        idx = [x for x in tiles(d) if x[0] == t][0][4]
        if narrow:
            # (all but the first column, or row)
            idx = idx[:, 1:] if idx.shape[1] > 1 else idx[1:]
        for i in idx.ravel():
            flat[k, ..., i] = fill
    a = flat.reshape(a.shape)
    itrs = rd['pos'][0] if rd['pos'] else kw.get('itrs')
    if not d['its']:
        sel, itl, it_iter = [0], [-1], False
    elif itrs == 'nan':
        itl = sorted(d['its'])
        sel, it_iter = [d['its'].index(i) for i in itl], True
    elif itrs == 'inf':
        itl = [max(d['its'])]
        sel, it_iter = [d['its'].index(itl[0])], False
    else:
        itl = aslist(itrs)
        sel, it_iter = [d['its'].index(i) for i in itl], isinstance(itrs, (list, dict))
    a = a[sel]
    rec = kw.get('rec')
    recs = list(range(d['nrec'])) if rec is None else aslist(rec)
    a = a[:, recs]
    lev = kw.get('lev')
    # (a bare list or number of levels stands for a tuple of it)
    lev = lev['t'] if isinstance(lev, dict) and 't' in lev else [] if lev is None else [lev]
    levs = [aslist(x) for x in lev]
    if levs:
        a = a[:, :, levs[0]]
    if 'region' in kw:
        x0, x1, y0, y1 = kw['region']['t'] if isinstance(kw['region'], dict) else kw['region']
        x0, x1 = [x + d['nx'] if x < 0 else x for x in (x0, x1)]
        y0, y1 = [y + d['ny'] if y < 0 else y for y in (y0, y1)]
        a = a[..., y0:y1, x0:x1]
    lead = list(a.shape[:2 + len(levs)])
    if kw.get('squeeze', True):
        keep = [n for n in lead if n > 1]
    else:
        keeps = [it_iter, isinstance(rec, (list, dict)) or rec is None and len(recs) > 1] + [isinstance(x, (list, dict)) for x in lev]
        keep = [n for n, k in zip(lead, keeps) if k]
    a = a.reshape(keep + list(a.shape[2 + len(levs):]))
    if kw.get('astype') == 'float32':
        a = a.astype('f4')
    elif kw.get('astype', 1) is None and d['prec'] == 'float32':
        a = a.astype('f4')
    return a, itl
