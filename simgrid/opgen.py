"""A small world of input files and arrays, and random operations on it."""
import numpy as np

from . import codec, mdsgen, model, ops

GRIDFIELDS = ('XC', 'XG', 'YG', 'RAZ', 'DXC')


def gen_geo(rng, top=5, near=0.3):
    """A rectangular grid somewhere on the sphere, cells from 1 km to 5 degrees."""
    ni, nj = rng.randint(1, top), rng.randint(1, top)
    d = rng.choice([0.01, 0.01, 0.05, 0.05, 0.3, 0.3, 1.0, 1.0, 1.0, 3.0, 3.0, 5.0, 5.0, 14.0, 22.0])
    if d * max(ni, nj) > 120:
        d = 1.0
    r = rng.random()
    if r < 0.1:
        lon = 180.0 - d * ni / 2 if rng.random() < 0.5 else 178.0
    else:
        lon = round(rng.uniform(-170, min(140, 175 - d * ni)), 2)
    lat = round(rng.uniform(-60, 60), 2)
    lat = min(lat, 84.0 - d * nj)
    return {'kind': 'geo', 'lon1': lon, 'lat1': lat + d * nj, 'lon2': lon + d * ni * rng.choice([1, 1, 0.5]), 'lat2': lat, 'ni': ni, 'nj': nj}


def gen_curv(rng, top=5):
    """A curvilinear grid, cells from 30 m to 4 degrees, not near a pole."""
    d = rng.choice([0.0003, 0.003, 0.03, 0.3, 1.0, 2.0])
    c = {'kind': 'curv', 'ni': rng.randint(1, top), 'nj': rng.randint(1, top), 'dx': d * rng.choice([0.5, 1, 2]), 'dy': d,
         'angle': round(rng.uniform(0, 360), 1), 'bend': rng.choice([0, 0, 0.1, -0.15]), 'lat': round(rng.uniform(-55, 55), 2),
         'lon': rng.choice([0.0, 180.0, round(rng.uniform(-180, 180), 2), round(rng.uniform(-180, 180), 2)]), 'conv': rng.choice([180, 360])}
    return c


def part(g, sl_i, sl_j):
    """Fields of the sub-grid of cells [i0:i1, j0:j1] of a complete grid, with
    the boundary entries that need outside neighbours set to zero."""
    (i0, i1), (j0, j1) = sl_i, sl_j
    sub = {}
    for n in codec.NAMES:
        di, dj = codec.DEL[n]
        a = np.array(g[n][i0:i1 + di, j0:j1 + dj])
        if n in ('DXC', 'DXV', 'RAW', 'RAZ'):
            a[0, :] = a[-1, :] = 0
        if n in ('DYC', 'DYU', 'RAS', 'RAZ'):
            a[:, 0] = a[:, -1] = 0
        sub[n] = a
    return sub


def gen_world(rng, top=4, obcs=True):
    """The world as data."""
    w = {'geo': gen_geo(rng, top), 'rand': None, 'sets': [], 'fields': [], 'obcs': None}
    g = w['geo']
    # two tiles need two cells along the axis of the cut
    ax = rng.choice('ij')
    k = 'ni' if ax == 'i' else 'nj'
    if g[k] < 2:
        step = (g['lon2'] - g['lon1']) / g['ni'] if ax == 'i' else (g['lat1'] - g['lat2']) / g['nj']
        if ax == 'i':
            g['lon2'] += step
        elif g['lat1'] + step > 84:
            g['lat2'] -= step
        else:
            g['lat1'] += step
        g[k] += 1
    w['cut'] = [ax, rng.randint(1, g[k] - 1)]
    ni, nj = rng.randint(1, 6), rng.randint(1, 6)
    w['rand'] = {'kind': 'rand', 'seed': rng.randint(0, 10**9), 'ni': ni, 'nj': nj, 'layout': rng.choice(['C', 'F', 'rev', 'strided', 'be'])}
    if rng.random() < 0.3:
        w['rand']['special'] = True
    if rng.random() < 0.3:
        w['rand']['none'] = rng.sample(codec.NAMES, rng.randint(1, 4))
    for b in ('T', 'S')[:rng.randint(1, 2)]:
        w['sets'].append(mdsgen.gen_set(rng, maxn=3, wild=False, base='mds/' + b))
    proto = mdsgen.gen_set(rng, threed=False, its=[], wild=False, special=False, nrec=1, packed=False, base='X', maxn=2)
    for n in codec.NAMES:
        if n in ('XC', 'XG') or rng.random() < 0.3:
            w['fields'].append(dict(proto, base=n, seed=rng.randint(0, 10**9), endian='b'))
    if obcs and rng.random() < 0.6:
        w['obcs'] = gen_obcs(rng)
    return w


def gen_obcs(rng, top=3, big=False):
    """Parent grid, regional grid inside it and results on the parent grid."""
    pni, pnj = rng.randint(2, top + 1), rng.randint(2, top + 1)
    d = rng.choice([0.5, 2.0])
    lon, lat = round(rng.uniform(-160, 140), 1), round(rng.uniform(-50, 45), 1)
    par = {'kind': 'geo', 'lon1': lon, 'lat1': lat + d * pnj, 'lon2': lon + d * pni, 'lat2': lat, 'ni': pni, 'nj': pnj}
    m = d * 0.25
    reg = {'kind': 'geo', 'lon1': lon + m, 'lat1': lat + d * pnj - m, 'lon2': lon + d * pni - m, 'lat2': lat + m,
           'ni': rng.randint(1, top), 'nj': rng.randint(1, top)}
    its = rng.choice([[0], [5, 17], [100, 20, 3], [72]])
    tiled = rng.random() < 0.4
    o = {'parent': par, 'region': reg, 'its': its, 'resp': []}
    for r in ('T', 'S', 'Eta', 'W', 'U', 'UICE', 'V', 'VICE'):
        if r == 'T' or rng.random() < 0.35:
            s = {'base': r, 'seed': rng.randint(0, 10**9), 'prec': rng.choice(['float32', 'float64']), 'endian': 'b', 'nrec': 1,
                 'style': 'dataprec', 'extras': False, 'comments': False, 'special': False, 'dirs': False, 'blank': [],
                 'nz': 0 if r in ('Eta', 'UICE', 'VICE') else rng.choice([0, 1, 2, 3]) if r != 'T' else rng.randint(1, 3),
                 'its': its, 'layout': 'global', 'map2glob': False, 'tx': pni, 'ty': pnj, 'px': 1, 'py': 1, 'nx': pni, 'ny': pnj}
            if tiled:
                px = rng.choice([x for x in (1, 2, 3) if pni % x == 0])
                py = rng.choice([x for x in (1, 2, 3) if pnj % x == 0])
                s.update(layout='tiled', px=px, py=py, tx=pni // px, ty=pnj // py)
            elif r in ('U', 'UICE', 'V', 'VICE') and rng.random() < 0.3:
                # with the points on the last edge
                x = 'x' if r[0] == 'U' else 'y'
                s['n' + x] = s['t' + x] = s['n' + x] + 1
            if rng.random() < 0.05:
                s['flat'] = [rng.choice([0.0, 0.0, 1.0]), rng.random() < 0.3]
            o['resp'].append(s)
    return o


def tile_specs(w):
    """(cells of the first tile, cells of the second) as slices of the big grid."""
    g = w['geo']
    ax, k = w['cut']
    if ax == 'i':
        return ((0, k), (0, g['nj'])), ((k, g['ni']), (0, g['nj']))
    return ((0, g['ni']), (0, k)), ((0, g['ni']), (k, g['nj']))


def tiles(w):
    g = ops.grid_of(w['geo'])
    return [part(g, *sl) for sl in tile_specs(w)]


def dims_of(sl):
    return sl[0][1] - sl[0][0], sl[1][1] - sl[1][0]


def files(w):
    """{name: bytes} of the world."""
    out = {'out/': None}
    g = ops.grid_of(w['geo'])
    ni, nj = w['geo']['ni'], w['geo']['nj']
    out['big.mitgrid'] = codec.encode_grid(g, ni, nj)
    for name, t, sl in zip('lh', tiles(w), tile_specs(w)):
        out[name + '.mitgrid'] = codec.encode_grid(t, *dims_of(sl))
    for c in ('XG', 'YG'):
        out[c.lower() + '.bin'] = np.asarray(g[c], '>f8').tobytes(order='F')
        out[c.lower() + '.csv'] = ('\n'.join(','.join(repr(float(v)) for v in r) for r in g[c]) + '\n').encode()
    r = w['rand']
    out['rand.mitgrid'] = codec.encode_grid(ops.grid_of(r), r['ni'], r['nj'])
    for s in w['sets']:
        out.update(mdsgen.files(s)[0])
    for d in w['fields']:
        for n, b in mdsgen.files(d)[0].items():
            out['grid/' + n] = b
    o = w['obcs']
    if o:
        out.update(obcs_files(o))
    return out


def obcs_files(o, pre='par/'):
    out = {}
    p, r = o['parent'], o['region']
    out['parent.mitgrid'] = codec.encode_grid(ops.grid_of(p), p['ni'], p['nj'])
    out['region.mitgrid'] = codec.encode_grid(ops.grid_of(r), r['ni'], r['nj'])
    for s in o['resp']:
        for n, b in mdsgen.files(s)[0].items():
            out[pre + n] = b
    return out


def grids(w):
    """Descriptions of grids that operations on arrays may be given."""
    return [w['geo'], w['rand']] + ([w['obcs']['region']] if w['obcs'] else [])


COMPUTE = ('mkgrid', 'regrid', 'regrid', 'addfringe', 'stitch')
ARRAYS = ('write_grid', 'matchedges', 'fill', 'edges', 'areas', 'tomitgrid', 'nearest', 'lonlat2cart', 'squad', 'pquad')
READS = ('read_grid', 'rdmds', 'rdmds', 'scanforfiles', 'parsemeta', 'mds2mitgrid')
WRITES = ('write_grid', 'wrmds')
ALL = COMPUTE + ARRAYS + READS + WRITES + ('getobcs',)
# fail for a reason in their arguments
BAD = ('bad_regrid', 'bad_file', 'bad_tiles', 'bad_rdmds', 'bad_wrmds', 'bad_size', 'bad_meta')


def corners(rng, gs):
    """Two diagonally opposite corners of a part of a grid, in any of the four
    orientations -> (lon1, lat1, lon2, lat2, ni, nj)"""
    g = ops.grid_of(gs)
    m, n = g['XG'].shape[0] - 1, g['XG'].shape[1] - 1
    i = sorted(rng.sample(range(m + 1), 2))
    j = sorted(rng.sample(range(n + 1), 2))
    if rng.random() < 0.5:
        i.reverse()
    if rng.random() < 0.5:
        j.reverse()
    p, q = (i[0], j[0]), (i[1], j[1])
    return [float(g[c][x]) for x in (p, q) for c in ('XG', 'YG')], (p, q)


def gen_op(rng, w, kinds=ALL, out='o', verbose=0.1, bad=0.0):
    """One operation; out names what it writes, if it writes."""
    if bad and rng.random() < bad:
        return gen_bad(rng, w, out)
    for _ in range(20):
        op = gen_kind(rng, w, rng.choice(kinds), out)
        if op:
            break
    else:
        op = gen_kind(rng, w, 'read_grid', out)
    if rng.random() < verbose and op['op'] not in ('rdmds', 'wrmds', 'scanforfiles', 'parsemeta', 'write_grid', 'nearest', 'cmd'):
        op['verbose'] = True
    if rng.random() < 0.2 and op['op'] in ('read_grid', 'addfringe', 'stitch', 'regrid', 'getobcs'):
        op['strict'] = True
    return op


def tile_args(rng, w):
    a, b = tile_specs(w)
    names = ['l.mitgrid', 'h.mitgrid']
    sl = [a, b]
    if rng.random() < 0.5:
        names.reverse()
        sl.reverse()
    (nia, nja), (nib, njb) = dims_of(sl[0]), dims_of(sl[1])
    return {'tilea': names[0], 'nia': nia, 'nja': nja, 'tileb': names[1], 'nib': nib, 'njb': njb}


def gen_kind(rng, w, k, out):
    g = w['geo']
    if k == 'mkgrid':
        q = gen_geo(rng, 4)
        return {'op': k, 'lon1': q['lon1'], 'lat1': q['lat1'], 'lon2': q['lon2'], 'lat2': q['lat2'], 'lon_subscale': q['ni'],
                'lat_subscale': q['nj'], 'out': 'out/%s.mitgrid' % out}
    if k == 'regrid':
        c, _ = corners(rng, g)
        src = rng.choice([{'kind': 'file', 'file': 'big.mitgrid', 'ni': g['ni'], 'nj': g['nj']},
                          {'kind': 'xgyg', 'xg': 'xg.bin', 'yg': 'yg.bin', 'ni': g['ni'], 'nj': g['nj']},
                          {'kind': 'xgyg', 'xg': 'xg.csv', 'yg': 'yg.csv', 'ni': g['ni'], 'nj': g['nj']},
                          {'kind': 'mem', 'grid': g}, {'kind': 'mem', 'grid': g}])
        return {'op': k, 'src': src, 'lon1': c[0], 'lat1': c[1], 'lon2': c[2], 'lat2': c[3], 'lon_subscale': rng.randint(1, 2),
                'lat_subscale': rng.randint(1, 2), 'out': 'out/%s.mitgrid' % out}
    if k in ('addfringe', 'stitch'):
        return dict(tile_args(rng, w), op=k, out='out/%s.mitgrid' % out)
    if k == 'read_grid':
        r = w['rand']
        return rng.choice([{'op': k, 'file': 'rand.mitgrid', 'ni': r['ni'], 'nj': r['nj']},
                           {'op': k, 'file': 'big.mitgrid', 'ni': g['ni'], 'nj': g['nj']}])
    if k == 'write_grid':
        q = rng.choice([w['rand'], w['rand'], g])
        ni, nj = ops.grid_shape(q)
        return {'op': k, 'file': 'out/%s.mitgrid' % out, 'grid': q, 'ni': ni, 'nj': nj}
    if k == 'rdmds':
        s = rng.choice(w['sets'])
        rd = mdsgen.gen_read(rng, s)
        return {'op': k, 'fname': mdsgen.fname(s), 'pos': rd['pos'], 'kw': rd['kw']}
    if k == 'wrmds':
        sh = [rng.randint(1, 4) for _ in range(rng.choice([2, 3, 4]))]
        kw = {'dataprec': rng.choice(['float32', 'float64'])}
        if rng.random() < 0.4:
            kw['times'] = rng.choice([3600.0, [0.0, 86400.0]])
        if rng.random() < 0.3:
            kw['fields'] = [rng.choice(['F', 'F', ' F']) + '%d' % i + rng.choice(['', '', '   ']) for i in range(rng.choice([1, 3]))]
        if rng.random() < 0.2:
            kw['machineformat'] = 'l'
        return {'op': k, 'fbase': 'out/%s' % out, 'kw': kw,
                'arr': {'seed': rng.randint(0, 10**9), 'shape': sh, 'dtype': rng.choice(['f8', 'f8', 'f4', 'i4']),
                        'order': rng.choice(['C', 'F', 'rev', 'be', 'step']), 'special': rng.random() < 0.3}}
    if k == 'scanforfiles':
        return {'op': k, 'fname': rng.choice(w['sets'])['base']}
    if k == 'parsemeta':
        return {'op': k, 'file': rng.choice(mdsgen.files(rng.choice(w['sets']))[1])[2] + '.meta'}
    if k == 'mds2mitgrid':
        return {'op': k, 'rundir': rng.choice(['grid', 'grid/'])}
    if k == 'matchedges':
        a, b = w['geo'], w['geo']
        ax, c = w['cut']
        lo, hi = dict(g), dict(g)
        if ax == 'i':
            x = g['lon1'] + (g['lon2'] - g['lon1']) * c / g['ni']
            lo.update(lon2=x, ni=c)
            hi.update(lon1=x, ni=g['ni'] - c)
        else:
            y = g['lat2'] + (g['lat1'] - g['lat2']) * c / g['nj']
            lo.update(lat1=y, nj=c)
            hi.update(lat2=y, nj=g['nj'] - c)
        if rng.random() < 0.5:
            lo, hi = hi, lo
        return {'op': k, 'a': lo, 'b': hi}
    if k in ('fill', 'edges', 'areas', 'tomitgrid'):
        op = {'op': k, 'grid': g}
        if k == 'fill':
            op.update(sx=rng.randint(1, 2), sy=rng.randint(1, 2))
        if rng.random() < 0.3:
            op['turn'] = rng.choice([360.0, 360.0, -360.0])
        return op
    if k == 'nearest':
        c, _ = corners(rng, g)
        return {'op': k, 'grid': g, 'lon': c[0] + 0.001, 'lat': c[1]}
    if k in ('lonlat2cart', 'squad', 'pquad'):
        return {'op': k, 'grid': g}
    if k == 'getobcs':
        o = w['obcs']
        if not o:
            return None
        return {'op': k, 'kw': gen_obkw(rng, o, 'out/%s.obcs' % out)}
    raise ValueError(k)


def gen_obkw(rng, o, resultsdir, pardir='par'):
    p, r = o['parent'], o['region']
    kw = {'parent_resultsdir': pardir, 'resultsdir': resultsdir}
    if rng.random() < 0.5:
        kw.update(parent_mitgridfile='parent.mitgrid', ni_parent=p['ni'], nj_parent=p['nj'])
    else:
        kw['parent_mitgrid_matrices'] = p
    if rng.random() < 0.5:
        kw.update(regional_mitgridfile='region.mitgrid', ni_regional=r['ni'], nj_regional=r['nj'])
    else:
        kw['regional_mitgrid_matrices'] = r
    for name, n, top in (('OB_Jnorth', r['ni'], r['nj']), ('OB_Jsouth', r['ni'], r['nj']), ('OB_Ieast', r['nj'], r['ni']), ('OB_Iwest', r['nj'], r['ni'])):
        x = rng.random()
        if x < 0.25:
            kw[name] = {'np': [0] * n} if rng.random() < 0.5 else [0] * n
        elif x < 0.5:
            v = [rng.randint(1, top) for _ in range(n)]
            if rng.random() < 0.5:
                v = [x if rng.random() < 0.5 else x - top - 1 for x in v]
            kw[name] = rng.choice([{'np': v}, v])
    return kw


def gen_bad(rng, w, out):
    """An operation that fails by itself."""
    g = w['geo']
    k = rng.choice(BAD)
    if k == 'bad_regrid':
        op = gen_kind(rng, w, 'regrid', out)
        op['lon2'], op['lat2'] = op['lon1'], op['lat1']
        return op
    if k == 'bad_file':
        return {'op': 'read_grid', 'file': rng.choice(['missing.mitgrid', 'out', 'xg.bin']), 'ni': g['ni'], 'nj': g['nj']}
    if k == 'bad_tiles':
        op = gen_kind(rng, w, rng.choice(['addfringe', 'stitch']), out)
        r = w['rand']
        op.update(tileb='rand.mitgrid', nib=r['ni'], njb=r['nj'])
        return op
    if k == 'bad_rdmds':
        s = rng.choice(w['sets'])
        return {'op': 'rdmds', 'fname': rng.choice(['mds/none', s['base']]), 'pos': [987654], 'kw': {}}
    if k == 'bad_wrmds':
        return {'op': 'wrmds', 'fbase': 'nodir/x', 'kw': {'dataprec': 'float64'}, 'arr': {'seed': 1, 'shape': [2, 2], 'dtype': 'f8'}}
    if k == 'bad_size':
        return {'op': 'write_grid', 'file': 'out/%s.mitgrid' % out, 'grid': g, 'ni': g['ni'] + 1, 'nj': g['nj'] + 2}
    return {'op': 'parsemeta', 'file': rng.choice(['xg.csv', 'mds/none.meta'])}


def in_scope(name):
    """Files of the world that operations must not touch."""
    return not name.startswith('out/')
