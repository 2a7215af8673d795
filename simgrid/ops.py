"""Operations of the package as data: a step of a history is a JSON object, and
run_* functions carry it out inside a simulated process (current directory: the
simulated disk)."""
import json
import math
import os
import sys

import numpy as np

REPO = os.environ.get('SIM_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from . import codec, model

MODULES = ['gridio', 'mkgrid', 'regrid', 'addfringe', 'stitch', 'computegrid', 'matchedges', 'util',
           'mds', 'mds2mitgrid', 'mitgridfilefields', 'config', 'getobcs']
pkg = {}


def load():
    """Import the package (with the interpolation library replaced by a stub)."""
    import importlib
    import warnings
    if pkg:
        return pkg
    stubs = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
    sys.path.insert(0, stubs)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for m in MODULES:
            pkg[m] = importlib.import_module('simplegrid.' + m)
    import pyproj
    pkg['geod'] = pyproj.Geod(ellps='sphere')
    return pkg


# ---------------------------------------------------------------------------
# values

SPECIAL = [0.0, -0.0, float('inf'), float('-inf'), 5e-324, 1.7976931348623157e308, -1e-300, 1.0, -180.0, 360.0]


def layout(a, kind):
    """The same values in another memory layout."""
    if kind in (None, 'C'):
        return np.ascontiguousarray(a)
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'rev':
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if kind == 'strided':
        b = np.full((a.shape[0] * 2 + 1, a.shape[1] * 3 + 1), 7.5, a.dtype)
        v = b[1:1 + 2 * a.shape[0]:2, 1:1 + 3 * a.shape[1]:3]
        v[...] = a
        return v
    if kind == 'be':
        return a.astype('>f8')
    raise ValueError(kind)


def grid_of(gs):
    """Grid dictionary from its description."""
    k = gs['kind']
    if k == 'rand':
        r = np.random.Generator(np.random.PCG64(gs['seed']))
        ni, nj = gs['ni'], gs['nj']
        g = {}
        for name in codec.NAMES:
            sh = codec.shape_of(name, ni, nj)
            a = r.standard_normal(sh) * 10.0 ** r.integers(-3, 7)
            if gs.get('special'):
                m = r.random(sh) < 0.15
                a[m] = np.array(SPECIAL + [float('nan')])[r.integers(0, len(SPECIAL) + 1, int(m.sum()))]
            if name in gs.get('flat', ()):
                a[:] = gs['flat'][name]
            g[name] = layout(a, gs.get('layout'))
        for name in gs.get('none', ()):
            g[name] = None
    elif k == 'geo':
        g = model.mkgrid(*(gs[x] for x in ('lon1', 'lat1', 'lon2', 'lat2', 'ni', 'nj')))
        g = {n: np.array(g[n]) for n in codec.NAMES}
        rot = gs.get('rot', 0)
        if rot:
            # only the corners and centres keep a meaning in a turned grid
            sub = model.subdivide(np.rot90(g['XG'], rot), np.rot90(g['YG'], rot))
            for n in codec.NAMES:
                g[n] = np.array(sub[n])
            for n in ('XG', 'YG', 'XC', 'YC'):
                pass
            if min(gs['lon1'], gs['lon2']) >= 0:
                for n in ('XG', 'XC'):
                    g[n] = np.where(g[n] < 0, g[n] + 360, g[n])
        if gs.get('cut') or gs.get('shift'):
            g = tile_of(g, gs)
        if gs.get('noise'):
            roughen(g, gs['noise'])
        g = {n: layout(g[n], gs.get('layout')) for n in codec.NAMES}
    elif k == 'ring':
        xg, yg = model.ring(gs)
        sub = model.subdivide(xg, yg)
        g = {n: np.array(sub[n]) for n in codec.NAMES}
        g['XG'], g['YG'] = xg, yg
    elif k == 'curv':
        sub = model.subdivide(*model.curved(gs))
        g = {n: np.array(sub[n]) for n in codec.NAMES}
        g['XG'], g['YG'] = (np.array(a) for a in model.curved(gs))
        if gs.get('conv') == 360:
            g['XC'] = np.where(g['XC'] < 0, g['XC'] + 360, g['XC'])
        g = {n: layout(g[n], gs.get('layout')) for n in codec.NAMES}
    else:
        raise ValueError(k)
    return g


def tile_of(g, gs):
    """The part of a grid between given corners, moved by a fraction of its size."""
    i0, i1, j0, j1 = gs.get('cut') or (0, g['XC'].shape[0], 0, g['XC'].shape[1])
    xg, yg = g['XG'][i0:i1 + 1, j0:j1 + 1], g['YG'][i0:i1 + 1, j0:j1 + 1]
    if gs.get('shift'):
        ax, f, tilt = (gs['shift'] + [0])[:3]
        d = f * np.degrees(model.angle(model.cart(xg[0, 0], yg[0, 0]), model.cart(xg[-1, -1], yg[-1, -1])))
        if tilt:
            # not all of it: one corner stays where it is
            m, n = xg.shape
            x, y = np.arange(m) / (m - 1), np.arange(n) / (n - 1)
            if tilt == 2:
                # all four do
                x, y = np.minimum(x, 1 - x), np.minimum(y, 1 - y)
            d = d * np.add.outer(x, y)
            d = d if tilt > 0 else d[::-1, ::-1]
        xg, yg = (xg + d / np.cos(np.radians(yg)), yg) if ax == 0 else (xg, yg + d)
    t = model.subdivide(xg, yg)
    t = {n: np.array(t[n]) for n in codec.NAMES}
    t['XG'], t['YG'] = np.array(xg), np.array(yg)
    if g['XG'].min() >= 0:
        t['XC'] = np.where(t['XC'] < 0, t['XC'] + 360, t['XC'])
    if gs.get('conv') == 'pos':
        for n in ('XG', 'XC'):
            t[n] = np.where(t[n] < 0, t[n] + 360, t[n])
    elif gs.get('conv') == 'neg':
        for n in ('XG', 'XC'):
            t[n] = np.where(t[n] >= 180, t[n] - 360, t[n])
    return t


def roughen(g, spec):
    """Values of its own in every field but the corners, some of them zero."""
    seed, holes, special = spec
    r = np.random.Generator(np.random.PCG64(seed))
    for n in codec.NAMES[:]:
        if n in ('XG', 'YG'):
            continue
        a = g[n]
        a[...] = np.where(a == 0, r.uniform(1, 2, a.shape), a * r.uniform(0.5, 1.5, a.shape))
        a[r.random(a.shape) < holes] = 0.0
        m = r.random(a.shape) < special
        a[m] = np.array(SPECIAL + [float('nan')])[r.integers(0, len(SPECIAL) + 1, int(m.sum()))]


def grid_shape(gs):
    if gs.get('cut'):
        i0, i1, j0, j1 = gs['cut']
        return i1 - i0, j1 - j0
    if gs['kind'] == 'geo' and gs.get('rot', 0) % 2:
        return gs['nj'], gs['ni']
    return gs['ni'], gs['nj']


def array_of(s):
    r = np.random.Generator(np.random.PCG64(s['seed']))
    a = r.standard_normal(s['shape']) * 100
    if s.get('flat') is not None:
        a[...] = s['flat']
    elif s.get('special') and s.get('dtype', 'f8')[0] == 'f':
        m = r.random(a.shape) < 0.3
        a[m] = np.array(SPECIAL[:5] + [float('nan'), 1e-40])[r.integers(0, 7, int(m.sum()))]
    if s.get('dtype'):
        a = a.astype(s['dtype'])
    if s.get('order') == 'F':
        a = np.asfortranarray(a)
    elif s.get('order') == 'rev':
        a = a[..., ::-1]
    elif s.get('order') == 'step':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1] + 1,), a.dtype)
        b[..., 1::2] = a
        a = b[..., 1::2]
    elif s.get('order') == 'ro':
        a.setflags(write=False)
    elif s.get('order') == 'be':
        a = a.astype(a.dtype.newbyteorder('>'))
    return a


def tup(v):
    """JSON spelling of arguments that are not JSON: {'t': [...]} is a tuple."""
    if isinstance(v, dict) and set(v) == {'t'}:
        return tuple(tup(x) for x in v['t'])
    if isinstance(v, list):
        return [tup(x) for x in v]
    if v == 'nan':
        return np.nan
    if v == 'inf':
        return np.inf
    if isinstance(v, dict) and set(v) == {'range'}:
        return range(*v['range'])
    if isinstance(v, dict) and set(v) == {'np'}:
        return np.array(v['np'])
    return v


# ---------------------------------------------------------------------------
# operations

class Prepared:
    def __init__(self, call, inputs=None):
        self.call = call
        self.inputs = inputs or {}


def freeze(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, dict):
        for v in x.values():
            freeze(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            freeze(v)


def prepare(op, env=None):
    """env: named objects shared between steps (results of earlier ones)."""
    S = load()
    k = op['op']
    env = env if env is not None else {}

    def grid(gs):
        if isinstance(gs, str):
            return env[gs]
        if env.get('share'):
            # equal descriptions stand for one object
            k = json.dumps(gs, sort_keys=True)
            if k not in env:
                env[k] = grid_of(gs)
            return env[k]
        return grid_of(gs)

    if k == 'read_grid':
        return Prepared(lambda: S['gridio'].read_mitgridfile(
            op['file'], op['ni'], op['nj'], op.get('strict', False), op.get('verbose', False)))
    if k == 'write_grid':
        g = grid(op['grid'])
        return Prepared(lambda: S['gridio'].write_mitgridfile(op['file'], g, op['ni'], op['nj']), {'grid': g})
    if k == 'mkgrid':
        a = {x: op[x] for x in ('lon1', 'lat1', 'lon2', 'lat2', 'lon_subscale', 'lat_subscale')}
        return Prepared(lambda: S['mkgrid'].mkgrid(op.get('verbose', False), **a), {'args': a})
    if k == 'regrid':
        a = {x: op[x] for x in ('lon1', 'lat1', 'lon2', 'lat2', 'lon_subscale', 'lat_subscale')}
        src = op['src']
        inp = {}
        if src['kind'] == 'file':
            a.update(mitgridfile=src['file'], ni=src['ni'], nj=src['nj'])
        elif src['kind'] == 'xgyg':
            a.update(xg_file=src['xg'], yg_file=src['yg'], ni=src['ni'], nj=src['nj'])
        elif src['kind'] == 'mem':
            g = grid(src['grid'])
            inp['mitgrid_matrices'] = g
            a['mitgrid_matrices'] = g
        return Prepared(lambda: S['regrid'].regrid(op.get('strict', False), op.get('verbose', False), **a), inp)
    if k in ('addfringe', 'stitch'):
        a = {x: op[x] for x in ('tilea', 'nia', 'nja', 'tileb', 'nib', 'njb')}
        f = getattr(S[k], k)
        return Prepared(lambda: f(op.get('strict', False), op.get('verbose', False), **a), {'args': a})
    if k == 'rdmds':
        kw = {x: tup(v) for x, v in op.get('kw', {}).items()}
        pos = [tup(v) for v in op.get('pos', [])]
        return Prepared(lambda: S['mds'].rdmds(op['fname'], *pos, **kw), {'kw': kw, 'pos': pos})
    if k == 'wrmds':
        arr = env[op['arr']] if isinstance(op['arr'], str) else array_of(op['arr'])
        kw = {x: tup(v) for x, v in op.get('kw', {}).items()}
        return Prepared(lambda: S['mds'].wrmds(op['fbase'], arr, **kw), {'arr': arr, 'kw': kw})
    if k == 'scanforfiles':
        return Prepared(lambda: S['mds'].scanforfiles(op['fname']))
    if k == 'parsemeta':
        return Prepared(lambda: S['mds'].parsemeta(op['file']))
    if k == 'mds2mitgrid':
        return Prepared(lambda: S['mds2mitgrid'].mds2mitgrid(op['rundir'], op.get('verbose', False)))
    if k == 'matchedges':
        a, b = grid(op['a']), grid(op['b'])
        arrs = {'aXG': a['XG'], 'aYG': a['YG'], 'bXG': b['XG'], 'bYG': b['YG']}
        return Prepared(lambda: S['matchedges'].matchedges(*arrs.values(), S['geod'], op.get('verbose', False)), arrs)
    if k in ('fill', 'edges', 'areas', 'tomitgrid'):
        g = grid(op['grid'])
        m, n = g['XG'].shape[0] - 1, g['XG'].shape[1] - 1
        sx, sy = op.get('sx', 1), op.get('sy', 1)
        ring = 1
        cx = np.zeros((2 * sx * m + 1 + 2 * ring, 2 * sy * n + 1 + 2 * ring))
        cy = np.zeros(cx.shape)
        turn = op.get('turn', 0)            # (the same places, with longitudes beyond the usual range)
        cx[ring:-ring:2 * sx, ring:-ring:2 * sy] = g['XG'] + turn
        cy[ring:-ring:2 * sx, ring:-ring:2 * sy] = g['YG']
        ilb, iub, jlb, jub = ring, ring + 2 * sx * m, ring, ring + 2 * sy * n
        cg = S['computegrid']
        if k == 'fill':
            return Prepared(lambda: cg.fill(cx, cy, ilb, iub, jlb, jub, sx, sy, S['geod'], op.get('verbose', False)),
                            {'xg': cx, 'yg': cy})
        p = model.fine(g['XG'], g['YG'], sx, sy)
        lo, la = model.lonlat(p)
        lo = lo + turn
        cx[ring:-ring, ring:-ring], cy[ring:-ring, ring:-ring] = lo, la
        if k == 'edges':
            return Prepared(lambda: cg.edges(cx, cy, ilb, iub, jlb, jub, S['geod'], op.get('verbose', False)),
                            {'xg': cx, 'yg': cy})
        if k == 'tomitgrid':
            return Prepared(lambda: cg.tomitgrid(cx, cy, 0, ilb, iub, iub + 1, 0, jlb, jub, jub + 1, S['geod'],
                                                 op.get('verbose', False)), {'xg': cx, 'yg': cy})
        ex = model.angle(p[:-1], p[1:]) * model.R
        ey = model.angle(p[:, :-1], p[:, 1:]) * model.R
        return Prepared(lambda: cg.areas(lo, la, ex, ey, S['geod'], op.get('verbose', False)),
                        {'xg': lo, 'yg': la, 'ex': ex, 'ey': ey})
    if k == 'nearest':
        g = grid(op['grid'])
        a = {'lons': g['XG'], 'lats': g['YG']}
        return Prepared(lambda: S['util'].nearest(op['lon'], op['lat'], a['lons'], a['lats'], S['geod']), a)
    if k in ('lonlat2cart', 'squad', 'pquad'):
        g = grid(op['grid'])
        a = {'lons': g['XG'], 'lats': g['YG']}
        if k == 'lonlat2cart':
            return Prepared(lambda: S['util'].lonlat2cart(a['lons'], a['lats']), a)
        c = model.cart(g['XG'], g['YG'])
        f = S['util'].squad_uarea if k == 'squad' else S['util'].pquad_uarea
        return Prepared(lambda: f(c), {'cart': c})
    if k == 'cmd':
        def call():
            old = sys.argv
            sys.argv = ['sg' + op['prog']] + list(op['argv'])
            try:
                return S[op['prog']].main()
            finally:
                sys.argv = old
        return Prepared(call)
    if k == 'getobcs':
        kw = {x: tup(v) for x, v in op['kw'].items()}
        inp = {'kw': kw}
        for x in ('parent_mitgrid_matrices', 'regional_mitgrid_matrices'):
            if x in kw:
                kw[x] = grid(op['kw'][x])
                inp[x] = kw[x]
        return Prepared(lambda: S['getobcs'].getobcs(op.get('strict', False), op.get('verbose', False), **kw), inp)
    raise ValueError(k)


def run_op(op):
    """Node entry: one operation, its plain result."""
    return prepare(op).call()


def run_op_then_write(op):
    """Node entry: what a command does: compute, then write the result."""
    r = prepare(op).call()
    if op.get('out'):
        g, ni, nj = result_grid(op, r)
        load()['gridio'].write_mitgridfile(op['out'], g, ni, nj)
    return r


def do(op, env=None):
    """-> (call that also writes what the operation computes, its inputs)"""
    p = prepare(op, env)

    def call():
        r = p.call()
        if op.get('out'):
            g, ni, nj = result_grid(op, r)
            pkg['gridio'].write_mitgridfile(op['out'], g, ni, nj)
        return r
    return call, p.inputs


def result_grid(op, r):
    if op['op'] in ('mkgrid', 'regrid', 'stitch'):
        return r[0], r[1], r[2]
    if op['op'] == 'addfringe':
        return r[2], op['nia'], op['nja']
    raise ValueError(op['op'])


def run_traced(op, inject=(), opcodes=False, sites=False):
    """Node entry: one operation under the scheduler, with exceptions raised at
    the given events.  -> (value, events seen, where
    injected[, events per line])"""
    from . import sched
    p = prepare(op)
    t = sched.Tracer(opcodes=opcodes, inject={int(n): e for n, e in inject}, sites=sites)
    v = t.run(p.call)
    return (v, t.n, t.where) + ((t.some_events(),) if sites else ())
