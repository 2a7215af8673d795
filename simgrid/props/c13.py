"""C13: created and refined grids are the great-circle subdivision of their corners."""
import numpy as np

from .. import codec, core, flow, model, opgen, ops
from .common import *
from . import c12

CASES = {'quick': 420, 'thorough': 16000}
RULE = ('a run is a history of 2-7 creations and refinements connected by files, coordinate files or memory, on grids of seeded size, '
        'place, orientation and cell size (100 m to 20 degrees), corners named exactly or nearby, each step tried up to twice under '
        'faults, death or interrupts first; every stored grid is compared with the model of it; non-trivial: two steps or more, or a fault')
ASSUMPTIONS = ASSUME + ['positions agree with the model to 1e-9 degrees, lengths to 1e-8 and 10 micrometres, areas to 2e-5 plus the '
                        'round-off of the documented spherical formula',
                        'no grid reaches over a pole; longitudes are compared modulo 360 degrees except at existing corners (the convention, 0 to 360 or -180 to 180, is checked)']
SIG = 'operation x source x orientation x size class x trouble x ending'


def gen(rng, ctx, tier, i):
    r = rng.random()
    zoom = r < 0.2
    f = flow.Flow(rng, top=3 if zoom else rng.choice([3, 5, 8]), sources=('file', 'file', 'mem', 'xgyg'), curv=0.3)
    if r > 0.9:
        # cells of many degrees
        q = {'lon1': rng.uniform(-180, 100), 'lat1': rng.uniform(0, 75), 'ni': rng.randint(1, 3), 'nj': rng.randint(1, 3)}
        dx = dy = rng.choice([10.0, 20.0])
        if rng.random() < 0.5:
            # or much longer than wide
            dx, dy = rng.choice([(20.0, 0.04), (8.0, 0.05), (0.04, 15.0), (0.1, 6.0), (1.0, 0.06), (0.05, 1.0)])
        q.update(lon2=q['lon1'] + dx * q['ni'], lat2=q['lat1'] - dy * q['nj'])
        g = model.mkgrid(q['lon1'], q['lat1'], q['lon2'], q['lat2'], q['ni'], q['nj'])
        f.add({'op': 'mkgrid', 'lon_subscale': q['ni'], 'lat_subscale': q['nj'], 'out': f.name(),
               **{k: q[k] for k in ('lon1', 'lat1', 'lon2', 'lat2')}}, g['XG'], g['YG'])
    elif r > 0.84:
        polar(rng, f)
    for _ in range(rng.randint(3, 6) if zoom else rng.randint(1, 5)):
        x = rng.random()
        if zoom:
            n = list(f.tab)[-1]
            m, k = f.cells(n)
            a, b = rng.randrange(m), rng.randrange(k)
            f.refine(n, flow.orient(f.tab[n][0], *rng.choice([((a, b + 1), (a + 1, b)), ((a + 1, b), (a, b + 1)), ((a, b), (a + 1, b + 1))])),
                     rng.randint(2, 5), rng.randint(2, 5))
        elif x < 0.15:
            f.mkgrid(rng.choice([3, 6, 10]))
        elif x < 0.3:
            f.split()
        else:
            f.regrid()
    case = {'files': f.files, 'steps': []}
    core.restore(ctx.root, flow.given(case))
    for op in f.steps:
        f.options(op, 0.05, 0.15)
        if op['op'] == 'regrid':
            if rng.random() < 0.2:
                near(rng, f.tab[op['src'].get('file') or op['src'].get('of') or op['src']['grid']], op)
            if rng.random() < 0.05:
                # not diagonal
                for k in rng.choice([('lon',), ('lat',), ('lon', 'lat')]):
                    op[k + '2'] = op[k + '1']
        via = 'cmd' if rng.random() < 0.3 and (op.get('src') or {}).get('kind') != 'mem' else 'call'
        st = {'op': op, 'via': via, 'style': rng.randrange(10**6), 'tries': []}
        try:
            flow.export(ctx, op)
        except ValueError:
            pass
        o = c12.go(ctx, st, {}, probe=True)
        case['steps'].append(st)
        if o.ok and rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                t = c12.trouble(rng, ctx, o, lambda t, **k: c12.go(ctx, st, t, probe=True, **k))
                t['early'] = False
                st['tries'].append(t)
    return case


def polar(rng, f):
    """A grid that ends at a pole or goes around the globe, and refinements of it."""
    ni, nj = rng.randint(1, 4), rng.randint(1, 4)
    dy = rng.choice([rng.uniform(0.5, 10), 0.05, 1.0])
    la = [90.0, 90 - nj * dy] if rng.random() < 0.5 else [nj * dy - 90, -90.0]
    if rng.random() < 0.4:
        ni = rng.choice([4, 6, 9])
        if rng.random() < 0.5:
            la = [float(rng.randint(-60, 60)) + nj * dy, 0]
            la[1] = la[0] - nj * dy
        q = {'kind': 'ring', 'ni': ni, 'nj': nj, 'lon': rng.choice([-180.0, 0.0, round(rng.uniform(-180, 180), 2)]), 'lat1': la[1], 'lat2': la[0],
             'conv': rng.choice([0, 180, 360])}
        f.files.append(['ring.mitgrid', q])
        n = 'ring.mitgrid'
        f.tab[n] = model.ring(q)
    else:
        dx = rng.choice([rng.uniform(1, 30), 0.1, 10.0])
        lon = rng.choice([-180.0, 0.0, rng.uniform(-180, 200)])
        if rng.random() < 0.2:
            la.reverse()
        g = model.mkgrid(lon, la[0], lon + dx * ni, la[1], ni, nj)
        n = f.add({'op': 'mkgrid', 'lon1': lon, 'lat1': la[0], 'lon2': lon + dx * ni, 'lat2': la[1], 'lon_subscale': ni, 'lat_subscale': nj,
                   'out': f.name()}, g['XG'], g['YG'])
    for _ in range(rng.choice([1, 1, 2])):
        f.refine(n, f.rect(n, rng.random() < 0.3), rng.randint(1, 2), rng.randint(1, 3))


def near(rng, coords, op):
    """Corners named only approximately."""
    xg, yg = coords
    c = model.cart(xg, yg)
    d = np.degrees(min(model.angle(c[1:], c[:-1]).min(), model.angle(c[:, 1:], c[:, :-1]).min()))
    for k in '12':
        op['lon' + k] += rng.uniform(-0.3, 0.3) * d / max(0.05, np.cos(np.radians(op['lat' + k])))
        op['lat' + k] += rng.uniform(-0.3, 0.3) * d


def nearest(xg, yg, lon, lat):
    """Corners nearest to a point: more than one where they are (almost) equally near."""
    c = model.cart(xg, yg)
    p = model.cart(np.array(lon), np.array(lat))
    d = model.angle(c, np.broadcast_to(p, c.shape))
    m = d.min()
    return [tuple(int(x) for x in k) for k in np.argwhere(d - m < 1e-9 + 1e-6 * m)]


def expected(op, before):
    """What the step may do: list of ('grid', model, exact corners, strides) | ('refused',)"""
    sx, sy = op['lon_subscale'], op['lat_subscale']
    if op['op'] == 'mkgrid':
        xg, yg = model.rect_corners(op['lon1'], op['lat1'], op['lon2'], op['lat2'])
        return [('grid', model.subdivide(xg, yg, sx, sy), (xg, yg), (sx, sy))]
    s = op['src']
    n = s.get('file') or s.get('of') or s['grid']
    g, _ = codec.decode_grid(before[n], s['ni'], s['nj'])
    xg, yg = g['XG'], g['YG']
    out = []
    n1, n2 = (nearest(xg, yg, op['lon' + k], op['lat' + k]) for k in '12')
    for p1 in n1:
        for p2 in n2:
            if p1[0] == p2[0] or p1[1] == p2[1]:
                out.append(('refused',))
                continue
            sub = flow.orient(xg, p1, p2)
            x, y = xg[sub[..., 0], sub[..., 1]], yg[sub[..., 0], sub[..., 1]]
            out.append(('grid', model.subdivide(x, y, sx, sy), (x, y), (sx, sy)))
    return out


def fits(op, es, data):
    """What is wrong with the file a successful step stored, whatever it was free to do, or None."""
    w = None
    for e in es:
        w = judge(op, e, data)
        if not w:
            return None
    return w


def judge(op, e, data):
    """What is wrong with the file a successful step stored, or None."""
    if e[0] == 'refused':
        return 'succeeds although the two corners are not diagonally opposite'
    _, ref, (xg, yg), (sx, sy) = e
    ni, nj = (xg.shape[0] - 1) * sx, (xg.shape[1] - 1) * sy
    if data is None:
        return 'stored no file'
    try:
        g, pad = codec.decode_grid(data, ni, nj)
    except ValueError as x:
        return 'stored a file for another number of cells: %s' % x
    for c, w in (('XG', xg), ('YG', yg)):
        if not codec.same_bits(np.ascontiguousarray(g[c][::sx, ::sy]), np.ascontiguousarray(w)):
            return 'does not keep the existing corners (%s) as they are' % c
    # longitudes of new points: 0 to 360 where no existing corner is negative, else -180 to 180
    lo, hi = (0, 360) if (xg >= 0).all() else (-180, 180)
    for c in ('XG', 'XC'):
        new = np.ones(g[c].shape, bool)
        if c == 'XG':
            new[::sx, ::sy] = False
        v = g[c][new]
        if v.size and not ((v >= lo) & (v <= hi)).all():
            return 'stores %s from %.6g to %.6g where the existing corners call for %d to %d' % (c, v.min(), v.max(), lo, hi)
    return model.compare(g, ref)


def run(case, ctx):
    disk = flow.given(case)
    core.restore(ctx.root, disk)
    done = 0
    for k, st in enumerate(case['steps']):
        op = st['op']
        if any(n not in disk for n in flow.needs(op)):
            continue
        try:
            flow.export(ctx, op)
            es = expected(op, disk)
        except ValueError:
            # another part than planned was refined before
            ctx.count('steps_skipped')
            continue
        e = min(es, key=lambda x: x[0])
        free = len(es) > 1
        src = (op.get('src') or {}).get('kind', '')
        for t in st['tries'] + [None]:
            o = c12.go(ctx, st, t or {})
            b = bad_end(o, allow=('died',) if t and t['alloc'] else ())
            if b:
                return [b]
            if t:
                c12.seen(ctx, {'mode': src}, st, t, o, e[0])
            data = ctx.get(op['out'])
            if c12.good(o):
                w = fits(op, es, data)
                if w:
                    return [vio('wrong-grid', 'step %d (%s from %s, run as %s): %s%s' % (k, op['op'], src or 'nothing', st['via'], w,
                                                                                      '; tried under %s' % t if t else ''))]
                ctx.count('grids_compared')
                if free:
                    ctx.count('corners_that_coincide')
            elif t is None and all(x[0] == 'grid' for x in es):
                return [vio('spurious-error', 'step %d (%s) fails without trouble: %s' % (k, op['op'], o.value[:2] if o.ok else o.brief()))]
        done += 1
        if done > 1:
            ctx.nontrivial = True
        if c12.good(o) and data:
            disk[op['out']] = data
            ctx.sig(op['op'], src, st['via'], op['lon_subscale'], op['lat_subscale'], e[0], size_class(e))
        else:
            ctx.sig(op['op'], src, 'refused')
    return []


def size_class(e):
    return 'na' if e[0] != 'grid' else '1e%d' % int(np.log10(max(e[1]['_mean'])))
