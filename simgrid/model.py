"""Reference model of the geometry, written from the documentation: great
circles on a sphere, no pyproj, no simplegrid code."""
import numpy as np

from . import codec

R = 6370997.0        # the 'sphere' ellipsoid
PLANAR = 10.0e3      # documented transition between facet and spherical areas


def cart(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def lonlat(p):
    return (np.degrees(np.arctan2(p[..., 1], p[..., 0])),
            np.degrees(np.arctan2(p[..., 2], np.hypot(p[..., 0], p[..., 1]))))


def angle(a, b):
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, -1))


def slerp(a, b, t):
    w = angle(a, b)[..., None]
    s = np.sin(w)
    s = np.where(s == 0, 1, s)
    return np.where(w < 1e-12, a + (b - a) * t, (np.sin((1 - t) * w) * a + np.sin(t * w) * b) / s)


def tri(a, b, c):
    """Signed spherical excess."""
    num = np.sum(a * np.cross(b - a, c - a), -1)      # without cancellation in small cells
    den = 1 + np.sum(a * b, -1) + np.sum(b * c, -1) + np.sum(c * a, -1)
    return 2 * np.arctan2(num, den)


def fine(xg, yg, sx, sy):
    """Points of the doubled grid: corners (m+1,n+1) -> (2*sx*m+1, 2*sy*n+1, 3)."""
    c = cart(np.asarray(xg, float), np.asarray(yg, float))
    m, n = c.shape[0] - 1, c.shape[1] - 1
    fx, fy = 2 * sx, 2 * sy
    rows = np.zeros((fx * m + 1, n + 1, 3))
    for k in range(fx):
        rows[k::fx][:m] = slerp(c[:-1], c[1:], k / fx)
    rows[-1] = c[-1]
    out = np.zeros((fx * m + 1, fy * n + 1, 3))
    for k in range(fy):
        out[:, k::fy][:, :n] = slerp(rows[:, :-1], rows[:, 1:], k / fy)
    out[:, -1] = rows[:, -1]
    return out


def subdivide(xg, yg, sx=1, sy=1):
    """The grid obtained from corners by subdividing every cell: dict of fields,
    plus '_P' (doubled points) and '_theta' (typical sub-edge angles)."""
    p = fine(xg, yg, sx, sy)
    ni, nj = (p.shape[0] - 1) // 2, (p.shape[1] - 1) // 2
    ex = angle(p[:-1], p[1:]) * R          # edge from (p,q) to (p+1,q)
    ey = angle(p[:, :-1], p[:, 1:]) * R
    a, b, c, d = p[:-1, :-1], p[1:, :-1], p[1:, 1:], p[:-1, 1:]
    ar = np.abs(tri(a, b, c) + tri(a, c, d)) * R * R

    # along an axis: sum pairs of sub-intervals of cells, or across corners
    def cells(v, ax):
        v = np.moveaxis(v, ax, 0)
        return np.moveaxis(v[0::2] + v[1::2], 0, ax)

    def across(v, ax):
        v = np.moveaxis(v, ax, 0)
        o = np.zeros((v.shape[0] // 2 + 1,) + v.shape[1:])
        o[1:-1] = v[1:-2:2] + v[2:-1:2]
        return np.moveaxis(o, 0, ax)

    lon, lat = lonlat(p)
    g = {}
    g['XG'], g['YG'] = lon[::2, ::2], lat[::2, ::2]
    g['XC'], g['YC'] = lon[1::2, 1::2], lat[1::2, 1::2]
    g['DXG'] = cells(ex[:, ::2], 0)
    g['DXF'] = cells(ex[:, 1::2], 0)
    g['DXV'] = across(ex[:, ::2], 0)
    g['DXC'] = across(ex[:, 1::2], 0)
    g['DYG'] = cells(ey[::2], 1)
    g['DYF'] = cells(ey[1::2], 1)
    g['DYU'] = across(ey[::2], 1)
    g['DYC'] = across(ey[1::2], 1)
    g['RAC'] = cells(cells(ar, 0), 1)
    g['RAW'] = cells(across(ar, 0), 1)
    g['RAS'] = across(cells(ar, 0), 1)
    g['RAZ'] = across(across(ar, 0), 1)
    # an entry that needs a neighbour in both directions is zero if one is missing
    # edges along a pole have no length
    ex, ey = ex[ex > 1e-5], ey[ey > 1e-5]
    g['_theta'] = (ex.min() / R, ey.min() / R)
    g['_mean'] = (ex.mean(), ey.mean())
    assert g['XC'].shape == (ni, nj)
    return g


def rect_corners(lon1, lat1, lon2, lat2):
    """(lon1,lat1) at lowest i, highest j."""
    return np.array([[lon1, lon1], [lon2, lon2]], float), np.array([[lat2, lat1], [lat2, lat1]], float)


def mkgrid(lon1, lat1, lon2, lat2, lon_subscale, lat_subscale):
    xg, yg = rect_corners(lon1, lat1, lon2, lat2)
    g = subdivide(xg, yg, lon_subscale, lat_subscale)
    if min(lon1, lon2) >= 0:
        for k in ('XG', 'XC'):
            g[k] = np.where(g[k] < 0, g[k] + 360, g[k])
    s = lambda n: slice(None, None, n)
    # existing corners are kept as given
    for (i, j), lo, la in (((0, 0), lon1, lat2), ((0, -1), lon1, lat1), ((-1, 0), lon2, lat2), ((-1, -1), lon2, lat1)):
        g['XG'][i, j], g['YG'][i, j] = lo, la
    return g


def select(xg, yg, p1, p2):
    """Sub-rectangle of corners between the corners nearest to p1 and p2, turned
    so that p1 is at lowest i, highest j.  p1, p2: (i, j) in the given arrays."""
    idx = np.array([[(i, j) for j in range(xg.shape[1])] for i in range(xg.shape[0])])
    for k in range(4):
        q = np.rot90(idx, k)
        w = {tuple(q[i, j]): (i, j) for i in range(q.shape[0]) for j in range(q.shape[1])}
        (i1, j1), (i2, j2) = w[tuple(p1)], w[tuple(p2)]
        if j1 > j2 and i2 > i1:
            sl = np.s_[i1:i2 + 1, j2:j1 + 1]
            return np.rot90(xg, k)[sl], np.rot90(yg, k)[sl]
    raise ValueError('not diagonal')


def curved(c):
    """Corners of a curvilinear grid: cells of c['dx'] by c['dy'] degrees, turned by
    c['angle'] degrees, bent by c['bend'], around (c['lon'], c['lat'])."""
    i, j = np.meshgrid(np.arange(c['ni'] + 1.0), np.arange(c['nj'] + 1.0), indexing='ij')
    u, v = (i - c['ni'] / 2) * c['dx'], (j - c['nj'] / 2) * c['dy']
    d = max(c['dx'] * c['ni'], c['dy'] * c['nj'])
    u, v = u + c['bend'] * v * v / d, v + c['bend'] * u * u / d
    a = np.radians(c['angle'])
    u, v = np.cos(a) * u - np.sin(a) * v, np.sin(a) * u + np.cos(a) * v
    # about the point, on the sphere
    u, v = np.radians(u), np.radians(v)
    p = np.stack([np.cos(v) * np.cos(u), np.cos(v) * np.sin(u), np.sin(v)], -1)
    la, lo = np.radians(c['lat']), np.radians(c['lon'])
    x = np.cos(la) * p[..., 0] - np.sin(la) * p[..., 2]
    z = np.sin(la) * p[..., 0] + np.cos(la) * p[..., 2]
    lon, lat = lonlat(np.stack([np.cos(lo) * x - np.sin(lo) * p[..., 1], np.sin(lo) * x + np.cos(lo) * p[..., 1], z], -1))
    if c.get('conv') == 360:
        lon = np.where(lon < 0, lon + 360, lon)
    return lon, lat


def ring(c):
    """Corners of a latitude-longitude grid all around the globe: the first and the
    last column are at the same places."""
    lon = c['lon'] + 360.0 * np.arange(c['ni'] + 1.0) / c['ni']
    if c['conv'] == 180:
        lon = (lon + 180) % 360 - 180
    elif c['conv'] == 360:
        lon = lon % 360
    lat = np.linspace(c['lat1'], c['lat2'], c['nj'] + 1)
    return tuple(np.array(a) for a in np.meshgrid(lon, lat, indexing='ij'))


LON = ('XG', 'XC')
AREAS = ('RAC', 'RAZ', 'RAW', 'RAS')


def area_tol(ref):
    """Relative tolerance for areas given the documented approximations: facets
    below the transition, Girard's formula (whose relative round-off is about
    2e-16 over the square of the area) above it."""
    mx, my = ref['_mean']
    tx, ty = ref['_theta']
    sph = 2e-5 + 4e-14 / (tx * ty) ** 2
    if max(mx, my) < 0.97 * PLANAR:
        return 2e-5
    if max(mx, my) > 1.03 * PLANAR:
        return sph
    return max(sph, 2e-5)


def bad_entries(name, a, ref, tol_a):
    """Mask of the entries of a field that differ from the model."""
    b = ref[name]
    with np.errstate(invalid='ignore'):
        if name in LON:
            lat = ref['YG' if name == 'XG' else 'YC']
            d = np.abs((a - b + 180) % 360 - 180) * np.cos(np.radians(lat))
            return ~(d <= 1e-9)
        if name in ('YG', 'YC'):
            return ~(np.abs(a - b) <= 1e-9)
        if name in AREAS:
            return ~(np.abs(a - b) <= tol_a * np.abs(b))
        # zero where undefined
        return ~(np.abs(a - b) <= 1e-8 * np.abs(b) + np.where(b == 0, 1e-8, 1e-5))


def compare(g, ref, fields=None, exact=None):
    """None, or the first difference between a grid and the model of it."""
    tol_a = area_tol(ref)
    for name in fields or codec.NAMES:
        a, b = g.get(name), ref[name]
        if a is None:
            return '%s is missing' % name
        a = np.asarray(a, float)
        if a.shape != b.shape:
            return '%s has shape %s, expected %s' % (name, a.shape, b.shape)
        if not np.all(np.isfinite(a)):
            return '%s has non-finite values' % name
        bad = bad_entries(name, a, ref, tol_a)
        if np.any(bad):
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            return '%s%s is %r, expected %r (%d entries differ)' % (name, list(k), float(a[k]), float(b[k]), int(bad.sum()))
    return None
