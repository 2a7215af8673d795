"""Workflows: operations connected by grid files, generated together with the
geometry that the model predicts for every file."""
import numpy as np

from . import codec, model, opgen, ops

MAXCELLS = 40


def lonlat_of(xg, yg, sx, sy):
    lo, la = model.lonlat(model.fine(xg, yg, sx, sy)[::2, ::2])
    # corners that exist are kept
    lo[::sx, ::sy], la[::sx, ::sy] = xg, yg
    return lo, la


def index_grid(shape):
    return np.array([[(i, j) for j in range(shape[1])] for i in range(shape[0])])


def orient(xg, p1, p2):
    """Indices of the corners between p1 and p2, turned so that p1 is at lowest i
    and highest j."""
    idx = index_grid(xg.shape)
    for k in range(4):
        q = np.rot90(idx, k)
        w = {tuple(q[i, j]): (i, j) for i in range(q.shape[0]) for j in range(q.shape[1])}
        (i1, j1), (i2, j2) = w[tuple(p1)], w[tuple(p2)]
        if j1 > j2 and i2 > i1:
            return q[i1:i2 + 1, j2:j1 + 1]
    raise ValueError('not diagonal')


class Flow:
    def __init__(self, rng, rot=True, top=4, sources=('file', 'mem', 'xgyg'), curv=0.0):
        self.rng = rng
        self.steps = []
        self.files = []             # given at the start: [name, grid description]
        self.tab = {}               # name -> (xg, yg)
        self.fam = {}               # name -> (family, (i0, i1), (j0, j1))
        self.count = 0
        self.families = 0
        self.sources = sources
        x = rng.random()
        if x < max(0.3, curv):
            g = opgen.gen_curv(rng, top) if x < curv else opgen.gen_geo(rng, top)
            if rot and x >= curv:
                g['rot'] = rng.choice([0, 1, 2, 3])
            self.files.append(['given.mitgrid', g])
            G = ops.grid_of(g)
            self.tab['given.mitgrid'] = np.array(G['XG']), np.array(G['YG'])
        else:
            self.mkgrid(top)

    def name(self):
        self.count += 1
        return 'g%d.mitgrid' % self.count

    def cells(self, n):
        a, b = self.tab[n][0].shape
        return a - 1, b - 1

    def add(self, op, xg, yg):
        self.steps.append(op)
        self.tab[op['out']] = xg, yg
        return op['out']

    def mkgrid(self, top=4):
        rng = self.rng
        q = opgen.gen_geo(rng, top)
        c = dict(q)
        if rng.random() < 0.3:
            # corners given for orientation only
            c['lon1'], c['lon2'] = (q['lon2'], q['lon1']) if rng.random() < 0.5 else (q['lon1'], q['lon2'])
            if rng.random() < 0.5:
                c['lat1'], c['lat2'] = q['lat2'], q['lat1']
        g = model.mkgrid(c['lon1'], c['lat1'], c['lon2'], c['lat2'], q['ni'], q['nj'])
        return self.add({'op': 'mkgrid', 'lon1': c['lon1'], 'lat1': c['lat1'], 'lon2': c['lon2'], 'lat2': c['lat2'],
                         'lon_subscale': q['ni'], 'lat_subscale': q['nj'], 'out': self.name()}, g['XG'], g['YG'])

    def source(self, n, kinds=None):
        ni, nj = self.cells(n)
        k = self.rng.choice(kinds or self.sources)
        if k == 'file':
            return {'kind': 'file', 'file': n, 'ni': ni, 'nj': nj}
        if k == 'mem':
            return {'kind': 'mem', 'grid': n, 'ni': ni, 'nj': nj}
        ext = self.rng.choice(['bin', 'csv'])
        return {'kind': 'xgyg', 'xg': n + '.xg.' + ext, 'yg': n + '.yg.' + ext, 'ni': ni, 'nj': nj, 'of': n}

    def refine(self, n, sub, sx, sy):
        """sub: oriented index rectangle of the corners of file n."""
        xg, yg = self.tab[n]
        p, q = tuple(sub[0, -1]), tuple(sub[-1, 0])
        sel = sub[..., 0], sub[..., 1]
        lo, la = lonlat_of(xg[sel], yg[sel], sx, sy)
        return self.add({'op': 'regrid', 'src': self.source(n), 'lon1': float(xg[p]), 'lat1': float(yg[p]), 'lon2': float(xg[q]),
                         'lat2': float(yg[q]), 'lon_subscale': sx, 'lat_subscale': sy, 'out': self.name()}, lo, la)

    def pick(self):
        # later files are more interesting
        L = list(self.tab)
        return self.rng.choice(L[-3:] if self.rng.random() < 0.6 else L)

    def rect(self, n, full=False):
        rng = self.rng
        m, k = self.cells(n)
        i = [0, m] if full else sorted(rng.sample(range(m + 1), 2))
        j = [0, k] if full else sorted(rng.sample(range(k + 1), 2))
        if rng.random() < 0.3:
            i.reverse()
        if rng.random() < 0.3:
            j.reverse()
        return orient(self.tab[n][0], (i[0], j[1]), (i[1], j[0]))

    def regrid(self):
        n = self.pick()
        sub = self.rect(n, self.rng.random() < 0.3)
        sx, sy = self.rng.randint(1, 3), self.rng.randint(1, 3)
        m, k = sub.shape[0] - 1, sub.shape[1] - 1
        while m * sx * k * sy > MAXCELLS:
            sx, sy = max(1, sx - 1), max(1, sy - 1)
            if sx == sy == 1:
                break
        return self.refine(n, sub, sx, sy)

    def split(self):
        """Tiles of one rectangle, each refined by the same factors."""
        rng = self.rng
        names = [n for n in self.tab if max(self.cells(n)) >= 2]
        if not names:
            return self.mkgrid()
        n = rng.choice(names)
        sub = self.rect(n, True)
        m, k = sub.shape[0] - 1, sub.shape[1] - 1
        sx, sy = rng.randint(1, 2), rng.randint(1, 2)
        if m * k * sx * sy > MAXCELLS:
            sx = sy = 1
        ci = sorted(rng.sample(range(1, m), min(m - 1, rng.choice([0, 1, 1, 2]))))
        cj = sorted(rng.sample(range(1, k), min(k - 1, rng.choice([0, 1, 1]) if ci else 1)))
        if not ci and not cj:
            if m > 1:
                ci = [rng.randint(1, m - 1)]
            else:
                cj = [rng.randint(1, k - 1)]
        self.families += 1
        for i0, i1 in zip([0] + ci, ci + [m]):
            for j0, j1 in zip([0] + cj, cj + [k]):
                t = self.refine(n, sub[i0:i1 + 1, j0:j1 + 1], sx, sy)
                self.fam[t] = self.families, (i0 * sx, i1 * sx), (j0 * sy, j1 * sy)

    def pairs(self):
        """(low, high, axis) of tiles with a common edge."""
        out = []
        for a, (f, ia, ja) in self.fam.items():
            for b, (h, ib, jb) in self.fam.items():
                if f == h and ja == jb and ia[1] == ib[0]:
                    out.append((a, b, 0))
                if f == h and ia == ib and ja[1] == jb[0]:
                    out.append((a, b, 1))
        return out

    def tiles(self, a, b):
        (nia, nja), (nib, njb) = self.cells(a), self.cells(b)
        return {'tilea': a, 'nia': nia, 'nja': nja, 'tileb': b, 'nib': nib, 'njb': njb}

    def join(self, what=None):
        rng = self.rng
        ps = self.pairs()
        if not ps:
            return self.split()
        lo, hi, ax = rng.choice(ps[-4:] if rng.random() < 0.6 else ps)
        a, b = (lo, hi) if rng.random() < 0.5 else (hi, lo)
        what = what or rng.choice(['stitch', 'stitch', 'addfringe'])
        op = dict(self.tiles(a, b), op=what, out=self.name())
        if what == 'addfringe':
            xg, yg = self.tab[a]
            self.fam[op['out']] = self.fam[a]
            return self.add(op, xg, yg)
        # the shared edge is the first tile's
        sl = (np.s_[:-1], np.s_[1:])
        out = []
        for k in (0, 1):
            L, H = self.tab[lo][k], self.tab[hi][k]
            if a == lo:
                out.append(np.concatenate([L, H[1:] if ax == 0 else H[:, 1:]], ax))
            else:
                out.append(np.concatenate([L[:-1] if ax == 0 else L[:, :-1], H], ax))
        (f, il, jl), (_, ih, jh) = self.fam[lo], self.fam[hi]
        self.fam[op['out']] = (f, (il[0], ih[1]), jl) if ax == 0 else (f, il, (jl[0], jh[1]))
        return self.add(op, *out)

    def obcs(self, o):
        """Boundary conditions for one of the grids."""
        rng = self.rng
        n = self.pick()
        ni, nj = self.cells(n)
        kw = opgen.gen_obkw(rng, {'parent': o['parent'], 'region': {'ni': ni, 'nj': nj}}, 'obcs')
        for x in ('parent_mitgrid_matrices', 'regional_mitgrid_matrices'):
            kw.pop(x, None)
        kw.update(parent_mitgridfile='parent.mitgrid', ni_parent=o['parent']['ni'], nj_parent=o['parent']['nj'],
                  regional_mitgridfile=n, ni_regional=ni, nj_regional=nj)
        for x, v in kw.items():
            if isinstance(v, dict):
                kw[x] = v['np']
        self.steps.append({'op': 'getobcs', 'kw': kw})

    def options(self, op, verbose=0.1, strict=0.2):
        if self.rng.random() < verbose:
            op['verbose'] = True
        if self.rng.random() < strict and op['op'] != 'mkgrid':
            op['strict'] = True


def needs(op):
    """Grid files an operation reads (directly or as exported coordinates)."""
    if op['op'] in ('addfringe', 'stitch'):
        return [op['tilea'], op['tileb']]
    if op['op'] == 'getobcs':
        return [op['kw']['regional_mitgridfile']]
    s = op.get('src')
    if not s:
        return [op['file']] if op['op'] == 'read_grid' else []
    return [s.get('file') or s.get('of') or s['grid']]


def given(case):
    """{name: bytes} at the start."""
    out = {}
    for n, g in case['files']:
        out[n] = codec.encode_grid(ops.grid_of(g), *ops.grid_shape(g))
    if case.get('obcs'):
        fs = opgen.obcs_files(case['obcs'])
        del fs['region.mitgrid']
        out.update(fs)
    return out


def export(ctx, op):
    """The coordinate files an operation takes, from the grid file on the disk."""
    s = op.get('src')
    if not s or s['kind'] != 'xgyg':
        return
    data = ctx.get(s['of'])
    if data is None:
        return
    g, _ = codec.decode_grid(data, s['ni'], s['nj'])
    for c, n in (('XG', s['xg']), ('YG', s['yg'])):
        if n.endswith('.csv'):
            b = ('\n'.join(','.join(repr(float(v)) for v in r) for r in g[c]) + '\n').encode()
        else:
            b = np.asarray(g[c], '>f8').tobytes(order='F')
        ctx.put(n, b)


def load(op, env):
    """A grid passed in memory that this process does not have is read."""
    s = op.get('src')
    if s and s['kind'] == 'mem' and s['grid'] not in env:
        env[s['grid']] = ops.load()['gridio'].read_mitgridfile(s['grid'], s['ni'], s['nj'])


def script(steps, inject=(), opcodes=False):
    """Node entry: operations one after the other in one process.
    -> (results, events, where)"""
    from . import core, sched
    env = {}
    t = sched.Tracer(opcodes=opcodes, inject={int(n): e for n, e in inject})
    out = []

    def go():
        for op in steps:
            load(op, env)
            r = ops.do(op, env)[0]()
            if op.get('out'):
                env[op['out']] = ops.result_grid(op, r)[0]
            out.append(core.digest(r))
    core.with_allocs(t.run, go)
    return out, t.n, t.where
