"""C14: joining adjacent tiles yields the concatenation with one shared edge."""
import numpy as np

from .. import codec, core, flow, model, opgen, ops
from .common import *
from . import c12, c13

CASES = {'quick': 330, 'thorough': 14000}
RULE = ('a run is a history of making, refining, cutting, fringing and joining tiles through files, on families of tiles of one grid '
        '(made by refinement, or given with values of their own, zeros and special values included), in all relative positions and '
        'orders, with pairs that have no common edge among them, each join tried up to twice under faults, death or interrupts first; '
        'every stored tile is compared with the concatenation of its sources; non-trivial: a join that succeeds, or a refusal')
ASSUMPTIONS = ASSUME + ['tiles have the same orientation (documented)',
                        'tiles have a common edge when all points of it coincide within half, and none when one is farther than twice, '
                        'the configured fraction of the mean diagonal; tiles in between are not judged',
                        'zero entries are filled to the tolerances of C13']
SIG = 'operation x position x kind of tiles x sizes x trouble x ending'
CLOSE = 1e-6
EDGES = {'W': np.s_[0, :], 'E': np.s_[-1, :], 'S': np.s_[:, 0], 'N': np.s_[:, -1]}
POS = {'E': 'W', 'W': 'E', 'N': 'S', 'S': 'N'}

ACROSS = (('DXC', 'DXV', 'RAW', 'RAZ'), ('DYC', 'DYU', 'RAS', 'RAZ'))


def cuts(rng, n):
    return [0] + sorted(rng.sample(range(1, n), min(n - 1, rng.choice([0, 1, 1, 2])))) + [n]


def given_family(rng, f):
    g = opgen.gen_geo(rng, 5)
    if max(g['ni'], g['nj']) < 2:
        g['lon2'] += g['lon2'] - g['lon1']
        g['ni'] = 2
    if rng.random() < 0.4:
        g['rot'] = rng.choice([1, 2, 3])
    elif rng.random() < 0.15:
        # as far as a pole
        h = g['lat1'] - g['lat2']
        g['lat1'], g['lat2'] = (90.0, 90.0 - h) if rng.random() < 0.5 else (h - 90.0, -90.0)
    m, k = ops.grid_shape(g)
    ci, cj = cuts(rng, m), cuts(rng, k)
    f.families += 1
    shift = None
    if rng.random() < 0.35 and max(abs(g['lat1']), abs(g['lat2'])) < 90:
        shift = [rng.choice([0, 1]), rng.choice([1, -1]) * rng.choice([1e-9, 1e-7, 4e-7, 3e-6, 5e-6, 3e-5, 1e-4, 1e-2]), rng.choice([0, 0, 1, -1, 2, 2])]
    # tiles that name their longitudes in different ways
    mixed = rng.random() < 0.25
    if mixed and max(abs(g['lat1']), abs(g['lat2'])) < 90 and rng.random() < 0.6:
        # about a meridian where the names change
        d = rng.choice([180, 180, -180, 0]) - g['lon1'] - (g['lon2'] - g['lon1']) * rng.choice([0.5, rng.randrange(g['ni'] + 1) / g['ni']])
        g['lon1'] += d
        g['lon2'] += d
    for a, (i0, i1) in enumerate(zip(ci, ci[1:])):
        for b, (j0, j1) in enumerate(zip(cj, cj[1:])):
            t = dict(g, cut=[i0, i1, j0, j1])
            if rng.random() < 0.7:
                t['noise'] = [rng.randrange(1, 10**6), rng.choice([0, 0.1, 0.5]), rng.choice([0, 0, 0.1])]
            if mixed:
                t['conv'] = rng.choice(['pos', 'neg'])
            if shift and (a + b) % 2:
                t['shift'] = shift
            n = 't%d.mitgrid' % len(f.files)
            f.files.append([n, t])
            G = ops.grid_of(t)
            f.tab[n] = np.array(G['XG']), np.array(G['YG'])
            f.fam[n] = f.families, (i0, i1), (j0, j1)


def gen(rng, ctx, tier, i):
    f = flow.Flow(rng, sources=('file', 'file', 'mem'))
    for _ in range(rng.choice([0, 1, 1, 2])):
        given_family(rng, f)
    n = rng.randint(2, 6)
    while len(f.steps) < n + 2:
        r = rng.random()
        if r < 0.2:
            f.split()
        elif r < 0.3:
            f.regrid()
        elif r < 0.45:
            L = list(f.tab)
            a, b = rng.choice(L), rng.choice(L)
            # also tiles of one family with only a corner in common
            near = [(x, y) for x in f.fam for y in f.fam if f.fam[x][0] == f.fam[y][0] and
                    f.fam[x][1][1] == f.fam[y][1][0] and (f.fam[x][2][1] == f.fam[y][2][0] or f.fam[x][2][0] == f.fam[y][2][1])]
            if near and rng.random() < 0.6:
                a, b = rng.choice(near)
                if rng.random() < 0.5:
                    a, b = b, a
            ps = f.pairs()
            if ps and rng.random() < 0.3:
                # neighbours, one of them with finer cells
                a, b = rng.choice(ps)[:2]
                if rng.random() < 0.5:
                    a, b = b, a
                x = rng.random() < 0.5
                fine = f.refine(a if x else b, f.rect(a if x else b, True), rng.choice([1, 1, 2]), rng.choice([1, 1, 2, 3]))
                a, b = (fine, b) if x else (a, fine)
            op = dict(f.tiles(a, b), op=rng.choice(['stitch', 'addfringe']), out=f.name())
            # in later steps it is as good as its first tile, if it exists
            f.steps.append(op)
        else:
            f.join()
    case = {'files': f.files, 'steps': [], 'stale': []}
    disk = flow.given(case)
    core.restore(ctx.root, disk)
    for op in f.steps:
        f.options(op, 0.05, 0.05)
        via = 'cmd' if rng.random() < 0.3 and (op.get('src') or {}).get('kind') != 'mem' else 'call'
        st = {'op': op, 'via': via, 'style': rng.randrange(10**6), 'tries': []}
        if any(ctx.get(n) is None for n in flow.needs(op)):
            continue
        if rng.random() < 0.1:
            st['old'] = rng.randrange(1, 200)
            ctx.put(op['out'], b'old bytes' * st['old'])
        o = c12.go(ctx, st, {}, probe=True)
        case['steps'].append(st)
        if o.ok and op['op'] in ('stitch', 'addfringe') and rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                t = c12.trouble(rng, ctx, o, lambda t, **k: c12.go(ctx, st, t, probe=True, **k))
                t['early'] = False
                st['tries'].append(t)
        if st.get('old') and not c12.good(o):
            ctx.rm(op['out'])
    return case


def corner_distance(a, b):
    return float(model.angle(a, b) * model.R)


def adjacent(A, B):
    """-> [(edge of A, 'yes' | 'maybe')] that it shares with B"""
    ca, cb = model.cart(A['XG'], A['YG']), model.cart(B['XG'], B['YG'])
    diag = np.mean([corner_distance(c[0, 0], c[-1, -1]) for c in (ca, cb)] + [corner_distance(c[-1, 0], c[0, -1]) for c in (ca, cb)])
    out = []
    for e, h in POS.items():
        p, q = ca[EDGES[e]], cb[EDGES[h]]
        if len(p) == len(q):
            d = max(corner_distance(x, y) for x, y in zip(p, q)) / diag
            if d <= CLOSE / 2:
                out.append((e, 'yes'))
                continue
            if d <= CLOSE * 2:
                out.append((e, 'maybe'))
                continue
        if max(corner_distance(p[0], q[-1]), corner_distance(p[-1], q[0])) / diag <= CLOSE * 2:
            # of tiles turned against each other
            out.append((e, 'maybe'))
    return out


def expected(op, before):
    try:
        A, _ = codec.decode_grid(before[op['tilea']], op['nia'], op['nja'])
        B, _ = codec.decode_grid(before[op['tileb']], op['nib'], op['njb'])
    except ValueError:
        return 'unclear', None, None, None
    if not all(np.all(np.isfinite(X[n])) for X in (A, B) for n in ('XG', 'YG')):
        return 'unclear', None, A, B
    es = adjacent(A, B)
    if any(s == 'maybe' for _, s in es) or len(es) > 1:
        return 'unclear', None, A, B
    if not es:
        return 'refused', None, A, B
    return 'join', es[0][0], A, B


def union(A, B, e):
    out = []
    for n in ('XG', 'YG'):
        a, b = A[n], B[n]
        out.append({'E': lambda: np.concatenate([a, b[1:]], 0), 'W': lambda: np.concatenate([b[:-1], a], 0),
                    'N': lambda: np.concatenate([a, b[:, 1:]], 1), 'S': lambda: np.concatenate([b[:, :-1], a], 1)}[e]())
    return out


def place(ref, A, B, e):
    """Where A and B lie in the union, per field: slices."""
    sa, sb = {}, {}
    nia, nja = A['XC'].shape
    nib, njb = B['XC'].shape
    for n in codec.NAMES:
        di, dj = codec.DEL[n]
        ia, ja, ib, jb = 0, 0, 0, 0
        if e == 'E':
            ib = nia
        elif e == 'W':
            ia = nib
        elif e == 'N':
            jb = nja
        else:
            ja = njb
        sa[n] = np.s_[ia:ia + nia + di, ja:ja + nja + dj]
        sb[n] = np.s_[ib:ib + nib + di, jb:jb + njb + dj]
    return sa, sb


def edges(op, verbose):
    """Node entry: what matchedges says of two stored tiles, with its slices applied."""
    S = ops.load()
    A = codec.decode_grid(open(op['tilea'], 'rb').read(), op['nia'], op['nja'])[0]
    B = codec.decode_grid(open(op['tileb'], 'rb').read(), op['nib'], op['njb'])[0]
    args = [np.array(x[n]) for x in (A, B) for n in ('XG', 'YG')]
    kept = [x.tobytes() for x in args]
    ea, sa, eb, sb, ex, ey, join = S['matchedges'].matchedges(*args, S['geod'], verbose)
    m, n = A['XG'].shape
    # the points of the doubled grid of the first tile, with the ring around it, that the edge is for
    at = np.arange((2 * m + 1) * (2 * n + 1)).reshape(2 * m + 1, 2 * n + 1)[join]
    u = S['util']
    return ({u.N: 'N', u.S: 'S', u.E: 'E', u.W: 'W'}[ea], {u.N: 'N', u.S: 'S', u.E: 'E', u.W: 'W'}[eb],
            [np.array(v[s]) for v, s in zip(args, (sa, sa, sb, sb))], np.array(ex), np.array(ey), at, [x.tobytes() for x in args] == kept)


def judge_edges(what, e, A, B, o):
    """What is wrong with it, or None."""
    if what == 'refused':
        return 'finds a common edge of tiles that have none: %s' % (o.value[:2],) if o.ok else None
    if not o.ok:
        return 'fails: %s' % o.brief()
    ea, eb, pts, ex, ey, at, kept = o.value
    if (ea, eb) != (e, POS[e]):
        return 'says that edge %s of the first tile is edge %s of the second' % (ea, eb)
    for x, v, n in zip(pts, (A['XG'], A['YG'], B['XG'], B['YG']), (e, e, POS[e], POS[e])):
        if not codec.same_bits(x, np.array(v[EDGES[n]])):
            return 'selects other points than those of edge %s' % n
    if not kept:
        return 'changes its arguments'
    m, n = A['XG'].shape
    ring = np.arange((2 * m + 1) * (2 * n + 1)).reshape(2 * m + 1, 2 * n + 1)
    want = {'E': ring[-1, 1:-1], 'W': ring[0, 1:-1], 'N': ring[1:-1, -1], 'S': ring[1:-1, 0]}[e]
    if not np.array_equal(at, want):
        return 'returns an edge for another place of the first tile'
    nxt = {'E': np.s_[-2, :], 'W': np.s_[1, :], 'N': np.s_[:, -2], 'S': np.s_[:, 1]}[POS[e]]
    rows = [np.stack([A[x][EDGES[e]], B[x][nxt]]) for x in ('XG', 'YG')]
    # points along the first index are put in first
    p = model.fine(*rows, 1, 1) if e in 'EW' else np.moveaxis(model.fine(*(r.T for r in rows), 1, 1), 0, 1)
    if ex.shape != p[1].shape[:1] or ey.shape != ex.shape:
        return 'returns an edge of %s points' % (ex.shape,)
    d = model.angle(model.cart(ex, ey), p[1]) / max(1e-9, model.angle(p[0], p[-1]).max())
    if not d.max() < 2e-5:
        return 'returns points that are not midway to the next points of the second tile: off by %.3g of the distance' % d.max()
    return None


def judge(op, e, A, B, data):
    """-> list of (key, what) for the file a successful step stored."""
    ni, nj = (op['nia'], op['nja'])
    if op['op'] == 'stitch':
        ni, nj = (ni + op['nib'], nj) if e in 'EW' else (ni, nj + op['njb'])
    if data is None:
        return [('no-file', 'stored no file')]
    try:
        g, pad = codec.decode_grid(data, ni, nj)
    except ValueError as x:
        return [('size', 'stored a file for another number of cells: %s' % x)]
    ux, uy = union(A, B, e)
    ref = model.subdivide(ux, uy)
    sa, sb = place(ref, A, B, e)
    tol = max(2e-5, 2e-5 + 4e-14 / min(ref['_theta']) ** 4)
    ax = 0 if e in 'EW' else 1
    out = []
    for n in codec.NAMES:
        a = A[n]
        got = g[n][sa[n]] if op['op'] == 'stitch' else g[n]
        truth = dict(ref)
        for x in ('XG', 'YG', 'XC', 'YC', n):
            truth[x] = ref[x][sa[x]]
        keep = ~(a == 0)
        bad = keep & ~((codec.bits(got) == codec.bits(a)) | (np.isnan(got) & np.isnan(a)))
        if np.any(bad):
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            out.append(('altered', '%s%s of the first tile, %r, becomes %r (%d entries)' % (n, list(k), a[k], got[k], bad.sum())))
            continue
        bad = ~keep & model.bad_entries(n, got, truth, tol)
        # along the shared edge, where the neighbour is in the other tile
        shared = np.zeros(a.shape, bool)
        if n in ACROSS[ax]:
            shared[EDGES[e]] = True
        zero = bad & shared & (got == 0)
        if np.any(zero):
            out.append(('fringe-zero-%s:%s' % ('ij'[ax], n), '%s is left zero along the shared edge' % n))
        bad &= ~zero
        if np.any(bad):
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            out.append(('filled-wrong', 'the zero %s%s of the first tile becomes %r, the true value is %r (%d entries)'
                        % (n, list(k), got[k], truth[n][k], bad.sum())))
        if op['op'] == 'stitch':
            b = B[n]
            got = g[n][sb[n]]
            mask = np.ones(b.shape, bool)
            if codec.DEL[n][ax]:
                mask[EDGES[POS[e]]] = False
            bad = mask & ~((codec.bits(got) == codec.bits(b)) | (np.isnan(got) & np.isnan(b)))
            if np.any(bad):
                k = tuple(int(x) for x in np.argwhere(bad)[0])
                out.append(('not-concatenation', '%s%s of the second tile, %r, becomes %r (%d entries)' % (n, list(k), b[k], got[k], bad.sum())))
    return out


def refines(op, disk):
    """Positions at a pole may name corners that are not opposite."""
    try:
        ok = op['op'] != 'regrid' or all(e[0] == 'grid' for e in c13.expected(op, disk))
    except ValueError:
        # another tile than planned
        ok = False
    return 'grid' if ok else 'unclear'


def run(case, ctx):
    disk = flow.given(case)
    core.restore(ctx.root, disk)
    known = {}
    for k, st in enumerate(case['steps']):
        op = st['op']
        if any(n not in disk for n in flow.needs(op)):
            continue
        join = op['op'] in ('stitch', 'addfringe')
        what, e, A, B = expected(op, disk) if join else (refines(op, disk), None, None, None)
        if what in ('join', 'refused') and (what == 'refused' and not adjacent(A, B) or what == 'join' and k % 2):
            o = ctx.node('props.c14:edges', op, bool(k % 3))
            b = bad_end(o)
            w = b or judge_edges('join' if e else 'refused', e, A, B, o)
            if w:
                return [b or vio('wrong-edges', 'step %d: matchedges %s' % (k, w))]
            ctx.count('edges_compared')
        old = None
        if st.get('old'):
            old = b'old bytes' * st['old']
            ctx.put(op['out'], old)
        for t in st['tries'] + [None]:
            o = c12.go(ctx, st, t or {})
            b = bad_end(o, allow=('died',) if t and t['alloc'] else ())
            if b:
                return [b]
            if t:
                c12.seen(ctx, {'mode': what}, st, t, o, e)
            data = ctx.get(op['out'])
            if c12.good(o):
                if what == 'refused':
                    return [vio('joined', 'step %d (%s): tiles without a common edge are joined' % (k, op['op']))]
                if what == 'join':
                    for key, w in judge(op, e, A, B, data):
                        v = vio('wrong-tile', 'step %d (%s, the %s edge of the first tile, run as %s): %s%s'
                                % (k, op['op'], e, st['via'], w, '; tried under %s' % t if t else ''), key)
                        if not key.startswith('fringe-zero'):
                            return [v]
                        known[key] = v
                    ctx.count('tiles_compared')
                    ctx.nontrivial = True
            elif t is None and what in ('join', 'grid'):
                return [vio('spurious-error', 'step %d (%s) fails without trouble: %s' % (k, op['op'], o.value[:2] if o.ok else o.brief()))]
            elif what == 'refused':
                ctx.nontrivial = True
                if data != old:
                    return [vio('refused-output', 'step %d (%s) refuses its tiles but has changed its output file' % (k, op['op']))]
                if t is None:
                    ctx.count('refused')
        if c12.good(o) and data:
            disk[op['out']] = data
        elif old:
            ctx.rm(op['out'])
        ctx.sig(op['op'], what, e, st['via'], *([min(x, 4) for x in A['XC'].shape + B['XC'].shape] if A else []))
    return list(known.values())
