"""C15: boundary-condition files are complete, correctly laid out, and never stale."""
import numpy as np

from .. import codec, core, flow, mdsgen, model, opgen, ops
from ..stubs import xesmf
from .common import *
from . import c11, c12

CASES = {'quick': 300, 'thorough': 12000}
RULE = ('a run is a history of 1-4 generations of boundary conditions (calls and commands) from two parent grids, two regional grids '
        'and two sets of results of equal sizes into shared directories, with grid files replaced, results truncated and restored, '
        'old output in the way, and each generation tried up to three times under faults, death or interrupts first; every file that '
        'a success must have written is compared with the model; non-trivial: a success that was compared, or a fault')
ASSUMPTIONS = ASSUME + ['the interpolation library is a stub: dense weights from both sets of coordinates, kept in and reused from the '
                        'file it is told, incomplete weight files refused',
                        'values agree with the model to 1e-9 of the largest; cells whose boundary index is 0 are not compared',
                        'data and metadata lost together (a whole time or tile) cannot be told from ones that never were',
                        'after a death that leaves an incomplete weights file the user removes it']
SIG = 'grids x responses x depths x times x boundaries x how run x trouble x ending'
TRACER, UU, VV = ('T', 'S', 'Eta', 'W'), ('U', 'UICE'), ('V', 'VICE')
SIDES = {'N': 'OB_Jnorth', 'S': 'OB_Jsouth', 'E': 'OB_Ieast', 'W': 'OB_Iwest'}


def moved(rng, g, rot):
    """Another grid of the same size nearby."""
    h = dict(g)
    w, d = abs(g['lon2'] - g['lon1']), abs(g['lat2'] - g['lat1'])
    k = rng.choice(['lon', 'lat', 'both', 'turn'] if rot else ['lon', 'lat', 'both'])
    if k == 'turn':
        h['rot'] = (h.get('rot', 0) + 2) % 4
    if k in ('lon', 'both'):
        x = rng.choice([0.02, 0.1, -0.15]) * w
        h['lon1'] += x
        h['lon2'] += x
    if k in ('lat', 'both'):
        y = rng.choice([0.02, 0.1, -0.15]) * d
        h['lat1'] += y
        h['lat2'] += y
    return h


def gen(rng, ctx, tier, i):
    o = opgen.gen_obcs(rng, rng.choice([2, 3, 3, 4]))
    if rng.random() < 0.3:
        o['region']['rot'] = rng.choice([1, 2, 3])
    w = {'grids': {'parent': [o['parent'], moved(rng, o['parent'], False)], 'region': [o['region'], moved(rng, o['region'], True)]},
         'res': [o['resp'], []]}
    for s in o['resp']:
        if s['base'] == 'T' or rng.random() < 0.7:
            w['res'][1].append(dict(s, seed=s['seed'] + 1))
    if rng.random() < 0.4:
        for s in w['res'][1]:
            s['its'] = [1, 2]
    for s in w['res'][0] + w['res'][1]:
        # some are stored at more times than temperature, or not at all of its times
        x = rng.random()
        if s['base'] != 'T' and x < 0.25:
            s['its'] = s['its'] + rng.sample([x for x in (1, 60, 144, 9999999999) if x not in s['its']], rng.randint(1, 2))
        elif s['base'] != 'T' and x < 0.3 and len(s['its']) > 1:
            s['its'] = s['its'][1:]
    for s in w['res'][0] + w['res'][1]:
        if len(s['its']) > 1 and rng.random() < 0.04:
            # stored with other depths at one time
            s['odd'] = [rng.choice(s['its']), rng.choice([n for n in (0, 1, 2, 3, 4) if (n or 1) != (s['nz'] or 1)])]
    case = {'world': w, 'old': [], 'steps': [], 'dirs': rng.choice([['par', 'par2']] * 9 + [['par[1]', 'par[2]']])}
    for n in rng.sample(['obcs/OBNt', 'obcs/OBSt', 'obcs/OBEu', 'obcs2/OBWt', 'par_obcs/OBNt'], rng.choice([0, 0, 1, 2])):
        case['old'].append([n, rng.randint(0, 3000)])
    core.restore(ctx.root, files(case))
    for k in range(rng.randint(1, 4)):
        st = {'via': rng.choice(['cmd', 'call', 'call']), 'style': rng.randrange(10**6), 'p': rng.choice([0, 0, 1]), 'r': rng.choice([0, 0, 1]),
              'res': rng.choice([0, 0, 1]), 'tries': [], 'damage': None}
        P, R = w['grids']['parent'][st['p']], w['grids']['region'][st['r']]
        kw = opgen.gen_obkw(rng, {'parent': P, 'region': shaped(R)}, rng.choice(['obcs', 'obcs', 'obcs2', None]), case['dirs'][st['res']])
        if kw['resultsdir'] is None:
            del kw['resultsdir']
        if 'regional_mitgrid_matrices' in kw:
            kw['regional_mitgrid_matrices'] = R
        if 'parent_mitgrid_matrices' in kw:
            kw['parent_mitgrid_matrices'] = P
        if st['via'] == 'cmd':
            for x, g in (('parent', P), ('regional', R)):
                kw.pop(x + '_mitgrid_matrices', None)
                kw[x + '_mitgridfile'] = {'parent': 'parent', 'regional': 'region'}[x] + '.mitgrid'
                kw['ni_' + x], kw['nj_' + x] = ops.grid_shape(g)
            for b in SIDES.values():
                if isinstance(kw.get(b), dict):
                    kw[b] = kw[b]['np']
        st['op'] = {'op': 'getobcs', 'kw': kw}
        if rng.random() < 0.1:
            st['op']['verbose'] = True
        if rng.random() < 0.1:
            st['op']['strict'] = True
        if rng.random() < 0.15:
            L = sorted(n for n, b in files(case).items() if b and n.startswith(kw['parent_resultsdir'] + '/')) + ['parent.mitgrid', 'region.mitgrid']
            st['damage'] = [rng.choice(L), rng.random()]
        elif rng.random() < 0.1:
            # a file is lost
            L = [n for n in (files(case)) if n.startswith(kw['parent_resultsdir'] + '/')]
            L = [n for n in L if n.endswith('.data') or n.count('.') == 2 + kw['parent_resultsdir'].count('.')]
            if L:
                st['damage'] = [rng.choice(sorted(L)), None]
        elif rng.random() < 0.1:
            # index vectors that do not fit
            b = rng.choice(sorted(SIDES.values()))
            n = ops.grid_shape(R)[0 if 'J' in b else 1]
            kw[b] = [1] * (n + rng.choice([1, 2, -1 if n > 1 else 3]))
        place(ctx, case, st)
        here = ctx.snap()
        q = go(ctx, st, {}, probe=True)
        case['steps'].append(st)
        if q.ok:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                ctx.restore(here)
                t = c12.trouble(rng, ctx, q, lambda t, **k: go(ctx, st, t, probe=True, **k))
                st['tries'].append(t)
    return case


def shaped(g):
    """ni, nj of the grid as it lies in the file."""
    ni, nj = ops.grid_shape(g)
    return {'ni': ni, 'nj': nj}


def files(case):
    w = case['world']
    out = {}
    dirs = case.get('dirs') or ['par', 'par2']
    # ('par1': a directory that the name of another, taken for a pattern, means)
    for s, d in ((0, dirs[0] + '/'), (1, dirs[1] + '/')) + (((1, 'par1/'),) if '[' in dirs[0] else ()):
        for r in w['res'][s]:
            for n, b in mdsgen.files(r)[0].items():
                out[d + n] = b
            if r.get('odd') and r['odd'][0] in r['its']:
                for n, b in mdsgen.files(dict(r, its=r['odd'][:1], nz=r['odd'][1]))[0].items():
                    out[d + n] = b
    for n, size in case['old']:
        out[n] = (b'old ' * size)[:size]
    return out


def place(ctx, case, st):
    """The grid files of this step."""
    w = case['world']
    for n, k in (('parent', 'p'), ('region', 'r')):
        g = w['grids'][n][st[k]]
        ctx.put(n + '.mitgrid', codec.encode_grid(ops.grid_of(g), *ops.grid_shape(g)))


def go(ctx, st, t, probe=False, count=False):
    op = st['op']
    if st['via'] == 'cmd':
        return ctx.node('props.c11:command', 'getobcs', c11.argv(op, st['style']), {'to': 'null', 'line': False}, t.get('inject', []), False,
                        probe=probe, **c12.kw(t, count))
    return ctx.node('flow:script', [op], t.get('inject', []), False, probe=probe, **c12.kw(t, count))


def index(v, n, top):
    """Zero-based cell per boundary cell (-1: none), None if off, or an error."""
    if v is None:
        return 'edge'
    v = list(v['np'] if isinstance(v, dict) else v)
    if not any(v):
        return None
    if len(v) != n:
        raise ValueError('length')
    return [top + x if x < 0 else x - 1 for x in v]


class Unclear(Exception):
    """Nothing is asked for that must not be."""


def expected(case, st):
    """{file name: (array [n, depths, times], mask of cells that count)}"""
    w, kw = case['world'], st['op']['kw']
    P, R = (ops.grid_of(w['grids'][n][st[k]]) for n, k in (('parent', 'p'), ('region', 'r')))
    ni, nj = R['XC'].shape
    sides = {}
    for s, name in SIDES.items():
        n, top = (ni, nj) if s in 'NS' else (nj, ni)
        if kw.get(name) == [] and st['via'] == 'cmd':
            raise ValueError('no value')
        v = index(kw.get(name), n, top)
        if v == 'edge':
            v = [top - 1 if s in 'NE' else 0] * n
        if v is not None:
            sides[s] = np.array(v)
    dp, dr = ([model.lonlat(model.fine(g['XG'], g['YG'], 1, 1)) for g in (P, R)])
    A, shape_in = {}, {}
    for k, (si, sj) in {'t': (1, 1), 'u': (0, 1), 'v': (1, 0)}.items():
        pts = [(x[si::2, sj::2], y[si::2, sj::2]) for x, y in (dp, dr)]
        if k == 't':
            pts = [(g['XC'], g['YC']) for g in (P, R)]
        A[k] = xesmf.weights(*pts[0], *pts[1])
        shape_in[k], A[k + 'o'] = pts[0][0].shape, pts[1][0].shape
    resp = {r['base']: r for r in w['res'][st['res']]}
    times = sorted(resp['T']['its'])
    out = {}
    for name in TRACER + UU + VV:
        if name not in resp:
            continue
        r = resp[name]
        if r.get('odd') and r['odd'][0] in times and (r['odd'][1] or 1) != (r['nz'] or 1):
            if not sides or len(times) == 1:
                raise Unclear()
            raise ValueError('depths')
        kind = 't' if name in TRACER else 'u' if name in UU else 'v'
        a = mdsgen.full(r)[[r['its'].index(t) for t in times], 0]       # times, [nz,] ny, nx
        if a.ndim == 3:
            a = a[:, None]
        nt, nz = a.shape[:2]
        full = np.zeros((nt, nz) + shape_in[kind])
        full[:, :, :a.shape[3], :a.shape[2]] = a.transpose(0, 1, 3, 2)
        reg = np.zeros((nt, nz) + A[kind + 'o'])
        for t in range(nt):
            for z in range(nz):
                reg[t, z] = (A[kind] @ full[t, z].ravel()).reshape(reg.shape[2:])
        for s, v in sides.items():
            c = np.arange(len(v))
            q = v + 1 if s + kind in ('Sv', 'Wu') else v
            mask = v >= 0
            q = np.where(mask, q, 0)
            ob = reg[:, :, c, q] if s in 'NS' else reg[:, :, q, c]
            out['OB' + s + name.lower()] = ob.transpose(2, 1, 0), mask
    return out


def outdir(kw):
    return kw.get('resultsdir') or kw['parent_resultsdir'] + '_obcs'


def judge(ctx, kw, want):
    for n, (a, mask) in sorted(want.items()):
        data = ctx.get(outdir(kw) + '/' + n)
        if data is None:
            return vio('missing', 'reports success without writing %s' % n)
        if len(data) != a.size * 8:
            return vio('size', 'reports success, but %s has %d bytes and should have %d (%s values)' % (n, len(data), a.size * 8, a.shape))
        got = np.frombuffer(data, '>f8').astype('f8').reshape(a.shape, order='F')
        tol = 1e-9 * max(1.0, float(np.abs(a).max()))
        bad = ~(np.abs(got - a) <= tol) & mask[:, None, None]
        if bad.any():
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            return vio('wrong-values', 'reports success, but %s%s (cell, depth, time) is %r and should be %r (%d of %d differ)'
                       % (n, list(k), float(got[k]), float(a[k]), bad.sum(), bad.size))
    return None


def boundary_files(ctx):
    return {n: b for n, b in ctx.snap().items() if n.rsplit('/', 1)[-1].startswith('OB')}


def torn_weights(ctx, d):
    """Incomplete weight files in a directory."""
    out = []
    for n, b in ctx.snap().items():
        if n.startswith(d + '/') and n.endswith('.nc') and (b[:8] != xesmf.MAGIC or xesmf.hashlib.sha1(b[28:]).digest() != b[8:28]):
            out.append(n)
    return out


def needed(case, st, name):
    """Does this step read the file?"""
    kw = st['op']['kw']
    if name in ('parent.mitgrid', 'region.mitgrid'):
        return name in (kw.get('parent_mitgridfile'), kw.get('regional_mitgridfile'))
    if not name.startswith(kw['parent_resultsdir'] + '/'):
        return False
    # other responses are wanted at the times of temperature only
    resp = {r['base']: r for r in case['world']['res'][st['res']]}
    b, it = name.split('/')[1].split('.')[:2]
    return b == 'T' or int(it) in resp['T']['its']


def run(case, ctx):
    core.restore(ctx.root, files(case))
    for k, st in enumerate(case['steps']):
        kw = st['op']['kw']
        for x, y, z in (('parent', 'parent', 'p'), ('regional', 'region', 'r')):
            # (one description of a grid, also after minimising)
            g = case['world']['grids'][y][st[z]]
            if x + '_mitgrid_matrices' in kw:
                kw[x + '_mitgrid_matrices'] = g
            if 'ni_' + x in kw:
                kw['ni_' + x], kw['nj_' + x] = ops.grid_shape(g)
        place(ctx, case, st)
        saved = None
        here = boundary_files(ctx)
        try:
            want = expected(case, st)
        except Unclear:
            continue
        except ValueError:
            want = None
        must_fail = want is None
        if st['damage']:
            n, at = st['damage']
            saved = ctx.get(n)
            if saved and needed(case, st, n) and at is None:
                ctx.rm(n)
                must_fail = True
            elif saved and needed(case, st, n):
                cut = int(at * len(saved)) if not n.endswith('.meta') else int(at * len(saved) / 4)
                ctx.put(n, saved[:cut])
                must_fail = True
        for t in st['tries'] + [None]:
            o = go(ctx, st, t or {})
            b = bad_end(o, allow=('died',) if t and t['alloc'] else ())
            if b:
                return [b]
            if t:
                c12.seen(ctx, {'mode': 'obcs'}, st, t, o, bool(want))
            if c12.good(o):
                if must_fail:
                    return [vio('accepted', 'step %d reports success although %s' % (k, 'the boundary vectors do not fit, a time is missing or a response has other depths at another time' if want is None
                                                                                   else '%s is incomplete or lost' % st['damage'][0]))]
                v = judge(ctx, kw, want)
                now = boundary_files(ctx)
                for n in sorted(set(now) | set(here)):
                    if not v and now.get(n) != here.get(n) and not (n.startswith(outdir(kw) + '/') and n[len(outdir(kw)) + 1:] in want):
                        v = vio('extra-file', 'reports success, but has %s %s, which is no boundary it was asked for'
                                % ('written' if n in now else 'removed', n))
                if v:
                    v['msg'] = 'step %d (run as %s%s) %s' % (k, st['via'], '; tried under %s' % t if t else '', v['msg'])
                    return [v]
                ctx.count('obcs_files_compared', len(want))
                ctx.nontrivial = True
            elif t is None and not must_fail:
                torn = torn_weights(ctx, outdir(kw))
                if torn:
                    ctx.count('torn_weights_refused')
                    for n in torn:
                        ctx.rm(n)
                    o = go(ctx, st, {})
                    if c12.good(o):
                        v = judge(ctx, kw, want)
                        if v:
                            return [v]
                        continue
                return [vio('spurious-error', 'step %d fails without trouble: %s' % (k, o.value[:2] if o.ok else o.brief()))]
        if saved:
            ctx.put(st['damage'][0], saved)
        ctx.sig(st['p'], st['r'], st['res'], st['via'], kw.get('resultsdir'), sorted(want)[:3] if want else None, c12.good(o), bool(st['damage']))
    return []
