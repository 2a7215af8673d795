"""C02: a torn grid file is never taken for a grid."""
import os

from .. import codec, core, ops
from .common import *

CASES = {'quick': 1500, 'thorough': 40000}
RULE = ('a run is a path with or without a complete old grid, 1-3 writers (library call or command) each killed, failed or '
        'interrupted at a seeded point, and readers (plain, strict, refine, join) of what is left, each in its own process; '
        'non-trivial: a crash or fault fired in a writer')
ASSUMPTIONS = ASSUME + ['a killed process leaves exactly what it had handed to the system (ordered, in-place); loss of already '
                        'written pages by a machine crash is not modelled, the package has no durability calls']
SIG = 'writer ending x file state left x reader x verdict'


def geo(rng, ni, nj):
    lon = rng.choice([-50.0, 10.0, 170.0, 200.5])
    lat = rng.choice([-60.0, -2.0, 40.0])
    d = rng.choice([0.05, 0.3, 2.0])
    return {'kind': 'geo', 'lon1': lon, 'lat1': lat + d * nj, 'lon2': lon + d * ni, 'lat2': lat, 'ni': ni, 'nj': nj}


def gen(rng, ctx, tier, i):
    g = rng.random() < 0.4
    ni, nj = dims(rng, big=0.1, top=4 if g else 9)
    if g:
        ni, nj = min(ni, 8), min(nj, 8)
        if ni * nj > 20:
            ni, nj = 4, 3
    mk = lambda: geo(rng, ni, nj) if g else rand_grid(rng, ni, nj)
    case = {'file': rng.choice(['t.mitgrid', 'd/t.mitgrid']), 'ni': ni, 'nj': nj, 'geo': g,
            'old': [mk()] if rng.random() < 0.6 else [], 'steps': []}
    setup(ctx, case)
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        via = 'cmd' if g and rng.random() < 0.4 else 'call'
        st = {'grid': mk(), 'via': via, 'stdio_buf': bufs(rng, ni * nj), 'faults': []}
        o = ctx.node('ops:run_op', wop(case, st), stdio_buf=st['stdio_buf'], probe=True)
        ol = oplist(o.log)
        if ol:
            r = rng.random()
            if r < 0.62:
                st['faults'] = [gen_crash(rng, ol)]
            elif r < 0.72:
                t = rng.choice(ol)
                st['faults'] = [{'on': t[0], 'nth': t[1], 'kind': 'sigint'}]
            elif r < 0.95:
                st['faults'] = gen_faults(rng, ol)
            if rng.random() < 0.15:
                f = gen_fault(rng, ol, kinds=('short', 'nospc'))
                if f:
                    st['faults'].append(f)
        case['steps'].append(st)
    return case


def wop(case, st):
    if st['via'] == 'cmd':
        g = st['grid']
        return {'op': 'cmd', 'prog': 'mkgrid', 'argv': ['--lon1=%r' % g['lon1'], '--lat1=%r' % g['lat1'],
                '--lon2=%r' % g['lon2'], '--lat2=%r' % g['lat2'], '--lon_subscale', str(g['ni']),
                '--lat_subscale', str(g['nj']), '--outfile', case['file']]}
    return {'op': 'write_grid', 'file': case['file'], 'ni': case['ni'], 'nj': case['nj'], 'grid': st['grid']}


def setup(ctx, case):
    os.makedirs(os.path.dirname(ctx.p(case['file'])), exist_ok=True)
    if case['old']:
        ctx.put(case['file'], codec.encode_grid(ops.grid_of(case['old'][0]), case['ni'], case['nj']))


def readers(case):
    f, ni, nj = case['file'], case['ni'], case['nj']
    out = [{'op': 'read_grid', 'file': f, 'ni': ni, 'nj': nj}, {'op': 'read_grid', 'file': f, 'ni': ni, 'nj': nj, 'strict': True}]
    if case['geo']:
        g = case['steps'][-1]['grid']
        out.append({'op': 'regrid', 'src': {'kind': 'file', 'file': f, 'ni': ni, 'nj': nj}, 'lon1': g['lon1'], 'lat1': g['lat1'],
                    'lon2': g['lon2'], 'lat2': g['lat2'], 'lon_subscale': 1, 'lat_subscale': 1})
        d = (g['lon2'] - g['lon1']) / ni
        b = dict(g, lon1=g['lon2'], lon2=g['lon2'] + d * 2, ni=2)
        out.append({'op': 'stitch', 'tilea': f, 'nia': ni, 'nja': nj, 'tileb': 'other.mitgrid', 'nib': 2, 'njb': nj, 'b': b})
    return out


def run(case, ctx):
    if not case['steps']:
        return []
    for g in case['old'] + [st['grid'] for st in case['steps']]:
        g['ni'], g['nj'] = case['ni'], case['nj']
    setup(ctx, case)
    # contents that count as complete: the old one and every grid written so far
    full = []
    if case['old']:
        full.append(ctx.get(case['file']))
    for k, st in enumerate(case['steps']):
        # what the complete new file is: a calm writer on a copy of the disk
        op = wop(case, st)
        here = ctx.snap()
        ctx.node('ops:run_op', op, stdio_buf=st['stdio_buf'], probe=True)
        full.append(ctx.get(case['file']))
        ctx.restore(here)
        o = ctx.node('ops:run_op', op, plan=st['faults'], stdio_buf=st['stdio_buf'])
        if fired(o):
            ctx.nontrivial = True
        b = bad_end(o)
        if b:
            return [b]
        data = ctx.get(case['file'])
        state = 'absent' if data is None else 'new' if data == full[-1] else 'complete' if data in full else 'torn%d' % (len(data) % 8 > 0)
        ctx.count('left_' + state)
        for r in readers(dict(case, steps=case['steps'][:k + 1])):
            if r['op'] == 'stitch':
                ctx.put('other.mitgrid', codec.encode_grid(ops.grid_of(r['b']), 2, case['nj']))
            q = ctx.node('ops:run_op', r)
            ctx.sig(o.kind, st['via'], state, r['op'], q.kind, q.etype)
            b = bad_end(q)
            if b:
                return [b]
            if not q.ok:
                if state in ('new', 'complete') and r['op'] == 'read_grid' and not r.get('strict'):
                    return [vio('refused', 'a complete file was refused: %s' % q.brief())]
                ctx.count('reader_refused')
                continue
            ctx.count('reader_accepted')
            # accepted: must be what the same reader makes of a complete file
            good = False
            if r['op'] == 'read_grid':
                for c in full:
                    if c is None:
                        continue
                    try:
                        g, _ = codec.decode_grid(c, case['ni'], case['nj'])
                    except ValueError:
                        continue
                    if codec.same_grid(q.value, g) is None:
                        good = True
            else:
                now = ctx.snap()
                for c in full:
                    if c is None:
                        continue
                    ctx.put(case['file'], c)
                    e = ctx.node('ops:run_op', r, probe=True)
                    if e.ok and core.digest(e.value) == core.digest(q.value):
                        good = True
                ctx.restore(now)
            if not good:
                left = 'no file' if data is None else '%d of %d bytes' % (len(data), 128 * (case['ni'] + 1) * (case['nj'] + 1))
                return [vio('torn-accepted', '%s accepted a torn file (%s left by writer %d, %s) as a grid'
                            % (r['op'], left, k, o.brief()))]
    return []
