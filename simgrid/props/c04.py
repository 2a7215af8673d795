"""C04: an MDS read returns exactly the stored data or an error."""
import numpy as np

from .. import codec, core, mdsgen, ops
from .common import *

CASES = {'quick': 1800, 'thorough': 40000}
RULE = ('a run stores one MDS set (tiles, iterations, records, levels, precision, byte order, blank tiles, wildcard directories) '
        'and reads it 2-5 times with seeded selections and directory orders under read faults, damage at rest, or another '
        'process removing or replacing a file between two operations; non-trivial: a fault, damage or a shuffled directory')
ASSUMPTIONS = ASSUME + ['a tile without metadata is a blank tile: its removal before the directory is listed cannot be told from one',
                        'tiles of one set that differ in shape are refused or read as they are (MITgcm writes equal ones)']
SIG = 'layout x selection keywords x damage x fired faults x verdict'


def gen(rng, ctx, tier, i):
    d = mdsgen.gen_set(rng)
    bracket = not d['dirs'] and rng.random() < 0.06
    if bracket:
        d['base'] = 'run[1]/' + d['base'].split('/')[-1]
    fs, index = mdsgen.files(d)
    case = {'set': d, 'steps': [], 'beside': mdsgen.neighbours(rng, d)}
    if bracket:
        # a directory that its name, taken for a pattern, means
        case['beside'] += [[n.replace('run[1]', 'run1'), n] for n in sorted(mdsgen.files(d)[0])]
    for _ in range(rng.randint(2, 5)):
        st = {'read': mdsgen.gen_read(rng, d), 'dirseed': rng.randint(0, 10**6) if rng.random() < 0.8 else 0, 'faults': [],
              'damage': [], 'stdio_buf': bufs(rng)}
        r = rng.random()
        ends = ends_of(d, st['read'])
        if r < 0.3:
            t, k, n = rng.choice(index)
            what = rng.choice(['cutdata', 'cutdata', 'cutmeta', 'nodata', 'longdata', 'badmeta', 'emptymeta', 'nrec'])
            ext = '.data' if what in ('cutdata', 'nodata', 'longdata') else '.meta'
            size = len(fs[n + ext])
            at = rng.choice([0, size - 1, rng.randrange(size), (size // 8) * rng.randint(0, 7), size - size // max(1, d['nrec'])])
            st['damage'] = [{'what': what, 'file': n, 'at': min(at, size - 1)}]
            if len([x for x in index if x[1] == k]) > 1 and rng.random() < 0.4:
                # the tile comes from a run of another configuration
                st['damage'] = [{'what': 'alien', 'file': n, 'at': t, 'it': k,
                                 'how': rng.choice(['dims', 'nrec'] + ['prec'] * 2 * (d['prec'] == 'float32') +
                                                   ['twice'] + ['narrow', 'outside'] * (d['layout'] != 'packed'))}]
                if st['damage'][0]['how'] == 'twice':
                    st['damage'][0]['of'] = rng.choice([x[0] for x in index if x[1] == k and x[0] != t])
                if st['damage'][0]['how'] == 'outside':
                    st['damage'][0]['by'] = rng.choice([[1, 0], [0, 1], [1, 0], [0, 1], [-1, 0], [0, -1]])
            elif rng.random() < 0.15:
                # all metadata stem from an earlier run of another configuration
                st['damage'] = [{'what': 'stale', 'file': n, 'how': rng.choice(['prec', 'prec', 'nrec', 'nz'] if d['nz'] else ['prec', 'prec', 'nrec']),
                                 'by': rng.choice([-1, 1, 1])}]
            if d['its'] and not ends and rng.random() < 0.2:
                # no tile at all of one of the iterations asked for
                sel = mdsgen.expected(d, st['read'])[1]
                st['damage'] = [{'what': rng.choice(['noit', 'noit', 'noitmeta']), 'file': n, 'it': d['its'].index(rng.choice(sel))}]
        elif r < 0.85:
            place(ctx, case, st)
            o = ctx.node('ops:run_op', rop(d, st), dirseed=st['dirseed'], stdio_buf=st['stdio_buf'], probe=True)
            ol = oplist(o.log)
            if ol:
                if rng.random() < 0.35:
                    a = rng.choice(ol)
                    t, k, n = rng.choice(index)
                    ext = rng.choice(['.data', '.data', '.meta'])
                    if rng.random() < 0.7:
                        act = ['unlink', n + ext, '']
                    else:
                        act = ['rename', 'short.tmp', n + ext]
                        st['short'] = rng.randint(0, len(fs[n + ext]) - 1)
                    st['faults'] = [{'on': a[0], 'nth': a[1], 'kind': 'action', 'act': act}]
                    if ends and ext == '.meta' and act[0] == 'unlink' and len([x for x in index if x[1] == k]) == 1:
                        st['faults'] = []           # (an iteration less, not one that misses a tile)
                else:
                    st['faults'] = gen_faults(rng, ol)
        case['steps'].append(st)
    return case


def ends_of(d, rd):
    it = rd['pos'][0] if rd['pos'] else rd['kw'].get('itrs')
    return it in ('nan', 'inf')


def rop(d, st):
    return {'op': 'rdmds', 'fname': mdsgen.fname(d), 'pos': st['read']['pos'], 'kw': st['read']['kw']}


def place(ctx, case, st):
    fs, index = mdsgen.files(case['set'])
    if '[' in case['set']['base']:
        fs['run[1]/'] = None
    for new, old in case.get('beside', ()):
        # (with other values)
        if new not in fs:
            fs[new] = bytes(x ^ 1 for x in fs[old]) if '.data' in old else fs[old]
    for dm in st['damage']:
        n, w = dm['file'], dm['what']
        for ext, b in (('.data', fs.get(n + '.data', b'')), ('.meta', fs.get(n + '.meta', b''))):
            if w == 'cut' + ext[1:]:
                fs[n + ext] = b[:dm['at']]
        if w == 'nodata':
            fs.pop(n + '.data', None)
        elif w in ('noit', 'noitmeta'):
            for t, k, m in index:
                if k == dm['it']:
                    fs.pop(m + '.meta', None)
                    if w == 'noit':
                        fs.pop(m + '.data', None)
        elif w == 'longdata':
            fs[n + '.data'] += b'\x40' * 8
        elif w == 'badmeta':
            fs[n + '.meta'] = b' dimList = ;' + fs[n + '.meta'][dm['at']:]
        elif w == 'emptymeta':
            fs[n + '.meta'] = b''
        elif w == 'stale':
            fs.update(stale(case['set'], dm, index))
        elif w == 'alien':
            fs.update(alien(case['set'], dm))
        elif w == 'nrec':
            fs[n + '.meta'] = fs[n + '.meta'].replace(b'nrecords = [ %5d' % case['set']['nrec'], b'nrecords = [ %5d' % (case['set']['nrec'] + 1))
    for f in st['faults']:
        if f['kind'] == 'action' and f['act'][0] == 'rename':
            fs['short.tmp'] = fs.get(f['act'][2], b'')[:st.get('short', 0)]
    core.restore(ctx.root, fs)


def alien(d, dm):
    """The files of one tile as a run with another precision, more records, a
    larger domain or narrower tiles would have written the same values, or of a
    tile that lies beside the global array or where another one lies."""
    t, suf, lo, hi, idx, m2g = mdsgen.tiles(d)[dm['at']]
    a = mdsgen.full(d)[dm['it']]
    lo, hi = list(lo), list(hi)
    if dm['how'] == 'narrow':
        # (the first column only, or the first row of a narrow one)
        k = 0 if idx.shape[1] > 1 else 1
        hi[k] = lo[k]
        idx = idx[:, :1] if k == 0 else idx[:1]
    elif dm['how'] == 'twice':
        _, _, lo, hi, _, m2g = mdsgen.tiles(d)[dm['of']]
        lo, hi = list(lo), list(hi)
    elif dm['how'] == 'outside':
        for k in (0, 1):
            lo[k], hi[k] = [x + dm['by'][k] * (d['nx'], d['ny'])[k] for x in (lo[k], hi[k])]
    v = a.reshape(a.shape[:-2] + (-1,))[..., idx]
    g, prec, nrec = [d['nx'], d['ny']], d['prec'], d['nrec']
    if dm['how'] == 'prec':
        prec = 'float64'
    elif dm['how'] == 'nrec':
        v = np.concatenate([v, v[:1] * 2 + 1])
        nrec += 1
    elif dm['how'] == 'dims':
        g[1] += 1
    if d['nz']:
        g, lo, hi = g + [d['nz']], lo + [1], hi + [d['nz']]
    tp = {'b': '>', 'l': '<'}[d['endian']] + {'float32': 'f4', 'float64': 'f8'}[prec]
    kw = {}
    if d['extras']:
        kw = dict(fields=['FLD%d' % i for i in range(nrec)], simulation='sim')
    return {dm['file'] + '.data': v.astype(tp).tobytes(),
            dm['file'] + '.meta': codec.encode_meta(g, lo, hi, prec, nrec, map2glob=m2g, key=d['style'], comments=d['comments'], **kw)}


def stale(d, dm, index):
    """Metadata of all tiles as a run with another precision, fewer or more
    records or levels would have written them."""
    prec, nrec, nz = d['prec'], d['nrec'], d['nz']
    if dm['how'] == 'prec':
        prec = {'float32': 'float64', 'float64': 'float32'}[prec]
    elif dm['how'] == 'nrec':
        nrec = max(1, nrec + dm['by'])
    else:
        nz = max(1, nz + dm['by'])
    out = {}
    T = {x[0]: x for x in mdsgen.tiles(d)}
    for t, k, n in index:
        _, suf, lo, hi, idx, m2g = T[t]
        g, lo, hi = [d['nx'], d['ny']], list(lo), list(hi)
        if nz:
            g, lo, hi = g + [nz], lo + [1], hi + [nz]
        out[n + '.meta'] = codec.encode_meta(g, lo, hi, prec, nrec, map2glob=m2g, key=d['style'], comments=d['comments'])
    return out


def needs_data(d, rd):
    """Whether any tile lies in the region read."""
    if 'region' not in rd['kw']:
        return True
    x0, x1, y0, y1 = rd['kw']['region']['t'] if isinstance(rd['kw']['region'], dict) else rd['kw']['region']
    x0, x1 = [x + d['nx'] if x < 0 else x for x in (x0, x1)]
    y0, y1 = [y + d['ny'] if y < 0 else y for y in (y0, y1)]
    return any(t not in d['blank'] and lo[0] <= x1 and hi[0] > x0 and lo[1] <= y1 and hi[1] > y0 for t, suf, lo, hi, idx, m2g in mdsgen.tiles(d))


def listing_after(log):
    """An outside action happened before the last directory was listed."""
    act = [k for k, e in enumerate(log.ents) if e[6] == 'action']
    lst = [k for k, e in enumerate(log.ents) if e[0] in ('opendir', 'readdir')]
    return bool(act and lst and act[0] <= lst[-1])


def same(got, want):
    want = np.asarray(want)
    return np.shape(got) == want.shape and codec.same_bits(np.asarray(got, 'f8'), np.asarray(want, 'f8'))


def run(case, ctx):
    d = case['set']
    fs, index = mdsgen.files(d)
    for k, st in enumerate(case['steps']):
        if any(x['what'] in ('stale', 'nrec') for x in st['damage']) and not needs_data(d, st['read']):
            continue
        place(ctx, case, st)
        before = ctx.snap()
        o = ctx.node('ops:run_op', rop(d, st), plan=st['faults'], dirseed=st['dirseed'], stdio_buf=st['stdio_buf'])
        nf = fired(o)
        if nf or st['damage'] or st['dirseed']:
            ctx.nontrivial = True
        kws = '+'.join(sorted(st['read']['kw']))
        dk = '+'.join(x['what'] for x in st['damage']) or 'intact'
        ctx.sig(d['layout'], kws, dk, *sorted(o.log.fired), o.kind, o.etype)
        b = bad_end(o)
        if b:
            return [b]
        if o.ok:
            ctx.count('accepted')
            got = o.value
            its = None
            if st['read']['kw'].get('returnmeta'):
                got, its, meta = got
            want, wits = mdsgen.expected(d, st['read'])
            okv = same(got, want)
            for x in st['damage']:
                if not okv and x.get('how') == 'narrow':
                    # (tiles that differ in shape need not be taken for an inconsistency)
                    okv = same(got, mdsgen.expected(d, st['read'], [(x['at'], x['it'], 1)])[0])
            if not okv and 'action' in o.log.fired and listing_after(o.log):
                f = [x for x in st['faults'] if x['kind'] == 'action'][0]
                victim = [x[:2] for x in index if x[2] + '.meta' == f['act'][1]]
                if victim:
                    okv = same(got, mdsgen.expected(d, st['read'], victim)[0])
            if not okv:
                how = 'damage %s' % st['damage'] if st['damage'] else 'faults %s %s' % (o.log.fired, st['faults'])
                return [vio('wrong-data', 'read %d of %s with %s returned something else than what is stored (shape %s, expected %s); %s; '
                            'directory order %d' % (k, mdsgen.fname(d), st['read'], np.shape(got), want.shape, how, st['dirseed']))]
            if its is not None and [int(x) for x in its] != [int(x) for x in wits]:
                return [vio('wrong-iterations', 'read %d returned iterations %s, expected %s' % (k, its, wits))]
            if its is not None and 'action' not in o.log.fired and list(meta.get('nrecords', [])) != [d['nrec']]:
                return [vio('wrong-meta', 'read %d returned nrecords %s' % (k, meta.get('nrecords')))]
        else:
            ctx.count('refused')
            if not nf and not st['damage']:
                return [vio('spurious-error', 'read %d of an intact set %s with %s failed: %s' % (k, mdsgen.fname(d), st['read'], o.brief()))]
        if 'action' not in o.log.fired and ctx.snap() != before:
            return [vio('input-changed', 'read %d changed the disk: %s' % (k, diff(before, ctx.snap())))]
    return []


def diff(a, b):
    return ['%s: %s -> %s bytes' % (n, None if a.get(n) is None else len(a[n]), None if b.get(n) is None else len(b[n]))
            for n in sorted(set(a) | set(b)) if a.get(n) != b.get(n)]
