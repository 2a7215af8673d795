"""C06: importing a grid from MITgcm output never turns unreadable data into absent data."""
import numpy as np

from .. import codec, core, mdsgen, ops, sched
from .common import *

CASES = {'quick': 640, 'thorough': 30000}
RULE = ('a run directory holds a seeded subset of the 16 grid fields as MDS sets (global or tiled, both precisions, blank tiles) '
        'and is imported 2-4 times under read faults, damage at rest, removal by another process, interrupts at any line or '
        'bytecode, or failing allocations; non-trivial: something of these happened or fields are absent')
ASSUMPTIONS = ASSUME + ['a field without metadata files is absent and a tile without metadata is blank, also when they were removed '
                        'before the directory was listed']
ALIKE = {'run[1]': 'run1', 'r?n': 'ran'}
SIG = 'kind of trouble x where x verdict'


def gen(rng, ctx, tier, i):
    case = {'rundir': rng.choice(['run', '.', 'a/b', 'run.d', 'run', '.', 'a/b', 'run[1]', 'r?n']), 'slash': rng.random() < 0.3, 'fields': [], 'steps': []}
    proto = mdsgen.gen_set(rng, threed=False, its=[], wild=False, special=False, nrec=1, packed=False, base='X')
    present = [n for n in codec.NAMES if rng.random() < rng.choice([0.3, 0.8, 1.0])]
    for n in present:
        d = dict(proto, base=n, seed=rng.randint(0, 10**9))
        d['endian'] = 'b'
        if rng.random() < 0.1:
            d['layout'] = 'global' if d['px'] * d['py'] == 1 else d['layout']
        if rng.random() < 0.2:
            d['prec'] = rng.choice(['float32', 'float64'])
        case['fields'].append(d)
    # sets of other quantities, named alike, beside fields that are present or absent
    case['beside'] = []
    for n in rng.sample(codec.NAMES, rng.choice([0, 1, 3])):
        d = dict(proto, base=n, seed=rng.randint(0, 10**9), endian='b')
        case['beside'].append([d, mdsgen.neighbours(rng, d)])
    for k in range(rng.randint(2, 4)):
        st = {'faults': [], 'damage': [], 'inject': [], 'opcodes': False, 'alloc': [], 'verbose': rng.random() < 0.15,
              'dirseed': rng.choice([0, rng.randint(1, 10**6)]), 'stdio_buf': bufs(rng)}
        r = rng.random()
        fs = build(case)
        names = sorted(x for x in fs if x.endswith(('.meta', '.data')))
        if not names or r < 0.08:
            pass
        elif r < 0.25:
            n = rng.choice(names)
            st['damage'] = [{'file': n, 'what': rng.choice(['cut', 'cut', 'remove', 'garbage'] if n.endswith('.meta') else
                                                           ['cut', 'cut', 'remove', 'long']), 'at': rng.randrange(max(1, len(fs[n])))}]
        else:
            core.restore(ctx.root, fs)
            o = ctx.node('ops:run_traced', iop(case, st), [], rng.random() < 0.1, True, dirseed=st['dirseed'], stdio_buf=st['stdio_buf'],
                         alloc=[-1, 0, 0], probe=True)
            ol = oplist(o.log)
            if r < 0.5:
                st['faults'] = gen_faults(rng, ol)
            elif not ol:
                pass
            elif r < 0.62:
                a = rng.choice(ol)
                st['faults'] = [{'on': a[0], 'nth': a[1], 'kind': 'action', 'act': ['unlink', rng.choice(names), '']}]
            elif r < 0.7:
                a = rng.choice(ol)
                st['faults'] = [{'on': a[0], 'nth': a[1], 'kind': 'sigint'}]
            elif r < 0.85 and o.ok:
                st['opcodes'] = rng.random() < 0.3
                n = o.value[1] * (8 if st['opcodes'] else 1)
                st['inject'] = [[rng.randrange(max(1, n)) if st['opcodes'] else sched.pick_event(rng, o.value[3], n), rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])]]
            else:
                m = rng.choice([0, 0, 512, -1, -1])
                st['alloc'] = [rng.randrange(max(1, o.log.nalloc if not m else 60 if m > 0 else 150)), rng.choice([0, 0, 3, 50]), m]
        case['steps'].append(st)
    return case


def iop(case, st):
    return {'op': 'mds2mitgrid', 'rundir': case['rundir'] + ('/' if case['slash'] else ''), 'verbose': st['verbose']}


def build(case):
    out = {case['rundir'] + '/' if case['rundir'] != '.' else 'x/': None}
    name = lambda n: '%s/%s' % (case['rundir'], n) if case['rundir'] != '.' else n
    for d in case['fields']:
        for n, b in mdsgen.files(d)[0].items():
            out[name(n)] = b
    if case['rundir'] in ALIKE:
        # a directory that its name, taken for a pattern, means
        for n in [n for n in out if n.endswith(('.meta', '.data'))]:
            out[n.replace(case['rundir'], ALIKE[case['rundir']])] = bytes(x ^ 1 for x in out[n]) if n.endswith('.data') else out[n]
    for d, beside in case.get('beside', ()):
        fs = mdsgen.files(d)[0]
        for new, old in beside:
            out.setdefault(name(new), fs[old])
    return out


def place(ctx, case, st):
    fs = build(case)
    for dm in st['damage']:
        n = dm['file']
        if n not in fs:
            continue
        if dm['what'] == 'cut':
            fs[n] = fs[n][:dm['at']]
        elif dm['what'] == 'remove':
            del fs[n]
        elif dm['what'] == 'long':
            fs[n] += bytes(16)
        elif dm['what'] == 'garbage':
            fs[n] = fs[n].replace(b'=', b':')
    core.restore(ctx.root, fs)
    return fs


def expected(d, fs, case, skip=()):
    """The imported field given the metadata files that exist (None: absent)."""
    pre = '' if case['rundir'] == '.' else case['rundir'] + '/'
    a = mdsgen.full(d)[0, 0]
    flat = a.reshape(-1).copy()
    have = np.zeros(flat.shape, bool)
    any_ = False
    for t, suf, lo, hi, idx, m2g in mdsgen.tiles(d):
        n = pre + mdsgen.name_of(d, t, suf, None) + '.meta'
        if n in fs and n not in skip:
            have[idx.ravel()] = True
            any_ = True
    if not any_:
        return None
    flat[~have] = 0
    v = flat.reshape(a.shape).T
    di, dj = codec.DEL[d['base']]
    out = np.zeros((v.shape[0] + di, v.shape[1] + dj))
    out[:v.shape[0], :v.shape[1]] = v
    return out


def run(case, ctx):
    for k, st in enumerate(case['steps']):
        fs = place(ctx, case, st)
        before = ctx.snap()
        traced = bool(st['inject'])
        if traced:
            o = ctx.node('ops:run_traced', iop(case, st), st['inject'], st['opcodes'], plan=st['faults'], dirseed=st['dirseed'],
                         stdio_buf=st['stdio_buf'])
            if o.kind == 'raise' and o.msg == 'injected' or o.ok and o.value[2]:
                ctx.count('fault:' + st['inject'][0][1])
                ctx.nontrivial = True
        else:
            o = ctx.node('ops:run_op', iop(case, st), plan=st['faults'], dirseed=st['dirseed'], stdio_buf=st['stdio_buf'],
                         alloc=st['alloc'] or None)
        nf = fired(o)
        if nf or st['damage'] or len(case['fields']) < 16:
            ctx.nontrivial = True
        ctx.sig(*sorted(o.log.fired), '+'.join(x['what'] + x['file'][-5:] for x in st['damage']), '+'.join(x[1] for x in st['inject']),
                o.kind, o.etype, o.where)
        b = bad_end(o, allow=('died',) if st['alloc'] else ())
        if b:
            return [b]
        trouble = 'faults %s, damage %s, injected %s' % (o.log.fired, st['damage'], st['inject'])
        if o.ok:
            ctx.count('accepted')
            grid, ni, nj = o.value[0] if traced else o.value
            if sorted(grid) != sorted(codec.NAMES):
                return [vio('wrong-import', 'import %d returned the fields %s' % (k, sorted(grid)))]
            fields = {d['base']: d for d in case['fields']}
            # metadata another process removed before they were seen
            skip = [f['act'][1] for f in st['faults'] if f['kind'] == 'action' and f['act'][1].endswith('.meta')
                    and not any(e[0] == 'open' and e[1] == f['act'][1] for e in o.log.ents)] if 'action' in o.log.fired else []
            first = None
            for n in codec.NAMES:
                want = expected(fields[n], fs, case, skip) if n in fields else None
                got = grid[n]
                if want is None and got is None:
                    continue
                if want is None or got is None:
                    cls = 'present-as-absent' if got is None else 'absent-as-present'
                    return [vio(cls, 'import %d: field %s is %s; %s' % (k, n, 'marked absent though its files are there' if got is None
                                                                       else 'there though it has no files', trouble))]
                if first is None:
                    first = fields[n]
                if not codec.same_bits(got, want):
                    return [vio('wrong-import', 'import %d: field %s differs from the stored data (shape %s, expected %s); %s'
                                % (k, n, np.shape(got), want.shape, trouble))]
            wn = (first['nx'], first['ny']) if first else (0, 0)
            if (ni, nj) != wn:
                return [vio('wrong-import', 'import %d returned %s cells, expected %s' % (k, (ni, nj), wn))]
        else:
            ctx.count('refused')
            if not nf and not st['damage'] and not st['inject']:
                return [vio('spurious-error', 'import %d failed without a fault: %s' % (k, o.brief()))]
        if 'action' not in o.log.fired and ctx.snap() != before:
            return [vio('input-changed', 'import %d changed the disk' % k)]
    return []
