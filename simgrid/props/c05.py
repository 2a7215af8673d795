"""C05: an MDS write that reports success is complete; a torn one is never misread."""
import os

import numpy as np

from .. import codec, core, ops
from .common import *

CASES = {'quick': 3400, 'thorough': 45000}
RULE = ('a run is 1-3 writers of one MDS set, each a process that is killed, failed or interrupted at a seeded point or left '
        'alone, over previous contents of both files, each followed by a reader process; non-trivial: a crash or fault fired '
        'or a previous set existed')
ASSUMPTIONS = ASSUME + ['a killed process leaves exactly what it had handed to the system, in order',
                        'sets written to one name share the byte order, which MDS metadata do not record',
                        'metadata entries that describe no data (times, names) may be missing after a torn write']
SIG = 'writer ending x state of both files x reader verdict'


def gen_array(rng):
    nd = rng.choice([2, 2, 3, 3, 4, 4, 5, 1])
    sh = [rng.randint(1, 4) for _ in range(nd)]
    if rng.random() < 0.12:
        sh[-1] = rng.choice([600, 1100, 2600, 2600, 9000])
    return {'seed': rng.randint(0, 10**9), 'shape': sh, 'flat': rng.choice([0, 0, 1]) if rng.random() < 0.05 else None, 'dtype': rng.choice(['f8', 'f8', 'f8', 'f4', 'f4', 'i4', 'i4', 'i2', 'u1', 'i8', '?']),
            'order': rng.choice(['C', 'C', 'C', 'F', 'rev', 'be', 'step', 'ro']), 'special': rng.random() < 0.25}


def gen_writer(rng, endian):
    a = gen_array(rng)
    kw, sh = {}, a['shape']
    kw['dataprec'] = rng.choice(['float32', 'float64', 'float64', ['float64']])
    if rng.random() < 0.2:
        del kw['dataprec']
    if endian != 'b' or rng.random() < 0.3:
        kw['machineformat'] = rng.choice({'b': ['b', 'b', '>', 'ieee-be'], 'l': ['l', 'l', '<', 'ieee-le']}[endian])
    r = rng.random()
    if r < 0.3 and len(sh) > 1:
        kw['ndims'] = rng.randint(min(2, len(sh)), min(4, len(sh)))
    elif r < 0.6 and len(sh) > 2:
        k = rng.randint(1, len(sh) - 2)
        kw['nrecords'] = int(np.prod(sh[:k]))
    if rng.random() < 0.4:
        kw['times'] = rng.choice([3600.0, [0.0, 86400.0], [-1.5e-3, 2.25e10], 12, 1234567.125, [2635200.25, 315619200.5]])
    if rng.random() < 0.3:
        kw['fields'] = [rng.choice(['F', 'F', 'F', 'SALT_mean', 'UVELMASS']) + '%d' % i for i in range(rng.choice([1, 3, 20, 21, 45]))]
    if rng.random() < 0.3:
        kw['simulation'] = rng.choice(['run 1', ['x']])
    st = {'arr': a, 'kw': kw, 'faults': [], 'stdio_buf': bufs(rng)}
    if rng.random() < 0.25:
        # the iteration number from the times, the times from it, or both given
        kw['deltat'] = rng.choice([600.0, 600.0, 0.5, 3600, 7.0, 86400.125])
        st['tmode'] = rng.choice(['times', 'times', 'itr', 'itr', 'both'])
        st['part'] = rng.choice([0.0, 0.25, 0.5])
        st['t0'] = rng.choice([None, 0.0, -86400.0, 1e3])
    return st


def gen(rng, ctx, tier, i):
    endian = rng.choice(['b', 'b', 'l'])
    case = {'base': rng.choice(['W', 'run/W', 'a.b']), 'itr': rng.choice([[], [], [0], [72]]), 'endian': endian, 'prev': [], 'steps': []}
    if rng.random() < 0.6:
        p = gen_writer(rng, endian)
        while len(p['arr']['shape']) < 2:
            p = gen_writer(rng, endian)
        case['prev'] = [p]
    case['junk'] = rng.choice(['', '', '', 'longdata', 'data', 'meta', 'dirdata'])
    setup(ctx, case)
    for k in range(rng.choice([1, 1, 2, 3])):
        st = gen_writer(rng, endian)
        if case['prev'] and rng.random() < 0.4:
            # same shape: only the contents tell old from new
            st = dict(case['prev'][0], arr=dict(case['prev'][0]['arr'], seed=rng.randint(0, 10**9)), faults=[])
            sh = list(st['arr']['shape'])
            if len(set(sh)) > 1 and rng.random() < 0.5:
                # as many values in another order of dimensions: the sizes of the files do not tell them apart
                old = list(sh)
                while sh == old:
                    rng.shuffle(sh)
                st['arr']['shape'] = sh
                st['kw'] = {k: v for k, v in st['kw'].items() if k not in ('ndims', 'nrecords')}
        o = ctx.node('ops:run_op', wop(case, st), stdio_buf=st['stdio_buf'], probe=True)
        ol = oplist(o.log)
        if ol and rng.random() < 0.85:
            r = rng.random()
            if r < 0.5:
                st['faults'] = [gen_crash(rng, ol)]
                if rng.random() < 0.4:
                    st['faults'] += gen_faults(rng, ol, most=1)
            elif r < 0.6:
                t = rng.choice(ol)
                st['faults'] = [{'on': t[0], 'nth': t[1], 'kind': 'sigint'}]
            else:
                st['faults'] = gen_faults(rng, ol)
        case['steps'].append(st)
    return case


def wop(case, st):
    kw = dict(st['kw'])
    dt, mode = kw.get('deltat'), st.get('tmode')
    if not case['itr']:
        kw.pop('deltat', None)
    elif dt is not None and mode == 'times':
        t = (case['itr'][0] + st['part']) * dt
        kw['times'] = t if st['t0'] is None else [st['t0'], t]
    elif dt is not None and mode == 'both':
        kw['itr'] = case['itr'][0]
        kw.setdefault('times', 3600.0)
    else:
        kw['itr'] = case['itr'][0]
        if dt is not None:
            kw.pop('times', None)
    return {'op': 'wrmds', 'fbase': case['base'], 'arr': st['arr'], 'kw': kw}


def fbase(case):
    return case['base'] + ('.%010d' % case['itr'][0] if case['itr'] else '')


def setup(ctx, case):
    os.makedirs(os.path.dirname(ctx.p(case['base'])) or ctx.root, exist_ok=True)
    n = fbase(case)
    for st in case['prev']:
        m, dt, _, _ = describe(case, st)
        ctx.put(n + '.meta', m)
        ctx.put(n + '.data', dt)
    j = case.get('junk')
    if j == 'longdata':
        ctx.put(n + '.data', (ctx.get(n + '.data') or b'') + b'\x41' * 9000)
    elif j == 'data' and not case['prev']:
        ctx.put(n + '.data', b'\x41' * 64)
    elif j == 'meta' and not case['prev']:
        ctx.put(n + '.meta', b' nDims = [   2 ];\n')
    elif j == 'dirdata' and not case['prev']:
        os.makedirs(ctx.p(n + '.data'))


def describe(case, st):
    """(meta bytes as MITgcm writes it, data bytes, array a reader gets, description)"""
    op = wop(case, st)
    kw = {k: (v[0] if isinstance(v, list) and k in ('dataprec', 'simulation') else v) for k, v in op['kw'].items()}
    a = ops.array_of(st['arr'])
    prec = kw.get('dataprec', 'float32')
    sh = list(a.shape)
    if 'ndims' in kw:
        nd = kw['ndims']
    elif 'nrecords' in kw:
        n, nd = 1, len(sh)
        while n < kw['nrecords']:
            n *= sh[len(sh) - nd]
            nd -= 1
    else:
        nd = min(3, len(sh))
    dims = sh[len(sh) - nd:][::-1]
    nrec = 1
    for x in sh[:len(sh) - nd]:
        nrec *= x
    tp = {'b': '>', 'l': '<', 'i': '<' if kw.get('machineformat') == 'ieee-le' else '>'}.get(kw.get('machineformat', 'b')[0], kw.get('machineformat')) + {'float32': 'f4', 'float64': 'f8'}[prec]
    with np.errstate(over='ignore'):
        v = np.ascontiguousarray(a).astype(tp)
    want = v.astype('f8').reshape(([nrec] if nrec > 1 else []) + dims[::-1])
    t = kw.get('times')
    if t is not None and not isinstance(t, list):
        t = [t]
    if t is None and 'deltat' in kw:
        t = [kw['deltat'] * kw['itr']]
    itr = case['itr'][0] if case['itr'] else None
    info = {'nDims': nd, 'dims': dims, 'dataprec': prec, 'nrecords': nrec, 'timeStepNumber': itr, 'timeInterval': t,
            'fldList': kw.get('fields'), 'simulation': kw.get('simulation')}
    meta = codec.encode_meta(dims, [1] * nd, dims, prec, nrec, timestep=itr, timeinterval=t, fields=kw.get('fields'),
                             simulation=kw.get('simulation'))
    return meta, v.tobytes(), want, info


def check_files(case, st, meta, data):
    _, wd, want, info = describe(case, st)
    if data is None or meta is None:
        return 'no %s file' % ('data' if data is None else 'meta')
    if data != wd:
        return 'data file has %d bytes, expected %d%s' % (len(data), len(wd), '' if len(data) != len(wd) else ' (contents differ)')
    try:
        m = codec.decode_meta(meta)
        dl = [int(x) for x in m['dimList']]
        got = {'nDims': int(m['nDims'][0]), 'dims': dl[0::3], 'dataprec': m['dataprec'][0], 'nrecords': int(m['nrecords'][0]),
               'timeStepNumber': int(m['timeStepNumber'][0]) if 'timeStepNumber' in m else None,
               'timeInterval': [float(x) for x in m['timeInterval']] if 'timeInterval' in m else None,
               'fldList': m.get('fldList'), 'simulation': m['simulation'][0] if 'simulation' in m else None}
        if dl[1::3] != [1] * info['nDims'] or dl[2::3] != info['dims']:
            return 'dimList is %s' % dl
        if info['fldList'] is not None and int(m['nFlds'][0]) != len(info['fldList']):
            return 'nFlds is %s' % m['nFlds']
    except (KeyError, ValueError, IndexError, UnicodeDecodeError) as e:
        return 'meta file cannot be read: %r' % e
    t, u = got.pop('timeInterval'), info.pop('timeInterval')
    if got != info:
        return 'meta file says %s, expected %s' % (got, info)
    if (t is None) != (u is None) or t is not None and (len(t) != len(u) or any(abs(x - y) > 1e-11 * abs(y) for x, y in zip(t, u))):
        return 'timeInterval is %s, expected %s' % (t, u)
    return None


def run(case, ctx):
    setup(ctx, case)
    n = fbase(case)
    complete = []
    if case['prev']:
        ctx.nontrivial = True
        if case['junk'] != 'longdata':
            complete.append(describe(case, case['prev'][0])[2])
    for k, st in enumerate(case['steps']):
        new = describe(case, st)[2]
        o = ctx.node('ops:run_op', wop(case, st), plan=st['faults'], stdio_buf=st['stdio_buf'])
        nf = fired(o)
        if nf:
            ctx.nontrivial = True
        b = bad_end(o)
        if b:
            return [b]
        dirdata = case['junk'] == 'dirdata' and not case['prev']
        meta, data = ctx.get(n + '.meta'), None if dirdata else ctx.get(n + '.data')
        if o.ok:
            ctx.count('writes_reported_ok')
            w = check_files(case, st, meta, data)
            if w:
                return [vio('silent-loss' if nf else 'wrong-file', 'write %d of %s reported success but %s; faults %s' % (k, n, w, o.log.fired))]
        else:
            ctx.count('writes_reported_error')
            if not nf and not dirdata:
                return [vio('spurious-error', 'write %d of %s (%s) failed without a fault: %s' % (k, n, st['kw'], o.brief()))]
        # somebody reads what is there now
        complete.append(new)
        rop = {'op': 'rdmds', 'fname': case['base'], 'pos': case['itr'], 'kw': {'machineformat': case['endian']}}
        q = ctx.node('ops:run_op', rop)
        ctx.sig(o.kind, o.etype, meta is None, data is None, *sorted(o.log.fired), q.kind, q.etype)
        b = bad_end(q)
        if b:
            return [b]
        if q.ok:
            ctx.count('reader_accepted')
            if not any(np.shape(q.value) == c.shape and codec.same_bits(q.value, c) for c in (complete if not o.ok else [new])):
                return [vio('torn-misread', 'after write %d of %s ended with %s, a reader got an array of shape %s that was never written '
                            '(meta %s bytes, data %s bytes)' % (k, n, o.brief(), np.shape(q.value),
                                                               None if meta is None else len(meta), None if data is None else len(data)))]
        else:
            ctx.count('reader_refused')
            if o.ok and len(st['arr']['shape']) > 1 and describe(case, st)[3]['nDims'] > 1:
                return [vio('unreadable', 'write %d of %s succeeded but cannot be read: %s' % (k, n, q.brief()))]
    return []
