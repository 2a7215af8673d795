"""Shared by the properties: generation of disks, grids and faults."""
import math

from .. import codec, core, ops

REAL = ['simplegrid (all modules, unmodified source of the working tree)', 'numpy', 'pyproj/PROJ', 'CPython',
        'C library stdio']
STUB = ['kernel file system calls: served by a scratch directory through the simulated disk (simio.c), which decides faults, '
        'partial transfers, directory order and death of the process']
COMPONENTS = {'real': REAL, 'stub': STUB}
ASSUME = ['a simulated process starts from a freshly imported package',
          'the simulated disk interposes libc; the statically linked or raw system calls of other libraries are not intercepted (none occur here)']

ERRS = {
    'open': ['EACCES', 'EMFILE', 'EIO', 'ENOSPC', 'EROFS', 'EINTR', 'ENOMEM'],
    'write': ['EIO', 'ENOSPC', 'EDQUOT', 'EINTR', 'EFBIG'],
    'close': ['EIO', 'ENOSPC', 'EDQUOT'],
    'read': ['EIO', 'EINTR', 'ESTALE'],
    'stat': ['EIO', 'EACCES'], 'opendir': ['EIO', 'EACCES', 'EMFILE'], 'readdir': ['EIO'],
    'mmap': ['ENOMEM', 'EACCES'], 'trunc': ['EIO'], 'dup': ['EMFILE'], 'rename': ['EIO', 'EACCES', 'ENOSPC'],
    'unlink': ['EACCES'], 'mkdir': ['EACCES', 'ENOSPC'], 'fsync': ['EIO'], 'other': ['EIO'],
}


def oplist(log):
    """[(type, nth among its type, length, writable)]"""
    c, out = {}, []
    for t, path, off, ln, res, err, fault, flags in log.ents:
        n = c.get(t, 0)
        c[t] = n + 1
        out.append((t, n, ln, flags, path))
    return out


def gen_fault(rng, olist, kinds=None, only=None):
    """One fault aimed at an operation that occurs without faults.  Mostly at
    the operation itself, since later ones may not happen after the first."""
    L = [x for x in olist if only is None or x[0] in only]
    if not L:
        return None
    # choose the type first so that rare kinds of operation get their share
    types = sorted({x[0] for x in L})
    t = rng.choices(types, [{'write': 6, 'close': 3, 'read': 6}.get(x, 1) for x in types])[0]
    L = [x for x in L if x[0] == t]
    t, nth, ln, flags, path = rng.choice(L) if rng.random() < 0.7 else rng.choice([L[0], L[-1]])
    menu = []
    if t == 'write':
        menu = ['err', 'short', 'nospc', 'sticky', 'nospc', 'lose_next']
    elif t == 'close':
        menu = ['err', 'lose'] if flags else []
    elif t == 'read':
        menu = ['err', 'short', 'short', 'sticky']
    elif t in ERRS:
        menu = ['err']
    if kinds is not None:
        menu = [m for m in menu if m in kinds]
    if not menu:
        return None
    k = rng.choice(menu)
    f = {'on': t, 'nth': nth}
    if k == 'lose_next':
        f['on'], f['nth'], k = 'close', rng.choice([0, 1]), 'lose'
    f['kind'] = k
    if k in ('err', 'sticky'):
        f['errno'] = rng.choice([e for e in ERRS[t] if k == 'err' or e != 'EINTR'])
    elif k == 'lose':
        f['errno'] = rng.choice(ERRS['close'])
        f['n'] = rng.choice([1, 8, rng.randint(1, 4096)])
    elif k == 'short':
        f['n'] = rng.choice([1, max(1, ln - 1), rng.randint(1, max(1, ln)), 7, 8, 512])
    elif k == 'nospc':
        f['n'] = rng.choice([0, rng.randint(0, max(1, ln)), max(0, ln - 1), 4096])
    return f


def gen_crash(rng, olist):
    """Death at an operation, or inside a write."""
    w = [x for x in olist if x[0] == 'write']
    if w and rng.random() < 0.7:
        t, nth, ln, _, _ = rng.choice(w)
        return {'on': 'write', 'nth': nth, 'kind': 'crash', 'n': rng.choice([0, ln, rng.randint(0, max(0, ln)), rng.randint(0, max(0, ln // 8)) * 8])}
    t, nth, _, _, _ = rng.choice(olist)
    return {'on': t, 'nth': nth, 'kind': 'crash', 'n': 0}


def gen_faults(rng, olist, most=2, kinds=None, only=None):
    out = []
    for _ in range(rng.randint(1, most)):
        f = gen_fault(rng, olist, kinds, only)
        if f and not any((f['on'], f['nth']) == (g['on'], g['nth']) for g in out):
            out.append(f)
            if f['kind'] == 'short' and rng.random() < 0.25 and (kinds is None or 'err' in kinds):
                # part of the data, then an error where the rest goes on: transient trouble in the middle of a transfer
                g = {'on': f['on'], 'nth': f['nth'] + 1, 'kind': 'err', 'errno': rng.choice(ERRS[f['on']])}
                if not any((g['on'], g['nth']) == (h['on'], h['nth']) for h in out):
                    out.append(g)
    return out


def dims(rng, big=0.15, top=12):
    """Cell counts, with the shapes that matter for transposition and buffers."""
    r = rng.random()
    if big and r > 0.985:
        return rng.choice([(130, 70), (70, 130), (90, 97), (129, 64), (1, 8300), (8300, 1), (370, 360)])
    if r < 0.12:
        return 1, rng.randint(1, top)
    if r < 0.24:
        return rng.randint(1, top), 1
    if r < 0.34:
        n = rng.randint(1, top)
        return n, n
    if r < 0.34 + big:
        return rng.choice([(15, 31), (31, 15), (22, 22), (24, 20), (40, 33), (63, 7), (7, 63), (20, 24)])
    return rng.randint(1, top), rng.randint(1, top)


def rand_grid(rng, ni, nj, nones=True):
    g = {'kind': 'rand', 'seed': rng.randint(0, 10**9), 'ni': ni, 'nj': nj}
    if rng.random() < 0.5:
        g['special'] = True
    if rng.random() < 0.5:
        g['layout'] = rng.choice(['F', 'rev', 'strided', 'be'])
    if rng.random() < 0.08:
        g['flat'] = {n: rng.choice([0.0, 0.0, -0.0, 1.0, float('nan')]) for n in rng.sample(codec.NAMES, rng.choice([1, 3, 16]))}
    if nones and rng.random() < 0.4:
        g['none'] = rng.sample(codec.NAMES, rng.randint(1, 15))
    return g


def bufs(rng, cells=0):
    return 65536 if cells > 50000 else rng.choice([4096, 4096, 4096, 512, 64, 128, 1024, 65536])


def vio(cls, msg, key=None):
    return {'cls': cls, 'msg': msg, 'key': key or cls}


def bad_end(o, allow=()):
    """Endings that are never right, whatever the disk did."""
    if o.kind == 'stuck':
        return vio('no-progress', 'the operation did not end: %s' % o.msg)
    if o.kind == 'died' and 'died' not in allow:
        return vio('died', 'the process died: %s' % o.msg)
    return None


def check_grid_file(data, g, ni, nj):
    """None or what is wrong with the bytes of a grid file."""
    want = 16 * (ni + 1) * (nj + 1) * 8
    if data is None:
        return 'no file'
    if len(data) != want:
        return '%d bytes instead of %d' % (len(data), want)
    got, pad = codec.decode_grid(data, ni, nj)
    for name in codec.NAMES:
        w = g[name]
        if w is None:
            if not bool((got[name] != got[name]).all()):
                return 'absent field %s is not all NaN' % name
        elif not codec.same_bits(got[name], w):
            return 'field %s differs' % name
        if bool((codec.bits(pad[name]) != 0).any()):
            return 'padding of %s is not zero' % name
    return None


def fired(o):
    return sum(o.log.fired.values())
