"""Independent encoders and decoders of the on-disk formats (written from the
format descriptions, not from simplegrid's code)."""
import re
import struct

import numpy as np

# name, extra row, extra column
FIELDS = [('XC', 0, 0), ('YC', 0, 0), ('DXF', 0, 0), ('DYF', 0, 0), ('RAC', 0, 0),
          ('XG', 1, 1), ('YG', 1, 1), ('DXV', 1, 1), ('DYU', 1, 1), ('RAZ', 1, 1),
          ('DXC', 1, 0), ('DYC', 0, 1), ('RAW', 1, 0), ('RAS', 0, 1), ('DXG', 0, 1), ('DYG', 1, 0)]
NAMES = [f[0] for f in FIELDS]
DEL = {f[0]: (f[1], f[2]) for f in FIELDS}


def shape_of(name, ni, nj):
    di, dj = DEL[name]
    return (ni + di, nj + dj)


def encode_grid(grid, ni, nj, pad=0.0):
    out = []
    for name, di, dj in FIELDS:
        a = [[pad] * (nj + 1) for _ in range(ni + 1)]
        g = grid[name]
        for i in range(ni + di):
            for j in range(nj + dj):
                a[i][j] = float('nan') if g is None else float(g[i][j])
        for j in range(nj + 1):
            for i in range(ni + 1):
                out.append(a[i][j])
    return struct.pack('>%dd' % len(out), *out)


def decode_grid(data, ni, nj):
    n = (ni + 1) * (nj + 1)
    if len(data) != 16 * n * 8:
        raise ValueError('size %d, expected %d' % (len(data), 16 * n * 8))
    grid, padding = {}, {}
    for k, (name, di, dj) in enumerate(FIELDS):
        v = np.frombuffer(data, '>f8', n, k * n * 8).astype('f8').reshape((nj + 1, ni + 1)).T
        grid[name] = v[:ni + di, :nj + dj].copy()
        pad = np.concatenate([v[ni + di:, :].ravel(), v[:ni + di, nj + dj:].ravel()])
        padding[name] = pad
    return grid, padding


def bits(a):
    return np.ascontiguousarray(np.asarray(a, 'f8')).view('u8')


def same_bits(a, b):
    """Equal as numbers, NaN equal to NaN (payload and sign of NaN are not data)."""
    a, b = np.asarray(a, 'f8'), np.asarray(b, 'f8')
    return a.shape == b.shape and bool(np.all((bits(a) == bits(b)) | (np.isnan(a) & np.isnan(b))))


def same_grid(g, h):
    for name in NAMES:
        a, b = g.get(name), h.get(name)
        if a is None or b is None:
            if (a is None) != (b is None):
                return name
        elif not same_bits(a, b):
            return name
    return None


# --------------------------------------------------------------------------
# MDS meta/data files

def encode_meta(gdims, lo, hi, dataprec, nrecords, timestep=None, timeinterval=None, fields=None,
                simulation=None, map2glob=None, key='dataprec', comments=False):
    """gdims, lo, hi: fastest dimension first; lo is 1-based, hi inclusive."""
    s = ''
    if comments:
        s += ' // written by the simulator\n'
    if simulation is not None:
        s += " simulation = { '%s' };\n" % simulation
    s += ' nDims = [ %3d ];\n' % len(gdims)
    s += ' dimList = [\n'
    s += ',\n'.join(' %5d,%5d,%5d' % (g, a, b) for g, a, b in zip(gdims, lo, hi))
    s += '\n ];\n'
    if map2glob is not None:
        s += ' map2glob = [ %d, %d ];\n' % tuple(map2glob)
    s += " %s = [ '%s' ];\n" % (key, dataprec)
    s += ' nrecords = [ %5d ];\n' % nrecords
    if timestep is not None:
        s += ' timeStepNumber = [ %10d ];\n' % timestep
    if timeinterval is not None:
        s += ' timeInterval = [' + ''.join('%20.12E' % t for t in timeinterval) + ' ];\n'
    if fields is not None:
        s += ' nFlds = [ %4d ];\n fldList = {\n' % len(fields)
        for i in range(0, len(fields), 20):
            s += ''.join(" '%-8s'" % f for f in fields[i:i + 20]) + '\n'
        s += ' };\n'
    return s.encode()


def decode_meta(data):
    """A small, strict reader of the meta files simplegrid writes."""
    text = data.decode()
    out = {}
    for key, val in re.findall(r'(\w+)\s*=\s*\[(.*?)\]\s*;', text, re.S):
        out[key] = [x.strip().strip("'") for x in re.split(r'[,\s]+', val.strip().strip(',')) if x.strip()]
    for key, val in re.findall(r'(\w+)\s*=\s*\{(.*?)\}\s*;', text, re.S):
        out[key] = [x.rstrip() for x in re.findall(r"'(.*?)'", val, re.S)]
    return out
