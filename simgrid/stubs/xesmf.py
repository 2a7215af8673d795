"""Stands in for xesmf (not installed here): the part of its interface that
getobcs uses.  Weights are a fixed function of the two sets of coordinates; they
are kept in the file named by the caller and, as in xesmf, taken from there
unseen when the file exists and reuse_weights is set.  A file that is not
complete is refused, as the NetCDF library does."""
import hashlib
import os
import struct

import numpy as np

MAGIC = b'SIMWGT1\n'


def xyz(lon, lat):
    lon, lat = np.radians(np.asarray(lon, float)).ravel(), np.radians(np.asarray(lat, float)).ravel()
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def weights(lon_in, lat_in, lon_out, lat_out):
    """(n_out, n_in): normalised decaying function of the distance."""
    a, b = xyz(lon_in, lat_in), xyz(lon_out, lat_out)
    d = np.sum((b[:, None, :] - a[None, :, :]) ** 2, -1)
    w = np.exp(-d / (4 * np.maximum(d.min(), 1e-9) + 1e-4))
    return w / w.sum(1)[:, None]


class Regridder:
    def __init__(self, ds_in, ds_out, method, periodic=False, filename=None, reuse_weights=False, **kw):
        if method != 'bilinear':
            raise ValueError('stub knows bilinear only')
        lon_in, lat_in = np.asarray(ds_in['lon']), np.asarray(ds_in['lat'])
        lon_out, lat_out = np.asarray(ds_out['lon']), np.asarray(ds_out['lat'])
        if lon_in.shape != lat_in.shape or lon_out.shape != lat_out.shape or lon_in.ndim != 2 or lon_out.ndim != 2:
            raise ValueError('lon and lat must be matrices of equal size')
        self.shape_in, self.shape_out = lon_in.shape, lon_out.shape
        self.filename = filename or '%s_%dx%d_%dx%d.nc' % ((method,) + self.shape_in + self.shape_out)
        if not (reuse_weights and os.path.exists(self.filename)):
            self.write(weights(lon_in, lat_in, lon_out, lat_out))
        self.A = self.read()

    def write(self, w):
        body = struct.pack('<qq', *w.shape) + w.astype('<f8').tobytes()
        body = MAGIC + hashlib.sha1(body).digest() + body
        try:
            with open(self.filename, 'wb') as f:
                f.write(body)
        except BaseException:
            # (a failure, unlike a death, leaves nothing incomplete behind)
            try:
                os.remove(self.filename)
            except OSError:
                pass
            raise

    def read(self):
        with open(self.filename, 'rb') as f:
            data = f.read()
        body = data[28:]
        if data[:8] != MAGIC or hashlib.sha1(body).digest() != data[8:28]:
            raise OSError('NetCDF: unknown file format: %s' % self.filename)
        m, n = struct.unpack('<qq', body[:16])
        if m != self.shape_out[0] * self.shape_out[1] or n != self.shape_in[0] * self.shape_in[1]:
            raise ValueError('weights do not fit the grids')
        return np.frombuffer(body, '<f8', m * n, 16).reshape(m, n)

    def __call__(self, indata, **kw):
        indata = np.asarray(indata)
        if indata.shape[-2:] != self.shape_in:
            raise ValueError('The horizontal shape of input data is %s, different from that of the regridder %s!'
                             % (indata.shape[-2:], self.shape_in))
        flat = indata.reshape(indata.shape[:-2] + (-1,)).astype('f8')
        out = np.array([(self.A * v).sum(1) for v in flat.reshape(-1, flat.shape[-1])])
        return out.reshape(indata.shape[:-2] + self.shape_out)
