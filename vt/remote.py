"""Stand-in for a remote (hdfstream) file: an h5py file seen through the remote interface.

Groups and datasets behave like hdfstream's (no h5py types, datasets offer request_slices,
slices must be ascending, disjoint and non-empty as the real service demands).
"""

import h5py
import numpy as np


class RemoteDataset:
    def __init__(self, ds):
        self._ds = ds
        self.attrs = dict(ds.attrs)
        self.shape, self.dtype, self.ndim = ds.shape, ds.dtype, ds.ndim
        self.chunks = None
        self.name = ds.name

    def __getitem__(self, key):
        return self._ds[...][key]

    def __len__(self):
        return self.shape[0]

    def request_slices(self, slices, dest=None):
        last = -1
        parts = []
        for s in slices:
            first = s[0] if isinstance(s, tuple) else s
            if first.start < last or first.stop <= first.start:
                raise ValueError("slices must be ascending, disjoint and non-empty")
            last = first.stop
            parts.append(self._ds[...][s])
        res = np.concatenate(parts, axis=0).astype(self.dtype)
        if dest is None:
            return res
        if dest.dtype != res.dtype or dest.shape != res.shape:
            raise ValueError("destination dtype/shape mismatch")
        dest[...] = res


class RemoteGroup:
    def __init__(self, g):
        self._g = g
        self.attrs = dict(g.attrs)
        self.name = g.name

    def __getitem__(self, key):
        o = self._g[key]
        return RemoteDataset(o) if isinstance(o, h5py.Dataset) else RemoteGroup(o)

    def __contains__(self, key):
        return key in self._g

    def keys(self):
        return list(self._g.keys())

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def get(self, key, default=None, getlink=False):
        if getlink:
            return self._g.get(key, getlink=True)
        return self[key] if key in self._g else default


class RemoteFile(RemoteGroup):
    def __init__(self, path):
        self._f = h5py.File(path, "r")
        super().__init__(self._f)
        self.filename = str(path)

    def close(self):
        pass

    def shut(self):
        self._f.close()
