"""Helpers shared by the range checks."""

import numpy as np


def runs(rows):
    """Maximal consecutive runs of a row list, in the order returned."""
    out = []
    for r in rows:
        r = int(r)
        if out and out[-1][1] == r:
            out[-1][1] = r + 1
        else:
            out.append([r, r + 1])
    return out


class RemoteStandIn:
    """A dataset offering the hdfstream interface (request_slices) over an array."""

    def __init__(self, arr):
        self.arr = arr
        self.shape = arr.shape
        self.ndim = arr.ndim
        self.dtype = arr.dtype
        self.chunks = None
        self.requested = []

    def request_slices(self, slices, dest=None):
        sl = []
        for s in slices:
            first = s[0] if isinstance(s, tuple) else s
            sl.append([int(first.start), int(first.stop)])
        self.requested += sl
        parts = [self.arr[s] for s in slices]
        res = np.concatenate(parts, axis=0).astype(self.dtype)
        if dest is None:
            return res
        if dest.dtype != res.dtype or dest.shape != res.shape:
            raise ValueError("dtype or shape mismatch")
        dest[...] = res

    def __getitem__(self, key):
        return self.arr[key]
