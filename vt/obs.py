"""Observation helpers: arrays of the library to plain data."""

import numpy as np


def attrs_of(x):
    """Everything besides the values that identifies a cosmo_array."""
    cf = getattr(x, "cosmo_factor", None)
    return dict(
        type=type(x).__name__,
        units=str(getattr(x, "units", "")),
        dims=str(getattr(getattr(x, "units", None), "dimensions", "")),
        a=None if cf is None else str(cf.scale_factor),
        expr=None if cf is None else str(cf.expr),
        comoving=getattr(x, "comoving", None),
        valid_transform=getattr(x, "valid_transform", None),
        compression=getattr(x, "compression", None),
        dtype=str(np.asarray(x).dtype.newbyteorder("=")) if hasattr(x, "dtype") else None,
        shape=list(np.shape(x)),
    )


def values(x):
    """Plain numpy copy of the stored values."""
    return np.array(np.asarray(x).view(np.ndarray), copy=True)


def snapshot(x):
    """A hashable picture of an argument (values and attributes), for mutation checks."""
    if isinstance(x, np.ndarray):
        return ("array", attrs_of(x), values(x).tobytes() if x.dtype != object else repr(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(y) for y in x])
    if isinstance(x, dict):
        return ("dict", {k: snapshot(v) for k, v in x.items()})
    return (type(x).__name__, repr(x))
