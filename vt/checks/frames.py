"""Helpers shared by the checks of cosmology arrays."""
import math

import numpy as np
import unyt

SCALE = 4096
BAD = -77777777


def token(x, tol=1e-4):
    """Nearest number with a mantissa of five bits, as an integer; BAD if none is near."""
    x = float(x)
    if x == 0:
        return 0
    if not math.isfinite(x):
        return BAD
    m, q = math.frexp(x)
    r = round(m * 32)
    if abs(m * 32 - r) > 32 * tol or abs(x) > 2**17:
        return BAD
    t = r * 2.0 ** (q - 5) * SCALE
    return int(t) if t == int(t) else BAD


def exponent(x):
    """Four times the scale-factor exponent of an array (None without cosmo_factor)."""
    cf = x.cosmo_factor
    if cf is None or cf.expr is None:
        return None
    if cf.expr == 1:
        return 0
    b, e = cf.expr.as_base_exp()
    e = 4 * float(e)
    return round(e) if abs(e - round(e)) < 1e-6 else 999


def frame(x):
    return {True: "c", False: "p", None: "n"}[x.comoving]


def physical(x, unit=None):
    """Plain array of the physical values of x, in `unit` (or its own)."""
    v = np.array(np.asarray(x).view(np.ndarray), dtype=float)
    if unit is not None:
        v = v * x.units.get_conversion_factor(unit, v.dtype)[0]
    if x.comoving:
        v = v * float(x.cosmo_factor.scale_factor) ** (exponent(x) / 4)
    return v
