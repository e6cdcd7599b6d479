"""Projections from implementation values to the integers the specifications speak about."""
import math
import numpy as np
BIG = 1000000000


def fx(x, s):
    """fixed point: round(s*x); non finite or too large -> BIG"""
    try: x = float(x)
    except (TypeError, ValueError): return BIG
    if not math.isfinite(x): return BIG
    v = x * s
    return BIG if abs(v) >= BIG else int(round(v))


def fxa(a, s):
    a = np.asarray(a)
    if a.ndim == 0: return fx(a, s)
    return [fxa(x, s) for x in a]


def fxc(a, s):
    """complex array -> nested lists of [re, im]"""
    a = np.asarray(a)
    if a.ndim == 0: return [fx(a.real, s), fx(a.imag, s)]
    return [fxc(x, s) for x in a]


def exact(a, s=1):
    """array known to hold integers/s: nested list of ints, BIG where the value is not such a number"""
    a = np.asarray(a)
    if a.ndim: return [exact(x, s) for x in a]
    x = a.item()
    if isinstance(x, complex):
        if x.imag != 0: return BIG
        x = x.real
    v = x * s
    return int(v) if math.isfinite(v) and v == int(v) and abs(v) < BIG else BIG


def finite(a):
    a = np.asarray(a)
    return bool(np.isfinite(a).all())


def rel9(a, b):
    """largest difference of two arrays relative to the largest magnitude, in units of 1e-9 (ceil); BIG when they
    cannot be compared"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return BIG
    if a.size == 0: return 0
    if not (np.isfinite(a).all() and np.isfinite(b).all()): return BIG
    m = max(np.abs(a).max(), np.abs(b).max())
    if m == 0: return 0
    v = np.abs(a - b).max() / m * 1e9
    return BIG if v >= BIG else int(math.ceil(v))
