"""exact half-precision arithmetic on non-negative finite operands, truncating"""
import numpy as np


def unpack(x):
    """-> (mantissa, exponent) with value = mantissa * 2**(exponent - 25), exponent >= 1"""
    x = x.astype(np.int64)
    e = (x >> 10) & 31
    m = x & 1023
    return np.where(e == 0, m, m | 1024), np.where(e == 0, 1, e)


def bitlen(v):
    r = np.zeros_like(v)
    v = v.copy()
    while (v > 0).any():
        r += v > 0
        v >>= 1
    return r


def pack_trunc(m, e):
    """value m * 2**(e - 25) (m < 2**40, any e) rounded toward zero to a half; -1 when >= 65536"""
    n = bitlen(m)
    # normalise so that the mantissa has 11 bits
    sh = n - 11
    ee = e + sh
    # gradual underflow: exponent field of at least 1
    under = ee < 1
    sh = np.where(under, 1 - e, sh)
    ee = np.where(under, 1, ee)
    mm = np.where(sh >= 0, m >> np.clip(sh, 0, 62), m << np.clip(-sh, 0, 62))
    r = np.where(mm < 1024, mm, (ee << 10) | (mm & 1023))
    r = np.where((ee > 30) & (mm >= 1024), -1, r)
    return np.where(m == 0, 0, r)


def mul(a, b):
    ma, ea = unpack(a)
    mb, eb = unpack(b)
    return pack_trunc(ma*mb, ea + eb - 25)


def add(a, b):
    ma, ea = unpack(a)
    mb, eb = unpack(b)
    e = np.minimum(ea, eb)
    return pack_trunc((ma << (ea - e)) + (mb << (eb - e)), e)
