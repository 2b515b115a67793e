"""Reference models: boring, exact-as-possible re-statements of the documented arithmetic."""
import numpy as np
from fractions import Fraction

LD = np.longdouble


def drange(name):
    """Range of a dtype named as in the documentation (int<b> / uint<b>)."""
    n = name.lower()
    if n.startswith("np."):
        n = n[3:]
    if n.startswith("uint"):
        return 0, 2 ** int(n[4:]) - 1
    assert n.startswith("int"), name
    b = int(n[3:])
    return -(2 ** (b - 1)), 2 ** (b - 1) - 1


def mkdtype(name):
    return getattr(np, name[3:]) if name.startswith("np.") else name


def pow2(s):
    m, _ = np.frexp(float(s))
    return m == 0.5


def quantize_bounds(x, zp, s, lo, hi):
    """(least, greatest) acceptable code for every x: nearest to x/s+zp, halves up, saturated.  Where the real
    value is within float64 noise of a half-way point and the arithmetic is inexact, both neighbours are allowed."""
    x = np.asarray(x, dtype=np.float64)
    t = x.astype(LD) / LD(s) + LD(zp)
    # slack: float64 noise of the division and the sum
    tol = LD(2.0) ** -48 * (np.abs(x.astype(LD) / LD(s)) + abs(LD(zp)) + 1)
    tol = np.where(np.isfinite(tol), tol, LD(0))
    if pow2(s):
        # exact arithmetic unless the addition itself rounds
        d = x / float(s)
        exact = (d.astype(LD) + LD(zp)) == (d + float(zp)).astype(LD)
        tol = np.where(exact, LD(0), tol)
    with np.errstate(all="ignore"):
        a = np.floor(t - tol + LD(0.5))
        b = np.floor(t + tol + LD(0.5))
    a = np.clip(a, LD(lo), LD(hi)).astype(np.float64)
    b = np.clip(b, LD(lo), LD(hi)).astype(np.float64)
    return a, b


def check_quantized(ctx, got, x, zp, s, lo, hi, msg, **detail):
    g = np.asarray(got)
    x = np.asarray(x, dtype=np.float64)
    if g.shape != x.shape:
        ctx.check(False, f"{msg}: result shape {g.shape}, expected {x.shape}", **detail)
    if g.size == 0:
        return
    ctx.check(g.dtype.kind in "iu", f"{msg}: result is not an integer array ({g.dtype})", **detail)
    a, b = quantize_bounds(x, zp, s, lo, hi)
    gf = g.astype(np.float64)
    bad = ~((gf >= a) & (gf <= b))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.check(False, f"{msg}: x={x[i]!r} zp={zp} scale={s!r} -> {g[i]!r}, expected {a[i]:.0f}..{b[i]:.0f} "
                         f"({int(bad.sum())} of {g.size} wrong)", **detail)


def dequantize(q, zp, s):
    return ((np.asarray(q, dtype=np.int64) - int(zp)).astype(LD) * LD(s)).astype(np.float64)


def relerr(a, b):
    return np.abs(np.asarray(a, float) - np.asarray(b, float))


def code_points(lo, hi, full_limit=1100):
    """All codes for narrow dtypes; the boundary-rich subset for wide ones."""
    if hi - lo + 1 <= full_limit:
        return list(range(lo, hi + 1))
    pts = set()
    for c in (lo, hi, 0, (lo + hi) // 2, lo // 2, hi // 2):
        for d in range(-9, 10):
            pts.add(c + d)
    for k in range(0, hi.bit_length() + 1):
        for d in (-1, 0, 1):
            pts.add(2 ** k + d); pts.add(-(2 ** k) + d)
    return sorted(p for p in pts if lo <= p <= hi)
