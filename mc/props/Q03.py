import itertools
import numpy as np
from kit import Property, Scenario
from itcl_quantization import Quantization
import ref, robust

DT = ["int4", "int8", "uint8", "np.int8", "int16", "uint16", "int32"]


def cases(tier):
    for d in DT:
        for s in (1.0, 0.25, 0.1, 1 / 127, 3.3):
            yield {"dtype": d, "scale": s}


def allowed(x, zp, s, lo, hi, pol):
    t = np.asarray(x, float).astype(ref.LD) / ref.LD(s)
    tol = ref.LD(2.0) ** -46 * (np.abs(t) + abs(zp) + 1)
    if ref.pow2(s):
        d = np.asarray(x, float) / float(s)
        tol = np.where((d.astype(ref.LD) + ref.LD(zp)) == (d + float(zp)).astype(ref.LD), ref.LD(0), tol)
    a = np.clip(np.floor(t - tol) + zp + pol, lo, hi).astype(float)
    b = np.clip(np.floor(t + tol) + zp + pol, lo, hi).astype(float)
    return a, b


def ck(ctx, got, x, zp, s, lo, hi, pol, msg, **d):
    g = np.asarray(got, float)
    a, b = allowed(x, zp, s, lo, hi, pol)
    ctx.check(g.shape == a.shape, f"{msg}: shape {g.shape} vs {a.shape}", **d)
    bad = ~((g >= a) & (g <= b))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.check(False, f"{msg}: x={np.asarray(x)[i]!r} zp={zp} s={s} policy={np.asarray(pol)[i]} -> {g[i]}, expected {a[i]}..{b[i]}", **d)


def policies(case, ctx):
    """All 2^n binary policies of arrays with up to 6 elements (1-D, 2-D, 3-D), every value position class."""
    lo, hi = ref.drange(case["dtype"])
    q = Quantization(ref.mkdtype(case["dtype"]))
    s = case["scale"]
    zlist = sorted({lo, -1 if lo < 0 else 1, 0, (lo + hi) // 2, hi})
    for zp in zlist:
        c = np.array([lo - zp - 2.3, lo - zp + 0.1, -0.75, 0.0, 0.5, 0.25, 1.0, hi - zp - 0.4, hi - zp + 3.6, 17.125, -3.5, 2.999])
        for k, sh in ((6, (6,)), (6, (2, 3)), (6, (3, 2)), (4, (1, 2, 2)), (1, (1,)), (5, (5, 1))):
            for start in range(0, len(c), k):
                x = np.resize(c[start:start + k], k).reshape(sh) * s
                for bits in itertools.product((0, 1), repeat=k):
                    pol = np.array(bits).reshape(sh)
                    kp, kx = pol.copy(), x.copy()
                    got = q.quantize(x, zp, s, rounding_policy=pol)
                    ctx.op()
                    ck(ctx, got, x, zp, s, lo, hi, pol, "policy quantization", dtype=case["dtype"])
                    ctx.check(np.array_equal(kp, pol) and np.array_equal(kx, x), "quantize modified its arguments")
                    ctx.state((zp, s, np.asarray(got).astype(np.int64)))
                ctx.trace()
        # large arrays, alternating patterns
        for n, period in ((64, 2), (300, 3), (1000, 7)):
            x = (np.arange(n) * 0.7310585 - n * 0.36) * s
            pol = (np.arange(n) % period == 0).astype(int)
            got = q.quantize(x, zp, s, rounding_policy=pol)
            ctx.op(); ck(ctx, got, x, zp, s, lo, hi, pol, "policy quantization (long)", dtype=case["dtype"])
            got = q.quantize(x.tolist(), zp, s, rounding_policy=pol.astype(float))
            ctx.op(); ck(ctx, got, x, zp, s, lo, hi, pol, "policy quantization (list, float policy)", dtype=case["dtype"])


def nearest(case, ctx):
    """The policy 'up iff the fractional part is at least one half' is the default rounding; no policy, None and an
    ill-shaped policy are the default too; integers with policy 0 are exact."""
    lo, hi = ref.drange(case["dtype"])
    q = Quantization(ref.mkdtype(case["dtype"]))
    s = case["scale"]
    for zp in sorted({lo, 0, (lo + hi) // 2, hi, 3}):
        k = np.array([-7.75, -3.5, -2.25, -1.0, -0.5, -0.125, 0, 0.125, 0.5, 0.75, 1.0, 2.5, 6.375, 7.625]) + 0.0
        x = k * s
        frac = k - np.floor(k)
        amb = (np.abs(frac - 0.5) < 1e-9) & (not ref.pow2(s)) | ((np.abs(frac) < 1e-9) & (not ref.pow2(s)))
        pol = (frac >= 0.5).astype(int)
        base = np.asarray(q.quantize(x, zp, s))
        viapol = np.asarray(q.quantize(x, zp, s, rounding_policy=pol))
        ctx.op(2)
        ctx.equal(viapol[~amb], base[~amb], "nearest policy differs from the default rounding", zp=zp, scale=s)
        ctx.equal(q.quantize(x, zp, s, rounding_policy=None), base, "policy None", zp=zp)
        for bad in (np.ones(13), np.ones((14, 2)), np.ones((3, 5)), np.zeros(2)):
            ctx.equal(q.quantize(x, zp, s, rounding_policy=bad), base, "ill-shaped policy must fall back to nearest", zp=zp, bad=bad.shape)
            ctx.op()
        # as many elements as the tensor but another shape: not a policy for this tensor
        for shape, other in (((2, 7), (14,)), ((2, 7), (7, 2)), ((7, 2), (14,)), ((14,), (2, 7)), ((2, 7), (2, 1, 8))):
            for bit in (0, 1):
                pol = np.full(other, bit)
                try:
                    np.broadcast_shapes(shape, other)
                    continue
                except ValueError:
                    pass
                ctx.equal(q.quantize(x.reshape(shape), zp, s, rounding_policy=pol), base.reshape(shape), "a policy of another shape must fall back to nearest", zp=zp, shape=shape, policy=other)
                ctx.op()
        ctx.equal(q.quantize(x, zp, s), base, "default rounding after policy calls", zp=zp)
        ctx.state((zp, base)); ctx.trace()
        # every policy keeps the result within one step of the saturated real value
        for bits in itertools.product((0, 1), repeat=7):
            pol = np.array(bits * 2)
            got = np.asarray(q.quantize(x, zp, s, rounding_policy=pol), float)
            ctx.op()
            ctx.check(bool(np.all(np.abs(got - np.clip(k + zp, lo, hi)) <= 1 + 1e-9)), "more than one step away", zp=zp, scale=s, policy=pol)
            ctx.state((zp, got))


def lut(case, ctx):
    """Policies applied to generated tables."""
    lo, hi = ref.drange(case["dtype"])
    if hi - lo > 255:
        return
    q = Quantization(ref.mkdtype(case["dtype"]))
    n = hi - lo + 1
    codes = np.arange(lo, hi + 1)
    for in_zp, out_zp in itertools.product(sorted({lo, 0, hi}), sorted({lo, (lo + hi) // 2, hi})):
        for f in (np.tanh, lambda v: v * 0.5 - 0.1):
            y = np.array([float(f(v)) for v in ref.dequantize(codes, in_zp, 0.07)])
            for period in (1, 2, 3, 5):
                pol = (np.arange(n) % period == 0).astype(int)
                got = q.create_LUT(f, 0.07, in_zp, case["scale"] / 16, out_zp, rounding_policy=pol)
                ctx.op()
                ck(ctx, got, y, out_zp, case["scale"] / 16, lo, hi, pol, "LUT with policy", dtype=case["dtype"])
                ctx.state((in_zp, out_zp, np.array(got)))
        ctx.trace()


def usage_cases(tier):
    return [{"what": w} for w in ("extreme", "history", "containers")] + [{"what": "sizes", "part": k} for k in range(4)]


def usage(case, ctx):
    """Values of every magnitude under a policy, call sequences alternating policies, policy containers, every length."""
    if case["what"] == "extreme":
        mags = np.array([s * m for m in (1e3, 2.0 ** 31, 2.0 ** 32, 2.0 ** 62, 2.0 ** 63, 2.0 ** 64, 1e20, 1e100, 1e300, np.inf) for s in (1, -1)])
        for d in DT:
            lo, hi = ref.drange(d)
            for z in sorted({lo, 0, hi}):
                for bit in (0, 1):
                    got = np.asarray(Quantization(ref.mkdtype(d)).quantize(mags, z, 0.25, rounding_policy=np.full(len(mags), bit)), float)
                    want = np.clip(np.floor(mags / 0.25) + z + bit, lo, hi)
                    ctx.equal(got, want, "large values under a policy saturate", dtype=d, zp=z, bit=bit); ctx.op(len(mags)); ctx.state((d, z, bit))
        ctx.trace()
    elif case["what"] == "history":
        x = np.array([0.3, -0.7, 1.5, 100.2, -99.9, 0.0]) * 0.5
        menu = [None, np.zeros(6), np.ones(6), np.array([0, 1, 0, 1, 0, 1]), np.array([1, 0, 1, 0, 1, 0]), np.ones(5)]
        for d in ("int8", "uint8", "int16"):
            lo, hi = ref.drange(d)
            for seq in itertools.product(range(6), repeat=3):
                for shared in (False, True):        # the same policy array object refilled, or one object per call
                    q, buf = Quantization(d), np.zeros(6)
                    for k in seq:
                        p = menu[k]
                        if shared and p is not None and len(p) == 6:
                            buf[...] = p; p = buf
                        got = q.quantize(x, 3, 0.5, rounding_policy=p)
                        if p is None or len(p) == 5:
                            ref.check_quantized(ctx, got, x, 3, 0.5, lo, hi, f"nearest after policies {seq}")
                        else:
                            ck(ctx, got, x, 3, 0.5, lo, hi, menu[k], f"policies {seq}")
                        ctx.op(); ctx.state((d, k, np.asarray(got).astype(int)))
                ctx.trace()
    elif case["what"] == "containers":
        x = np.array([[0.3, -0.7, 1.5], [100.2, -99.9, 0.0]]) * 0.5
        pol = np.array([[0, 1, 1], [1, 0, 0]])
        for c in (np.int8, np.uint8, np.int32, np.int64, np.float32, np.float64, bool):
            for p in (pol.astype(c), np.asfortranarray(pol.astype(c)), pol.T.astype(c).copy().T, np.repeat(pol, 2, axis=0)[::2].astype(c)):
                for xx in (x, x.tolist(), x.astype(np.float32), np.asfortranarray(x)):
                    ck(ctx, Quantization("int8").quantize(xx, 3, 0.5, rounding_policy=p), np.asarray(xx), 3, 0.5, -128, 127, pol, f"policy of type {np.dtype(c)}"); ctx.op()
            ctx.state(str(np.dtype(c)))
        ctx.trace()
    else:
        ns = robust.sizes("thorough")
        for n in [v for i, v in enumerate(ns) if i % 4 == case["part"]]:
            x = ((np.arange(n) * 0.7310585) % 300.0 - 150)
            for k, pol in enumerate((np.arange(n) % 2, (np.arange(n) * 7 % 11 < 5).astype(int), (np.arange(n) == n - 1).astype(int))):
                for sh in ((n,), (1, n), (n, 1)) + (((2, n // 2),) if n % 2 == 0 else ()):
                    ck(ctx, Quantization("int16").quantize(x.reshape(sh), 3, 0.5, rounding_policy=pol.reshape(sh)), x.reshape(sh), 3, 0.5, -32768, 32767, pol.reshape(sh), f"{n} values under a policy"); ctx.op(n)
            ctx.state(n)
        ctx.trace()


PROP = Property("Q03", [
    Scenario("policies", cases, policies, "all binary policies of small arrays"),
    Scenario("nearest", cases, nearest, "nearest policy, fallbacks, one-step bound"),
    Scenario("usage", usage_cases, usage, "every magnitude, call sequences, policy containers, every length"),
    Scenario("lut", cases, lut, "tables generated with a policy"),
], "model_checking", "state: codes returned for one (zero point, scale, data, policy); transition: one call; trace: one data vector with all its policies",
   ["a data value within float noise of an integer number of steps may fall on either side unless the scale is a power of two"])
