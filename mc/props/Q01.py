import itertools
import numpy as np
from kit import Property, Scenario
from itcl_quantization import Quantization
import ref, robust

DT = ["int2", "int3", "int4", "int5", "int6", "int7", "int8", "uint1", "uint2", "uint4", "uint7", "uint8", "INT8", "UInt8", "np.int8", "np.uint8",
      "int9", "int12", "int16", "uint12", "uint16", "np.int16", "np.uint16", "int24", "int32", "np.int32", "uint24", "uint32",
      "np.uint32"]
SC = [1.0, 0.5, 2.0 ** -7, 2.0 ** -20, 4.0, 0.1, 1 / 255, 3.7, 0.0078431, 1e-6, 12345.678]
FR = [0.0, 0.25, 0.49, 0.4999999, 0.5 - 1e-9, 0.5 - 1e-11, 0.5, 0.5 + 1e-11, 0.5 + 1e-9, 0.5000001, 0.51, 0.75, 1 - 1e-7, 1 - 1e-11]


def zps(lo, hi, tier):
    if hi - lo <= 15 or (tier == "thorough" and hi - lo <= 255):
        return list(range(lo, hi + 1))
    mid = (lo + hi) // 2
    return sorted({lo, lo + 1, mid - 1, mid, mid + 1, hi - 1, hi, 0, min(hi, 3), max(lo, -3), min(hi, 77)})


def values(lo, hi, zp, s):
    c = np.array(ref.code_points(lo, hi), dtype=np.float64)
    beyond = np.array([lo - 1, lo - 2, lo - 3, hi + 1, hi + 2, hi + 3, 2 * lo - 7, 2 * hi + 7, lo - 2.0 ** 33, hi + 2.0 ** 33, lo - 2.0 ** 40, hi + 2.0 ** 40], dtype=np.float64)
    c = np.concatenate([c, beyond])
    k = (c[:, None] - zp + np.array(FR)[None, :]).ravel()
    k = np.concatenate([k, -k])
    x = k * s
    return np.concatenate([x, [0.0, -0.0, 1e300, -1e300, np.inf, -np.inf, 5e-324, 1e-30, -1e-30]])


def grid_cases(tier):
    for d in DT:
        for s in SC:
            yield {"dtype": d, "scale": s}


def grid(case, ctx):
    """Every (zero point, value) of the alphabet, one array call each."""
    q = Quantization(ref.mkdtype(case["dtype"]))
    lo, hi = ref.drange(case["dtype"])
    ctx.check(q.min_value() == lo and q.max_value() == hi, "advertised code range", got=[q.min_value(), q.max_value()], want=[lo, hi])
    s = case["scale"]
    for zp in zps(lo, hi, ctx.tier):
        x = values(lo, hi, zp, s)
        keep = x.copy()
        got = q.quantize(x, zp, s)
        ctx.op(x.size)
        ref.check_quantized(ctx, got, x, zp, s, lo, hi, "quantize")
        ctx.check(np.array_equal(x, keep), "quantize modified its input")
        order = np.argsort(x, kind="stable")
        ctx.check(bool(np.all(np.diff(np.asarray(got)[order].astype(np.int64)) >= 0)), "quantize is not monotone", zp=zp)
        ctx.state((zp, np.asarray(got).astype(np.int64)))
        ctx.trace()


FORMS = ["list", "nested", "tuple", "f64", "f32", "f16", "i64", "i32", "2d", "3d", "4d", "5d", "fortran", "strided", "reversed", "zero-d", "empty", "empty2d",
         "one", "pyfloat", "row", "col", "n17", "n256", "n257", "n1000", "n4097"]


def make_form(form, lo, hi, s, zp):
    base = (np.arange(24) * 0.37 * (hi - lo) / 24 + lo - zp - 1.3) * s
    d = {
        "list": lambda: base.tolist(), "nested": lambda: base.reshape(4, 6).tolist(), "tuple": lambda: tuple(base.tolist()),
        "f64": lambda: base, "f32": lambda: base.astype(np.float32), "f16": lambda: np.clip(base, -6e4, 6e4).astype(np.float16),
        "i64": lambda: np.rint(np.clip(base, -2e9, 2e9)).astype(np.int64), "i32": lambda: np.rint(np.clip(base, -2e9, 2e9)).astype(np.int32),
        "2d": lambda: base.reshape(6, 4), "3d": lambda: base.reshape(2, 3, 4), "fortran": lambda: np.asfortranarray(base.reshape(4, 6)),
        "strided": lambda: base.reshape(4, 6)[::2, 1::2], "reversed": lambda: base[::-1], "zero-d": lambda: np.array(base[7]),
        "empty": lambda: np.array([], dtype=float), "empty2d": lambda: np.zeros((0, 3)), "one": lambda: base[:1], "pyfloat": lambda: float(base[5]),
        "4d": lambda: base.reshape(2, 3, 2, 2), "5d": lambda: base.reshape(1, 2, 3, 1, 4), "row": lambda: base.reshape(1, 24), "col": lambda: base.reshape(24, 1),
    }
    if form in d:
        return d[form]()
    n = int(form[1:])
    return (np.arange(n) * 1.618 % (1.4 * (hi - lo) + 3) + lo - 2 - zp) * s


def form_cases(tier):
    for d in ["int4", "int8", "uint8", "int16", "np.int8", "np.uint16", "int32", "uint32"]:
        for f in FORMS:
            yield {"dtype": d, "form": f}


def forms(case, ctx):
    """Containers, shapes, memory layouts and number types of the data and of the parameters."""
    lo, hi = ref.drange(case["dtype"])
    q = Quantization(ref.mkdtype(case["dtype"]))
    for s, zp in itertools.product([0.25, 0.3, np.float32(0.1), np.float64(1.7), 2, np.int64(3)], sorted({lo, 0, (lo + hi) // 2, hi})):
        for zt in (int, np.int64, np.float64):
            x = make_form(case["form"], lo, hi, float(s), zp)
            keep = np.array(x, copy=True)
            got = q.quantize(x, zt(zp), s)
            ctx.op()
            ref.check_quantized(ctx, got, keep, zp, float(s), lo, hi, f"quantize {case['form']}")
            ctx.check(np.array_equal(np.array(x), keep), "quantize modified its input")
            ctx.state((zp, float(s), np.asarray(got).astype(np.int64)))
    ctx.trace()


def hist_cases(tier):
    for d in ["int8", "uint8", "int4", "np.int16", "uint32"]:
        for first in range(9):
            yield {"dtype": d, "first": first}


def history(case, ctx):
    """Every sequence of 3 (thorough: 4) operations over two live objects: no call may influence a later one."""
    lo, hi = ref.drange(case["dtype"])
    A = (np.linspace(lo - 3, hi + 3, 11)) * 0.3
    B = np.linspace(-9, 9, 12).reshape(3, 4)
    pol = (np.arange(11) % 2)
    other = "int6"

    def ops(q1, q2, d):
        return [
            (lambda: q1.quantize(A, 0, 0.3), ("q", A, 0, 0.3)),
            (lambda: q1.quantize(A, hi, 0.3), ("q", A, hi, 0.3)),
            (lambda: q1.quantize(A, 0, 0.7), ("q", A, 0, 0.7)),
            (lambda: q1.quantize(B, 0, 0.3), ("q", B, 0, 0.3)),
            (lambda: q1.quantize(A, 0, 0.3, rounding_policy=pol), ("p", A, 0, 0.3)),
            (lambda: q1.dequantize([0, 1, hi], 1, 0.3), ("d", [0, 1, hi], 1, 0.3)),
            (lambda: q2.quantize(A, 0, 0.3), ("o", A, 0, 0.3)),
            (lambda: q1.create_LUT(lambda v: v * 0.5, 0.3, 0, 0.2, 1) if hi - lo <= 255 else q1.round(A), ("l",)),
            (lambda: q1.round(A), ("r", A)),
        ]
    depth = 4 if ctx.thorough else 3
    base = None
    for seq in itertools.product(range(9), repeat=depth - 1):
        seq = (case["first"],) + seq
        q1, q2 = Quantization(ref.mkdtype(case["dtype"])), Quantization(other)
        table = ops(q1, q2, None)
        for k in seq:
            fn, m = table[k]
            got = fn()
            ctx.op()
            if m[0] == "q":
                ref.check_quantized(ctx, got, m[1], m[2], m[3], lo, hi, "quantize in history", seq=seq)
            elif m[0] == "o":
                ref.check_quantized(ctx, got, m[1], m[2], m[3], *ref.drange(other), "second object in history", seq=seq)
            elif m[0] == "d":
                ctx.close(got, ref.dequantize(m[1], m[2], m[3]), 1e-6 * (hi + 1) * 1e-6, "dequantize in history", seq=seq)
            elif m[0] == "r":
                ref.check_quantized(ctx, got, m[1], 0, 1.0, lo, hi, "round in history", seq=seq)
            elif m[0] == "p":
                want = np.clip(np.floor(A / 0.3 + pol), lo, hi)
                ctx.check(bool(np.all(np.abs(np.asarray(got, float) - want) <= 1)), "policy quantization in history", seq=seq)
            ctx.state((k, np.asarray(got).astype(np.float64)))
        ctx.trace()
    ctx.check(np.array_equal(pol, np.arange(11) % 2), "the rounding policy was modified")


UV = [("int8", 0, 0.3), ("int8", 5, 0.3), ("int8", 0, 0.31), ("uint8", 5, 0.3), ("INT8", 0, 0.3), ("np.int8", 0, 0.3), ("int4", 0, 0.3), ("int16", 0, 0.3), ("int32", 0, 0.3), ("uint32", 0, 0.3)]


def usage_cases(tier):
    return [{"what": w} for w in ("pairs", "buffers", "shared")] + [{"what": "sizes", "part": k} for k in range(6)]


def usage(case, ctx):
    """Ordered pairs of quantizers, refilled buffers in every carrier, one object used with alternating parameters, every length up to
    300 and the large ones up to 2^17, in every carrier and rank."""
    V = []
    for d, z, s in UV:
        lo, hi = ref.drange(d)
        V.append((f"{d}/{z}/{s}", lambda d=d: Quantization(ref.mkdtype(d)), lambda ctx, y, x, m, z=z, s=s, lo=lo, hi=hi: ref.check_quantized(ctx, y, np.asarray(x), z, s, lo, hi, m)))
    X = [np.array([[-40.0, 0.15, 3.3], [1e9, -0.45, 0.75]]), np.array([[0.1, 77.7, -9.3], [0.3, -1e9, 0.45]]), np.array([[0.0, 1.0, 2.0], [-1.0, -2.0, 1e3]])]
    if case["what"] == "pairs":
        for (i, a), (j, b) in itertools.permutations(list(enumerate(UV)), 2):
            A = V[i][1](); ra = A.quantize(X[0], a[1], a[2])
            B = V[j][1](); rb = B.quantize(X[0], b[1], b[2])
            for x in X:
                V[i][2](ctx, A.quantize(x, a[1], a[2]), x, "next to another quantizer"); V[j][2](ctx, B.quantize(x, b[1], b[2]), x, "next to another quantizer"); ctx.op(2)
            V[i][2](ctx, ra, X[0], "earlier result"); V[j][2](ctx, rb, X[0], "earlier result")
            ctx.trace(); ctx.state((a, b))
    elif case["what"] == "buffers":
        for (d, z, s), (l, mk, jd) in zip(UV, V):
            for c in (np.float64, np.float32, np.int64, np.int32):
                robust.buffers(ctx, [(l, mk, jd)], [np.rint(x).astype(c) if np.dtype(c).kind == "i" else x.astype(c) for x in X], infer=lambda q, x, z=z, s=s: q.quantize(x, z, s))
            for seq in itertools.product(range(3), repeat=3):       # a list refilled in place
                q, buf = mk(), [0.0] * 6
                for i in seq:
                    buf[:] = X[i].ravel().tolist()
                    jd(ctx, q.quantize(buf, z, s), X[i].ravel(), f"list refilled in place {seq}"); ctx.op()
                    ctx.check(buf == X[i].ravel().tolist(), "the list was modified")
    elif case["what"] == "shared":      # one object, every ordered triple of parameter sets on the same array object
        for d in ("int8", "uint8", "int16"):
            lo, hi = ref.drange(d)
            P = [(z, s) for z in sorted({max(lo, 0), 5, hi}) for s in (0.3, 0.31, 2)]
            for seq in itertools.product(P, repeat=3):
                q = Quantization(d)
                for z, s in seq:
                    ref.check_quantized(ctx, q.quantize(X[0], z, s), X[0], z, s, lo, hi, f"same array, parameters {seq}"); ctx.op()
            ctx.trace(); ctx.state(d)
    else:
        ns = robust.sizes("thorough") + [99999, 100000, 100001, 131071, 131072, 131073]
        for n in [v for i, v in enumerate(ns) if i % 6 == case["part"]]:
            base = (np.arange(n) * 0.7310585) % 300.0 - 150
            base[-1] = 0.5 - 1e-9; base[0] = 63.5 - 1e-6
            for d, z in (("int8", 3), ("int16", 0), ("uint8", 128)):
                q = Quantization(d); lo, hi = ref.drange(d)
                for x in (base, base.astype(np.float32), base.reshape(1, n), base.reshape(n, 1)) + ((base.reshape(2, -1), base.reshape(-1, 2)) if n % 2 == 0 else ()):
                    ref.check_quantized(ctx, q.quantize(x, z, 1.0), x, z, 1.0, lo, hi, f"{n} values, shape {x.shape}")
                    ctx.op(n)
                i = np.rint(base).astype(np.int64)
                ref.check_quantized(ctx, q.quantize(i, z, 0.25), i, z, 0.25, lo, hi, f"{n} integers")
            ctx.state(n)
        ctx.trace()


def tie_cases(tier):
    return [{"dtype": d, "scale": s} for d in ("int4", "int8", "uint8", "np.int8", "int16", "uint16", "int32") for s in (3, 5, 7, 10, 49, 41, 100, 1000, 0.75, 1.25, 3.5, 12.375, 98.0)]


def ties(case, ctx):
    """Values exactly half way between two codes under a scale that is not a power of two: the quotient is exact, so the
    upper code is the only answer; the neighbouring doubles go where the real quotient lies."""
    lo, hi = ref.drange(case["dtype"])
    q, s = Quantization(ref.mkdtype(case["dtype"])), case["scale"]
    n = min(hi - lo, 600)
    for zp in sorted({lo, 0, (lo + hi) // 2, hi, min(hi, 3)}):
        k = np.concatenate([np.arange(lo - 2, lo + n + 2), np.arange(hi - n - 2, hi + 2)]) - zp
        k = k[np.abs(k) < 2 ** 36]
        x = (k + 0.5) * s
        for shape in ((-1,), (-1, 1, 2)):
            v = x[:x.size // 2 * 2].reshape(shape)
            want = np.clip(k[:x.size // 2 * 2] + 1 + zp, lo, hi).reshape(shape)
            ctx.equal(np.asarray(q.quantize(v, zp, s)).astype(np.int64), want.astype(np.int64), "an exact tie goes up", scale=s, zp=zp, dtype=case["dtype"])
            ctx.op(v.size)
        ctx.equal(np.asarray(q.quantize((k + 0.0) * s, zp, s)).astype(np.int64), np.clip(k + zp, lo, hi).astype(np.int64), "an exact multiple of the scale", scale=s, zp=zp)
        ctx.state((zp, want)); ctx.trace()


PROP = Property("Q01", [
    Scenario("ties", tie_cases, ties, "all exact half-way values under scales that are no power of two"),
    Scenario("grid", grid_cases, grid, "dtype x scale x zero point x value alphabet"),
    Scenario("forms", form_cases, forms, "containers, layouts, sizes, parameter number types"),
    Scenario("usage", usage_cases, usage, "ordered pairs of quantizers, refilled buffers, alternating parameters, every length"),
    Scenario("history", hist_cases, history, "all operation sequences over two live quantizers"),
], "model_checking", "a state is the vector of codes the implementation returned for one (dtype, scale, zero point, data) configuration or one "
   "step of an operation sequence; a transition is one value quantized / one call; a trace is one configuration or sequence replayed against the reference",
   ["NaN data and dtypes wider than 32 bits are outside the alphabet", "values within 2^-48 relative of a half-way point may round either way unless the scale is a power of two"])
