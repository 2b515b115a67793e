import itertools
import numpy as np
from kit import Property, Scenario
from itcl_quantization import Quantization
import ref, robust

DT = ["int2", "int3", "int4", "int5", "int6", "int7", "int8", "uint1", "uint2", "uint4", "uint7", "uint8", "np.int8", "np.uint8",
      "int12", "int16", "uint12", "uint16", "np.int16", "np.uint16", "int24", "int32", "np.int32", "uint32", "np.uint32"]
SC = [1.0, 0.5, 2.0 ** -7, 2.0 ** -20, 8.0, 0.1, 1 / 255, 3.7, 0.0078431, 1e-6, 12345.678]


def zps(lo, hi, thorough):
    if hi - lo <= 15 or (thorough and hi - lo <= 255):
        return list(range(lo, hi + 1))
    mid = (lo + hi) // 2
    return sorted({lo, lo + 1, mid - 1, mid, mid + 1, hi - 1, hi, 0, min(hi, 5), max(lo, -5), min(hi, 100)})


def cases(tier):
    for d in DT:
        for s in SC:
            yield {"dtype": d, "scale": s}


def codes(case, ctx):
    """All codes (boundary subset beyond 11 bits) for every zero point: dequantize is the affine map, quantize inverts it."""
    lo, hi = ref.drange(case["dtype"])
    q = Quantization(ref.mkdtype(case["dtype"]))
    s = case["scale"]
    c = np.array(ref.code_points(lo, hi), dtype=np.int64)
    for zp in zps(lo, hi, ctx.thorough):
        want = ref.dequantize(c, zp, s)
        keep = c.copy()
        got = np.asarray(q.dequantize(c, zp, s))
        ctx.op(c.size)
        ctx.close(got, want, np.abs(want) * 2.0 ** -45 + 1e-300, "dequantize", dtype=case["dtype"], zp=zp, scale=s)
        ctx.check(np.array_equal(c, keep), "dequantize modified its input")
        ctx.close(q.dequantize([zp], zp, s), [0.0], 0.0, "zero point must dequantize to exactly zero", zp=zp, scale=s)
        back = q.quantize(got, zp, s)
        ctx.op(c.size)
        ctx.equal(np.asarray(back).astype(np.int64), c, "quantize(dequantize(code))", dtype=case["dtype"], zp=zp, scale=s)
        # in-range reals come back within half a step; quantization is idempotent
        r = (np.concatenate([c[:, None] + np.array([-0.5, -0.31, -0.1, 0.0, 0.2, 0.499, 0.5])[None, :]]).ravel() - zp) * s
        inside = (r >= (lo - zp) * s) & (r <= (hi - zp) * s)
        r = r[inside]
        qr = np.asarray(q.quantize(r, zp, s))
        rr = np.asarray(q.dequantize(qr, zp, s), float)
        ctx.op(2 * r.size)
        ctx.close(rr, r, s * (0.5 + 1e-6), "round trip error above half a step", dtype=case["dtype"], zp=zp, scale=s)
        ctx.equal(np.asarray(q.quantize(rr, zp, s)).astype(np.int64), qr.astype(np.int64), "quantization is not idempotent", zp=zp, scale=s)
        out = np.array([(lo - zp) * s - 3.3 * s, (hi - zp) * s + 3.3 * s, -1e30, 1e30])
        ctx.equal(np.asarray(q.quantize(out, zp, s)).astype(np.int64), np.array([lo, hi, lo, hi]), "out of range values saturate", zp=zp, scale=s)
        ctx.state((zp, got)); ctx.trace()


FORMS = {
    "list": lambda c: c.tolist(), "nested": lambda c: c.reshape(2, -1).tolist(), "i64": lambda c: c.astype(np.int64), "i32": lambda c: c.astype(np.int32),
    "i16": lambda c: c.astype(np.int16), "native": lambda c: c, "f64": lambda c: c.astype(np.float64), "2d": lambda c: c.reshape(-1, 2),
    "3d": lambda c: c.reshape(2, 1, -1), "4d": lambda c: c.reshape(2, 1, -1, 2), "5d": lambda c: c.reshape(1, 2, 2, 1, 2), "fortran": lambda c: np.asfortranarray(c.reshape(-1, 2)), "strided": lambda c: np.repeat(c, 2)[::2],
    "reversed": lambda c: c[::-1], "scalar": lambda c: int(c[-1]), "zero-d": lambda c: np.array(c[0]), "empty": lambda c: c[:0], "tuple": lambda c: tuple(c.tolist()),
    "long": lambda c: np.tile(c, 300),
}


def form_cases(tier):
    for d in ["int4", "int8", "uint8", "int16", "uint16", "int32"]:
        for f in FORMS:
            yield {"dtype": d, "form": f}


def forms(case, ctx):
    """Containers, integer carriers (including the native 8-bit ones), layouts; parameters as Python or numpy numbers."""
    lo, hi = ref.drange(case["dtype"])
    q = Quantization(case["dtype"])
    nat = {"int4": np.int8, "uint16": np.uint16, "int16": np.int16, "uint8": np.uint8, "int8": np.int8, "int32": np.int32}[case["dtype"]]
    c = np.array([lo, hi, lo + 1, hi - 1, 0, 1, (lo + hi) // 2, hi // 2], dtype=nat)
    if case["form"] == "i16":
        c = np.clip(c.astype(np.int64), -32768, 32767)
    for zp, s in itertools.product(sorted({lo, 0, 3, hi, (lo + hi) // 2}), [0.25, 0.013, np.float32(0.1), 2, np.float64(3.3)]):
        for zt in (int, np.int64, np.int32):
            x = FORMS[case["form"]](c)
            keep = np.array(x, copy=True)
            got = q.dequantize(x, zt(zp), s)
            want = ref.dequantize(keep, zp, float(s))
            ctx.op()
            ctx.close(got, want, np.abs(want) * 2.0 ** -45, f"dequantize {case['form']}", zp=zp, scale=float(s))
            ctx.check(np.array_equal(keep, np.array(x)), "dequantize modified its input")
            ctx.state((zp, float(s), np.asarray(got, float)))
    ctx.trace()


def hist_cases(tier):
    for d in ["int8", "uint8", "int4", "int16"]:
        yield {"dtype": d}


def history(case, ctx):
    """All sequences of 4 calls (quantize / dequantize with two parameter sets, two arrays) on one object."""
    lo, hi = ref.drange(case["dtype"])
    C1, C2 = np.array([lo, 0, hi]), np.array([[lo, 1], [2, hi]])
    P = [(0, 0.25), (hi, 0.3)]
    menu = [("d", C, p) for C in (C1, C2) for p in P] + [("q", C, p) for C in (C1, C2) for p in P]
    for seq in itertools.product(range(len(menu)), repeat=4):
        q = Quantization(case["dtype"])
        outs = []
        for k in seq:
            kind, C, (zp, s) = menu[k]
            real = ref.dequantize(C, zp, s)
            if kind == "d":
                r = q.dequantize(C, zp, s)
                outs.append((r, real, seq))
                ctx.close(r, real, 1e-12 * np.abs(real), "dequantize in history", seq=seq)
            else:
                r = q.quantize(real, zp, s)
                outs.append((r, C, seq))
                ctx.equal(np.asarray(r).astype(np.int64), C, "round trip in history", seq=seq)
            ctx.op()
            ctx.state((k, np.asarray(r, float)))
        for r, w, _ in outs:  # earlier results must not be rewritten by later calls
            ctx.close(r, w, 1e-12 * (np.abs(w) + 1), "an earlier result changed", seq=seq)
        ctx.trace()


def usage_cases(tier):
    return [{"what": w} for w in ("buffers", "shared")] + [{"what": "sizes", "part": k} for k in range(4)]


def usage(case, ctx):
    """Refilled buffers in every carrier, one object with alternating parameters, every length in every carrier."""
    close = lambda ctx, y, x, z, s, m: ctx.close(y, ref.dequantize(np.asarray(x), z, s), np.abs(ref.dequantize(np.asarray(x), z, s)) * 2.0 ** -45, m)
    X = [np.array([[-128, 127, 3], [0, 1, -1]]), np.array([[5, -128, 127], [9, 0, -77]]), np.array([[0, 0, 0], [1, 2, 3]])]
    if case["what"] == "buffers":
        for d, z, s in (("int8", 0, 0.3), ("int8", 127, 0.3), ("int8", -128, 3.7), ("np.int8", 5, 0.25), ("int16", 100, 0.3)):
            for c in (np.int8, np.int16, np.int32, np.int64, np.float64):
                robust.buffers(ctx, [(f"{d}/{z}/{s}", lambda d=d: Quantization(ref.mkdtype(d)), lambda ctx, y, x, m, z=z, s=s: close(ctx, y, x, z, s, m))], [x.astype(c) for x in X],
                               infer=lambda q, x, z=z, s=s: q.dequantize(x, z, s))
    elif case["what"] == "shared":
        P = [(z, s) for z in (-128, 0, 5, 127) for s in (0.3, 0.31, 2)]
        for seq in itertools.product(P, repeat=3):
            q = Quantization("int8"); outs = []
            for z, s in seq:
                y = q.dequantize(X[0], z, s)
                close(ctx, y, X[0], z, s, f"same array, parameters {seq}"); outs.append((y, z, s)); ctx.op()
            for y, z, s in outs:
                close(ctx, y, X[0], z, s, "an earlier result changed")
        ctx.trace(); ctx.state("shared")
    else:
        ns = robust.sizes("thorough") + [131071, 131072, 131073]
        for n in [v for i, v in enumerate(ns) if i % 4 == case["part"]]:
            for d, c in (("int8", np.int8), ("uint8", np.uint8), ("int16", np.int16), ("int32", np.int32)):
                lo, hi = ref.drange(d)
                x = (np.arange(n, dtype=np.int64) * 7919 * 65537 % (hi - lo + 1) + lo)
                x[-1] = hi; x[0] = lo
                for xx in (x, x.astype(c), x.astype(c).reshape(1, n), x.astype(c).reshape(n, 1)):
                    for z in (lo, hi):
                        y = Quantization(d).dequantize(xx, z, 0.013)
                        close(ctx, y, xx, z, 0.013, f"{n} codes of {d} in {xx.dtype}"); ctx.op(n)
                ctx.equal(np.asarray(Quantization(d).quantize(y, z, 0.013)).astype(np.int64), xx.astype(np.int64), f"round trip of {n} codes")
            ctx.state(n)
        ctx.trace()


PROP = Property("Q02", [
    Scenario("codes", cases, codes, "dtype x scale x zero point x code"),
    Scenario("forms", form_cases, forms, "containers and carriers of the codes"),
    Scenario("usage", usage_cases, usage, "refilled buffers, alternating parameters, every length and carrier"),
    Scenario("history", hist_cases, history, "all 4-call sequences on one object"),
], "model_checking", "state: the vector returned for one (dtype, zero point, scale, codes) configuration or step; transition: one code converted; trace: "
   "one configuration or call sequence replayed against the affine reference", ["scales between 1e-6 and 1e4; dtypes up to 32 bits"])
