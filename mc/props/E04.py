import itertools
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.layers.tflite.quantize import Quantize
from itcl_inference_engine.layers.tflite.dequantize import Dequantize
from itcl_inference_engine.layers.tflite.tanh import Tanh
from itcl_inference_engine.layers.tflite.logistic import Sigmoid
from itcl_inference_engine.layers.tflite.build_layer import build_layer
from itcl_inference_engine.layers.onnx.build_operator import build_operator
from itcl_inference_engine.layers.onnx.quantize_linear import QuantizeLinear
from itcl_inference_engine.layers.onnx.dequantize_linear import DequantizeLinear
from itcl_inference_engine.layers.onnx.q_linear_sigmoid import QLinearSigmoid
from itcl_inference_engine.layers.onnx.tanh import Tanh as OnnxTanh
import ref, robust

SC = [2.0 ** -7, 0.0588817298412323, 0.5, 0.003, 1.0, 3.7]


def node(s=None, zp=None, dtype=None, shape=(1,)):
    return {"scale": s, "zero_point": zp, "LUT": None,
            "tensor": None if dtype is None else {"tensor": None, "shape": list(shape), "dtype": dtype, "name": "t"}}


def op(t, inputs, outputs):
    return {"op_type": t, "name": "x", "description": "x", "attributes": {}, "inputs": inputs, "outputs": outputs}


def reals(s, zp, lo, hi):
    ks = sorted(set(list(range(lo - 3, hi + 4)) if hi - lo < 600 else list(range(lo - 3, lo + 60)) + list(range(hi - 60, hi + 4)) + list(range(-60, 60))))
    r = []
    for k in ks:
        for f in (0, 0.25, 0.5, 0.75, -0.001, 0.4999, 0.5001):
            r.append((k - zp + f) * s)
    return np.array(r + [0.0, -0.0, 1e9, -1e9])


def qcases(tier):
    for d in ("int8", "uint8", "int4", "int16", "int6", "INT8", "UINT8", "int2", "uint4", "int10", "uint16", "UINT16", "int24", "int32", "INT32", "uint32"):
        for s in SC:
            lo, hi = ref.drange(d)
            for zp in sorted({lo, hi, 0, 3 if hi > 3 else 1}):
                yield {"dtype": d, "s": s, "zp": zp}


def quantize_layers(c, ctx):
    """QUANTIZE / DEQUANTIZE layers (and their ONNX uint8 counterparts) against the codec, over every code and every half-way point."""
    lo, hi = ref.drange(c["dtype"])
    s, zp, d = c["s"], c["zp"], c["dtype"]
    x = reals(s, zp, lo, hi)
    codes = np.array(ref.code_points(lo, hi, 70000))
    # the other node of the operator carries misleading parameters
    other = node(9.25, 17, "int16")
    qs = {"Quantize": Quantize(s, zp, d), "from_model": Quantize.from_model(op("QUANTIZE", [other], [node(s, zp, d)])),
          "build_layer": build_layer(op("QUANTIZE", [node(None, None, "FLOAT32")], [node(s, zp, d)])),
          "build_layer lower": build_layer(op("quantize", [node(None, None, "FLOAT32")], [node(s, zp, d)]))}
    ds = {"Dequantize": Dequantize(s, zp, d), "from_model": Dequantize.from_model(op("DEQUANTIZE", [node(s, zp, d)], [other])),
          "build_layer": build_layer(op("DEQUANTIZE", [node(s, zp, d)], [node(None, None, "FLOAT32")]))}
    if d == "uint8":
        qs.update({"onnx": QuantizeLinear(s, zp), "onnx from_model": QuantizeLinear.from_model(op("QuantizeLinear", [node(s, zp, d)], [other])),
                   "build_operator": build_operator(op("QuantizeLinear", [node(s, zp, d)], []))})
        ds.update({"onnx": DequantizeLinear(s, zp), "onnx from_model": DequantizeLinear.from_model(op("DequantizeLinear", [node(s, zp, d)], [other])),
                   "build_operator": build_operator(op("DequantizeLinear", [node(s, zp, d)], []))})
    for n, q in qs.items():
        for xx in (x, x.reshape(1, -1), x[: len(x) // 4 * 4].reshape(2, 2, -1), x.astype(np.float32)):
            keep = xx.copy()
            y = q.infer(xx)
            ref.check_quantized(ctx, y, xx, zp, s, lo, hi, f"quantization layer ({n})")
            ctx.check(np.array_equal(keep, xx), "input modified")
            ctx.op(xx.size)
        ctx.state((n, np.asarray(y).astype(np.int64))); ctx.trace()
    wide = np.int64
    car = {"int8": np.int8, "uint8": np.uint8, "int16": np.int16}.get(d.lower()) or next(t for t in (np.int8, np.int16, np.uint16, np.int32, np.uint32) if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max)
    for n, q in ds.items():
        for xx in (codes.astype(wide), codes.astype(car), (codes.astype(np.int32) if hi < 2 ** 31 else codes).reshape(1, -1)):
            y = q.infer(xx)
            want = ref.dequantize(xx, zp, s)
            ctx.close(y, want, np.abs(want) * 1e-6 + 1e-9, f"dequantization layer ({n}, {xx.dtype})", s=s, zp=zp)
            ctx.op(xx.size)
        ctx.state((n, np.asarray(y))); ctx.trace()
    # round trip: dequantize then quantize gives the code back
    for (n, q), (m, dq) in itertools.product(qs.items(), ds.items()):
        ctx.equal(np.asarray(q.infer(dq.infer(codes.astype(wide)))).astype(np.int64), codes, f"round trip {m} -> {n}", s=s, zp=zp)
        ctx.op(codes.size)


def within_quant(ctx, y, real, zp, s, lo, hi, msg, **k):
    """y is the nearest code of `real` (real known to ~1e-6 relative: tensors may be float32)"""
    t = real / s + zp
    tol = np.abs(real / s) * 3e-7 + 1e-9
    a, b = np.clip(np.floor(t - tol + 0.5), lo, hi), np.clip(np.floor(t + tol + 0.5), lo, hi)
    g = np.asarray(y).astype(float)
    ctx.check(g.shape == a.shape, f"{msg}: shape {g.shape}")
    bad = ~((g >= a) & (g <= b))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.check(False, f"{msg}: at {i} got {g[i]}, expected {a[i]:.0f}..{b[i]:.0f}", **k)


def acases(tier):
    for s in SC + [0.02, 0.1, 12.0]:
        for zp in (-128, -50, 0, 23, 127) if tier == "quick" else range(-128, 128, 5):
            yield {"s": s, "zp": zp}


def act_layers(c, ctx):
    """TANH -> (1/128, 0) int8, LOGISTIC -> (1/256, -128) int8, for all 256 codes, all builders, all shapes."""
    s, zp = c["s"], c["zp"]
    codes = np.arange(-128, 128)
    real = (codes - zp) * s
    with np.errstate(all="ignore"):
        T, S = np.tanh(real), 1 / (1 + np.exp(-real))
    other = node(9.25, 17, "int8")
    lay = {"tanh": (Tanh(s, zp), T, 0, 1 / 128), "tanh from_model": (Tanh.from_model(op("TANH", [node(s, zp, "int8")], [other])), T, 0, 1 / 128),
           "tanh from_node": (Tanh.from_node(node(s, zp, "int8")), T, 0, 1 / 128),
           "tanh build": (build_layer(op("TANH", [node(s, zp, "int8")], [other])), T, 0, 1 / 128),
           "sigmoid": (Sigmoid(s, zp), S, -128, 1 / 256), "sigmoid from_model": (Sigmoid.from_model(op("LOGISTIC", [node(s, zp, "int8")], [other])), S, -128, 1 / 256),
           "sigmoid build": (build_layer(op("LOGISTIC", [node(s, zp, "int8")], [other])), S, -128, 1 / 256)}
    for n, (L, f, ozp, os_) in lay.items():
        for x, w in ((codes, f), (codes.astype(np.int8), f), (codes.reshape(16, 16), f.reshape(16, 16)), (codes.reshape(4, 4, 16), f.reshape(4, 4, 16)), (codes[::-1], f[::-1])):
            y = L.infer(x)
            within_quant(ctx, y, w, ozp, os_, -128, 127, f"{n} activation", in_s=s, in_zp=zp)
            ctx.op(x.size)
        y = np.asarray(L.infer(codes)).astype(int)
        ctx.check(np.all(np.diff(y) >= 0), f"{n} activation is not monotone")
        ctx.state((n, y)); ctx.trace()
    # ONNX: uint8 sigmoid with explicit output parameters
    uc = np.arange(256)
    for os_, ozp, uzp in ((1 / 256, 0, zp + 128), (1 / 255, 0, zp + 128), (0.01, 100, zp + 128), (2.0 ** -7, 255, zp + 128)):
        with np.errstate(all="ignore"):
            f = 1 / (1 + np.exp(-(uc - uzp) * s))
        o = op("QLinearSigmoid", [node(s, uzp, "uint8"), node(os_, ozp, "uint8")], [other])
        for n, L in (("direct", QLinearSigmoid(s, uzp, os_, ozp)), ("from_model", QLinearSigmoid.from_model(o)), ("build", build_operator(o))):
            for x, w in ((uc, f), (uc.astype(np.uint8), f), (uc.reshape(8, 32), f.reshape(8, 32))):
                within_quant(ctx, L.infer(x), w, ozp, os_, 0, 255, f"QLinearSigmoid {n}", in_s=s, in_zp=uzp)
                ctx.op(x.size)
            ctx.state((n, np.asarray(L.infer(uc)).astype(int))); ctx.trace()
    for L in (OnnxTanh(), build_operator(op("Tanh", [node(None, None)], []))):
        xs = np.concatenate([real, np.linspace(-20, 20, 161)])
        ctx.close(L.infer(xs), np.tanh(xs), 1e-7, "ONNX Tanh")
        ctx.close(L.infer(xs.reshape(1, -1)), np.tanh(xs.reshape(1, -1)), 1e-7, "ONNX Tanh 2-D")
        ctx.op(2 * xs.size)


def hist_cases(tier):
    return [{"n": 3}]


def history(case, ctx):
    """Every inference sequence over the live layers; stateless and independent."""
    mk = lambda: [Quantize(0.1, 3, "int8"), Dequantize(0.1, 3, "int8"), Tanh(0.1, 3), Sigmoid(0.1, 3), QuantizeLinear(0.1, 3), DequantizeLinear(0.1, 3), QLinearSigmoid(0.1, 3, 1 / 256, 0)]
    xs = [np.array([1, -5, 100]), np.array([[0, 127], [-128, 3]])]
    fresh = {(i, j): np.array(mk()[i].infer(xs[j])) for i in range(7) for j in range(2)}
    menu = sorted(fresh)
    for seq in itertools.product(range(len(menu)), repeat=case["n"]):
        L = mk(); outs = []
        for k in seq:
            i, j = menu[k]
            y = L[i].infer(xs[j])
            ctx.equal(y, fresh[menu[k]], "a layer depends on its history", seq=seq)
            outs.append((y, menu[k])); ctx.op(); ctx.state((k, np.array(y)))
        for y, k in outs:
            ctx.equal(y, fresh[k], "an earlier result changed", seq=seq)
        ctx.trace()


def fine_judge(f, izp, is_, ozp, os_, lo, hi):
    """nearest code of f(real); the real function value is known to ~1e-7 relative (float32 pipelines are allowed)"""
    def jd(ctx, y, x, m):
        real = (x.astype(np.int64) - izp) * is_
        with np.errstate(all="ignore"):
            v = f(real)
        within_quant(ctx, y, v, ozp, os_, lo, hi, m)
    return jd


SIGM = lambda v: 1 / (1 + np.exp(-v))


def usage_variants():
    V = []
    for i, z, o, oz in ((0.05, 120, 1 / 256, 0), (0.06, 120, 1 / 256, 0), (0.05, 100, 1 / 256, 0), (0.05, 120, 1 / 200, 0), (0.05, 120, 1 / 256, 30), (1 / 256, 0, 0.05, 120)):
        V.append((f"QLinearSigmoid{i, z, o, oz}", "u", lambda i=i, z=z, o=o, oz=oz: QLinearSigmoid(i, z, o, oz), fine_judge(SIGM, z, i, oz, o, 0, 255)))
    for i, z in ((0.05, 3), (0.06, 3), (0.05, -40)):
        V.append((f"Tanh{i, z}", "s", lambda i=i, z=z: Tanh(i, z), fine_judge(np.tanh, z, i, 0, 1 / 128, -128, 127)))
        V.append((f"Sigmoid{i, z}", "s", lambda i=i, z=z: Sigmoid(i, z), fine_judge(SIGM, z, i, -128, 1 / 256, -128, 127)))
    for s, z in ((0.05, 3), (0.0625, 3), (0.05, 40)):
        for d in ("int8", "int4", "uint8", "int16"):
            lo, hi = ref.drange(d)
            zz = min(max(z, lo), hi)
            V.append((f"Quantize{s, zz, d}", "f", lambda s=s, z=zz, d=d: Quantize(s, z, d), lambda ctx, y, x, m, s=s, z=zz, lo=lo, hi=hi: ref.check_quantized(ctx, y, x, z, s, lo, hi, m)))
        V.append((f"QuantizeLinear{s, z}", "f", lambda s=s, z=z: QuantizeLinear(s, z), lambda ctx, y, x, m, s=s, z=z: ref.check_quantized(ctx, y, x, z, s, 0, 255, m)))
        for n, mk in (("Dequantize", lambda s=s, z=z: Dequantize(s, z, "int8")), ("DequantizeLinear", lambda s=s, z=z: DequantizeLinear(s, z))):
            V.append((f"{n}{s, z}", "u", mk, lambda ctx, y, x, m, s=s, z=z: ctx.close(y, ref.dequantize(x, z, s), np.abs(ref.dequantize(x, z, s)) * 1e-6 + 1e-9, m)))
    return V


def usage_cases(tier):
    return [{"what": w, "kind": k} for w in ("pairs", "buffers", "batches") for k in "usf"] + [{"what": "fine", "kind": k} for k in ("tanh", "sigmoid", "onnx", "quant")]


def usage(case, ctx):
    """Ordered pairs of layers differing in one parameter, refilled buffers, every batch length, fine and coarse scales."""
    X = {"u": [np.array([[0, 72, 100], [127, 1, 3]]), np.array([[72, 5, 127], [3, 99, 100]])], "s": [np.array([[-128, 72, 3], [127, 0, -1]]), np.array([[72, -128, 127], [3, -1, 0]])],
         "f": [np.array([[-1.26, 72.3, 0.3], [1.27, 0, -0.11]]), np.array([[0.72, -0.128, 12.7], [0.3, -0.01, 0.2]])]}
    if case["what"] == "fine":
        codes, u = np.arange(-128, 128), np.arange(256)
        for s in [10.0 ** e * m for e in range(-7, 3) for m in (1, 2.5, 7.3)]:
            for zp in (-128, -5, 0, 127):
                if case["kind"] == "tanh":
                    fine_judge(np.tanh, zp, s, 0, 1 / 128, -128, 127)(ctx, Tanh(s, zp).infer(codes), codes, f"Tanh of scale {s}")
                elif case["kind"] == "sigmoid":
                    fine_judge(SIGM, zp, s, -128, 1 / 256, -128, 127)(ctx, Sigmoid(s, zp).infer(codes), codes, f"Sigmoid of scale {s}")
                elif case["kind"] == "onnx":
                    for os_ in (1e-6, 1e-5, 1e-4, 1e-3, 1 / 256, 0.01, 0.3):
                        for oz in (0, 255, 77):
                            fine_judge(SIGM, zp + 128, s, oz, os_, 0, 255)(ctx, QLinearSigmoid(s, zp + 128, os_, oz).infer(u), u, f"QLinearSigmoid of scales {s}, {os_}")
                            ctx.op(256)
                else:
                    for d in ("int8", "uint8", "int16"):
                        lo, hi = ref.drange(d)
                        z = min(max(zp, lo), hi)
                        x = reals(s, z, lo, hi)
                        ref.check_quantized(ctx, Quantize(s, z, d).infer(x), x, z, s, lo, hi, f"Quantize of scale {s}")
                        if d == "uint8":
                            ref.check_quantized(ctx, QuantizeLinear(s, z).infer(x), x, z, s, lo, hi, f"QuantizeLinear of scale {s}")
                        w = ref.dequantize(codes, z, s)
                        ctx.close(Dequantize(s, z, "int8").infer(codes), w, np.abs(w) * 1e-6 + s * 1e-9, f"Dequantize of scale {s}")
                        ctx.op(x.size)
                ctx.op(256); ctx.state((s, zp))
        ctx.trace()
        return
    V = [(l, mk, jd) for l, k, mk, jd in usage_variants() if k == case["kind"]]
    if case["what"] == "pairs":
        robust.pairs(ctx, V, X[case["kind"]][:2])
    elif case["what"] == "buffers":
        robust.buffers(ctx, V, X[case["kind"]])
        if case["kind"] != "f":
            robust.buffers(ctx, V, [x.astype(np.uint8 if case["kind"] == "u" else np.int8) for x in X[case["kind"]]])
        else:
            robust.buffers(ctx, V[:3], [x.astype(np.float32) for x in X["f"]])
    else:
        gen = {"u": lambda n: (np.arange(n * 3).reshape(n, 3) * 31 + n) % 128, "s": lambda n: (np.arange(n * 3).reshape(n, 3) * 31 + n) % 256 - 128,
               "f": lambda n: ((np.arange(n * 3).reshape(n, 3) * 31 + n) % 256 - 128) * 0.0507}[case["kind"]]
        robust.batches(ctx, V[::4], gen, robust.sizes(ctx.tier, 150))


PROP = Property("E04", [
    Scenario("quantize", qcases, quantize_layers, "all codes / half-way points x dtypes x builders"),
    Scenario("activations", acases, act_layers, "all 256 codes x scales x zero points x builders"),
    Scenario("history", hist_cases, history, "inference sequences"),
    Scenario("usage", usage_cases, usage, "ordered pairs of layers differing in one parameter, refilled buffers, every batch length, scales from 1e-7 to 1e2"),
], "model_checking", "state: a layer's full code->code table; transition: one element inferred; trace: one layer against its real function",
   ["codes are in the range of the layer's dtype"])
