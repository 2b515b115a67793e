import itertools
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.layers.common.relu import RELU
from itcl_inference_engine.layers.tflite.build_layer import build_layer
import ref, robust

SC = [(0.5, 0.5), (0.25, 0.5), (1.0, 0.125), (0.05, 0.03), (0.1, 0.7), (3.0, 0.01), (0.0078125, 0.00390625), (0.02, 0.02)]


def cases(tier):
    zps = (-128, -64, -1, 0, 5, 127) if tier == "quick" else tuple(range(-128, 128, 17)) + (127,)
    for si, so in SC:
        for zi in zps:
            for zo in zps:
                yield {"si": si, "so": so, "zi": zi, "zo": zo}


def node(s, zp):
    return {"scale": s, "zero_point": zp, "tensor": None, "LUT": None}


def relu(c, ctx):
    """All 256 codes: output = nearest int8 code of max(real, 0), saturated; monotone; zero maps to the output zero point."""
    si, so, zi, zo = c["si"], c["so"], c["zi"], c["zo"]
    codes = np.arange(-128, 128)
    t = np.maximum((codes - zi) * si, 0) / so + zo
    tol = np.abs(t - zo) * 1e-9 + 1e-12
    a, b = np.clip(np.floor(t - tol + .5), -128, 127), np.clip(np.floor(t + tol + .5), -128, 127)
    op = {"op_type": "RELU", "name": "r", "description": "r", "attributes": {}, "inputs": [node(si, zi)], "outputs": [node(so, zo)]}
    for n, L in (("direct", RELU(si, zi, so, zo)), ("from_model", RELU.from_model(op)), ("build_layer", build_layer(op)), ("lower", build_layer(dict(op, op_type="relu")))):
        for x in (codes, codes.astype(np.int8), codes.astype(np.int32).reshape(2, 128), codes.reshape(4, 8, 8)):
            keep = x.copy()
            y = np.asarray(L.infer(x))
            ctx.check(y.dtype.kind in "iu", "RELU result is not an integer")
            yf = y.astype(int).reshape(-1)
            ctx.check(y.shape == x.shape, "shape changed")
            bad = ~((yf >= a) & (yf <= b))
            if bad.any():
                i = int(np.argmax(bad))
                ctx.check(False, f"RELU ({n}) of code {codes[i]}: {yf[i]}, expected {a[i]:.0f}..{b[i]:.0f}", **c)
            ctx.check(np.array_equal(keep, x), "input modified")
            ctx.op(256)
        ctx.check(np.all(np.diff(yf) >= 0), "RELU is not monotone")
        ctx.check(np.all(yf[codes <= zi] == zo), "negative inputs do not map to the output zero point")
        ctx.state((n, yf)); ctx.trace()


def judge_for(si, zi, so, zo):
    def jd(ctx, y, x, m):
        t = np.maximum((x.astype(np.int64) - zi) * np.longdouble(si), 0) / np.longdouble(so)
        tol = t * np.longdouble(2.0) ** -50
        a, b = np.clip(np.floor(t - tol + .5) + zo, -128, 127), np.clip(np.floor(t + tol + .5) + zo, -128, 127)
        g = np.asarray(y).astype(int)
        ctx.check(g.shape == a.shape, f"{m}: shape {g.shape}")
        bad = ~((g >= a) & (g <= b))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            ctx.check(False, f"RELU {m}: code {x[i]} gave {g[i]}, expected {a[i]:.0f}..{b[i]:.0f}", si=si, zi=zi, so=so, zo=zo)
    return jd


def usage_cases(tier):
    return [{"what": w} for w in ("pairs", "buffers", "batches", "halves")]


def usage(case, ctx):
    """Ordered pairs of layers differing in one parameter, refilled buffers, every batch length, factors next to every half-way point."""
    P = [(0.05, -3, 0.03, 5), (0.06, -3, 0.03, 5), (0.05, 4, 0.03, 5), (0.05, -3, 0.04, 5), (0.05, -3, 0.03, -90), (0.03, -3, 0.05, 5), (0.05, 5, 0.03, -3), (0.1, -3, 0.06, 5)]
    V = []
    for p in P:
        o = {"op_type": "RELU", "name": "r", "description": "r", "attributes": {}, "inputs": [node(p[0], p[1])], "outputs": [node(p[2], p[3])]}
        V += [(f"RELU{p}", lambda p=p: RELU(*p), judge_for(*p)), (f"built RELU{p}", lambda o=o: build_layer(o), judge_for(*p))]
    X = [np.array([[-128, 72, 3], [127, 0, -1]]), np.array([[72, -128, 127], [3, -1, 0]]), np.array([[0, 0, 0], [1, 1, 3]])]
    if case["what"] == "pairs":
        robust.pairs(ctx, V, X[:2])
    elif case["what"] == "buffers":
        robust.buffers(ctx, V[:6], X)
        robust.buffers(ctx, V[:2], [x.astype(np.int8) for x in X])
    elif case["what"] == "batches":
        robust.batches(ctx, V[:3], lambda n: (np.arange(n * 3).reshape(n, 3) * 31 + n) % 256 - 128, robust.sizes(ctx.tier))
    else:       # factor * d lies 1e-12 .. 1e-3 (relative) below or above k + 1/2
        x = np.arange(-128, 128)
        for d in (1, 3, 7, 50, 255):
            for k in (0, 1, 2, 17, 100, 200, 254):
                for e in (0, 1e-12, 1e-10, 1e-9, 1e-8, 3e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3):
                    for sg in (1, -1):
                        f = (k + 0.5) / d * (1 + sg * e)
                        for so in (1.0, 2.0 ** -9, 0.037):
                            p = (f * so, -128, so, -128)
                            judge_for(*p)(ctx, RELU(*p).infer(x), x, "next to a half-way point")
                            ctx.op(256)
        ctx.trace(); ctx.state("halves")


PROP = Property("E10", [Scenario("relu", cases, relu, "all codes x scales x zero points x builders"),
                          Scenario("usage", usage_cases, usage, "ordered pairs of layers, refilled buffers, every batch length, factors next to half-way points")],
                "model_checking", "state: the layer's full code table; transition: one code; trace: one layer against max(real,0)",
                ["int8 inputs and outputs (the layer has no dtype parameter)"])
