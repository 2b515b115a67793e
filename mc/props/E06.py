import itertools
import numpy as np
import robust
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.layers.onnx.softmax import Softmax
from itcl_inference_engine.layers.onnx.build_operator import build_operator
from itcl_inference_engine.layers.tflite.softmax import SoftMax
from itcl_inference_engine.layers.tflite.build_layer import build_layer

OP = {"op_type": "Softmax", "name": "s", "description": "s", "attributes": {}, "inputs": [{"scale": 0.1, "zero_point": 3, "tensor": None, "LUT": None}], "outputs": []}
ALPHA = [-1000.0, -5.0, 0.0, 0.5, 3.0, 1000.0]


def soft(x):
    e = np.exp(x.astype(np.longdouble) - x.max(-1, keepdims=True))
    return (e / e.sum(-1, keepdims=True)).astype(float)


def cases(tier):
    for n in (1, 2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for carrier in ("float64", "float32", "int64"):
            yield {"n": n, "carrier": carrier}


def vectors(c, ctx):
    """Every vector over the alphabet: a probability distribution, order preserving, shift invariant, permutation equivariant."""
    V = np.array(list(itertools.product(ALPHA, repeat=c["n"]))).astype(c["carrier"])
    for L in (Softmax(), Softmax.from_model(OP), build_operator(OP)):
        Y = np.asarray(L.infer(V))
        ctx.close(Y, soft(V.astype(float)), 1e-6, "softmax of a batch")
        ctx.close(Y.sum(-1), np.ones(len(V)), 1e-6, "a row does not sum to one")
        ctx.check(np.all(Y >= 0) and np.all(Y <= 1), "a probability is outside [0,1]")
        ctx.op(Y.size)
        for k in range(len(V)) if L is not None and len(V) <= 300 else range(0, len(V), 7):
            y = np.asarray(L.infer(V[k]))
            ctx.close(y, Y[k], 1e-9 if c["carrier"] != "float32" else 1e-6, "a vector alone differs from its row in a batch", x=V[k])
            ctx.check(np.all((V[k][:, None] > V[k][None, :]) <= (y[:, None] >= y[None, :])), "order not preserved", x=V[k])
            ctx.op()
        ctx.close(np.asarray(L.infer(V + (np.array(7).astype(c["carrier"])))), Y, 1e-5, "not shift invariant")
        ctx.close(np.asarray(L.infer(V[:, ::-1])), Y[:, ::-1], 1e-6, "not permutation equivariant")
        ctx.state(Y.round(6)); ctx.trace()
        for sh in ((2, -1, c["n"]), (-1, 3, c["n"])) if len(V) % 6 == 0 else ():
            Z = V.reshape(sh)
            ctx.close(np.asarray(L.infer(Z)).reshape(Y.shape), Y, 1e-6, f"softmax of a tensor of shape {Z.shape}")


def mag_cases(tier):
    return [{}]


def magnitudes(c, ctx):
    """Every magnitude up to 1e300 in both signs: no overflow, no NaN."""
    L = Softmax()
    mags = [0.0] + [s * 10.0 ** e for e in range(-3, 301, 4) for s in (1, -1)]
    for a in mags:
        for b in mags:
            y = np.asarray(L.infer(np.array([a, b, 0.0])))
            ctx.close(y, soft(np.array([a, b, 0.0])), 1e-6, "softmax of large magnitudes", x=[a, b])
            ctx.op()
        ctx.state(a)
    ctx.trace()


def pass_cases(tier):
    return [{}]


def passthrough(c, ctx):
    """The tflite engine leaves softmax to the host: quantized logits pass through unchanged (their order, hence the arg max, is preserved)."""
    for L in (SoftMax(0.1, 3), SoftMax.from_model(OP), build_layer(dict(OP, op_type="SOFTMAX")), build_layer(OP)):
        for x in (np.arange(-128, 128), np.arange(-128, 128, dtype=np.int8).reshape(16, 16), np.array([[3, -5], [7, 7]])):
            keep = x.copy()
            y = np.asarray(L.infer(x))
            ctx.equal(y, keep, "tflite softmax changed the logits"); ctx.op(); ctx.state(y)
        ctx.trace()


def usage_cases(tier):
    return [{"what": w} for w in ("buffers", "batches", "widths")]


def usage(case, ctx):
    """Refilled buffers, every batch length, every vector width, ranks 1 to 4, every carrier, logits spread over 1e-6..1e3."""
    jd = lambda ctx, y, x, m: ctx.close(y, soft(x.astype(float)), 1e-6, m)
    jt = lambda ctx, y, x, m: ctx.equal(y, x, m)
    V = [("Softmax", Softmax, jd), ("built Softmax", lambda: build_operator(OP), jd)]
    T = [("tflite softmax", lambda: build_layer(OP), jt)]
    X = [np.array([[0.5, -1.0, 2], [3, 3, 1]]), np.array([[9, -1.0, 2], [0, 0, 0]]), np.array([[1, 2, 3], [30, 1, -2.5]])]
    if case["what"] == "buffers":
        for c in (float, np.float32, np.int64):
            robust.buffers(ctx, V, [x.astype(c) for x in X])
    elif case["what"] == "batches":
        robust.batches(ctx, V + T, lambda n: ((np.arange(n * 3).reshape(n, 3) * 31 + n) % 64 - 32) / 4, robust.sizes(ctx.tier))
    else:
        for n in robust.sizes("quick"):
            k = np.arange(n)
            for mag in (1e-6, 1e-2, 1.0, 30.0, 1e3):
                x = np.array([k * 7 % 11 - 5, np.where(k == n - 1, 1, -1), k % 2, -(k % 3)]) * mag
                for L in (Softmax(), build_operator(OP)):
                    for sh in ((4, n), (2, 2, n), (1, 4, n), (4, 1, n), (2, 1, 2, n)) if n < 40 else ((4, n),):
                        jd(ctx, L.infer(x.reshape(sh)), x.reshape(sh), f"vectors of {n} logits, shape {sh}")
                    y = np.asarray(L.infer(x))
                    ctx.check(np.all(np.abs(y.sum(-1) - 1) < 1e-6), f"a row of {n} probabilities does not sum to one")
                    ctx.close(L.infer(x[0]), soft(x[0]), 1e-6, f"a vector of {n} logits")
                    ctx.op(4 * n)
            ctx.state(n)
        ctx.trace()


PROP = Property("E06", [
    Scenario("vectors", cases, vectors, "all vectors over the alphabet, batches and single"),
    Scenario("magnitudes", mag_cases, magnitudes, "all magnitude pairs"),
    Scenario("usage", usage_cases, usage, "refilled buffers, every batch length, every vector width, ranks and carriers"),
    Scenario("passthrough", pass_cases, passthrough, "tflite engine"),
], "model_checking", "state: result table; transition: one vector normalized; trace: one operator against the definition", ["finite inputs; logits are floating point or int64 (ONNX Softmax is defined on floats)"])
