import itertools, json, os, shutil, tempfile
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_inference_engine.layers.tflite.quantize import Quantize
from itcl_inference_engine.layers.tflite.dequantize import Dequantize
from itcl_inference_engine.layers.tflite.tanh import Tanh
from itcl_inference_engine.layers.tflite.logistic import Sigmoid
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
from itcl_inference_engine.layers.tflite.softmax import SoftMax
from itcl_inference_engine.layers.common.relu import RELU
from itcl_inference_engine.layers.common.lut import LUTActivation
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.layers.onnx.quantize_linear import QuantizeLinear
from itcl_inference_engine.layers.onnx.dequantize_linear import DequantizeLinear
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
from itcl_inference_engine.layers.onnx.q_linear_sigmoid import QLinearSigmoid
from itcl_inference_engine.layers.onnx.softmax import Softmax
import lstmref, netref, ref, robust, stored
from props import K02, M03


def node(s=None, zp=None, dtype="int8", t=None, lut=None, off=0):
    return {"scale": s, "zero_point": zp, "LUT": None if lut is None else {"LUT": lut, "reduced_LUT": None, "offset": off},
            "tensor": {"tensor": None if t is None else np.array(t).tolist(), "shape": [1] if t is None else list(np.array(t).shape), "dtype": dtype, "name": "t"}}


def op(t, ins, outs, name=None, attrs=None):
    return {"op_type": t, "name": name or "op " + t, "description": "d", "attributes": attrs or {}, "inputs": ins, "outputs": outs}


W = [[100, -50], [3, 127], [-128, 77]]
WS = [[1, -128], [127, 33]]
LUT_A = [int((v * 7 + 3) % 256 - 128) for v in range(256)]
LUT_B = [int((v * 11 + 90) % 256 - 128) for v in range(256)]
LUT_U = [int((v * 13 + 41) % 256) for v in range(256)]

TF = {
    "quant": (op("QUANTIZE", [node(dtype="FLOAT32")], [node(0.05, 3)]), lambda: Quantize(0.05, 3, "int8")),
    "fc": (op("FULLY_CONNECTED", [node(0.05, 3), node(0.01, 0, "int8", WS), node(0.0005, 0, "int32", [500, -900])], [node(0.02, -4)]),
           lambda: FullyConnected.build(0.05, 3, 0.01, 0, np.array(WS), 0.0005, 0, np.array([500, -900]), 0.02, -4)),
    "fc2": (op("FULLY_CONNECTED", [node(0.02, -4), node(0.02, 0, "int8", WS[::-1]), node(0.0004, 0, "int32", [-70, 10])], [node(0.03, 7)]),
            lambda: FullyConnected.build(0.02, -4, 0.02, 0, np.array(WS[::-1]), 0.0004, 0, np.array([-70, 10]), 0.03, 7)),
    "tanh": (op("TANH", [node(0.02, -4)], [node(1 / 128, 0)]), lambda: Tanh(0.02, -4)),
    "sigmoid": (op("LOGISTIC", [node(0.02, -4)], [node(1 / 256, -128)]), lambda: Sigmoid(0.02, -4)),
    "tanhlut": (op("TanhLUT", [node(0.02, -4, lut=LUT_A, off=128)], [node(1 / 128, 0)]), lambda: LUTActivation(list(LUT_A), 128)),
    "sigmoidlut": (op("SigmoidLUT", [node(0.02, -4, lut=LUT_B, off=128)], [node(1 / 128, 0)]), lambda: LUTActivation(list(LUT_B), 128)),
    "relu": (op("RELU", [node(0.02, -4)], [node(0.03, 5)]), lambda: RELU(0.02, -4, 0.03, 5)),
    "softmax": (op("SOFTMAX", [node(0.02, -4)], [node(1 / 256, -128)]), lambda: SoftMax(0.02, -4)),
    "dequant": (op("DEQUANTIZE", [node(0.02, -4)], [node(dtype="FLOAT32")]), lambda: Dequantize(0.02, -4, "int8")),
}
OX = {
    "quant": (op("QuantizeLinear", [node(0.05, 120, "uint8")], []), lambda: QuantizeLinear(0.05, 120)),
    "mm": (op("QLinearMatMul", [node(0.05, 120, "uint8"), node(0.01, 90, "uint8", [[1, 200], [255, 33]]), node(0.04, 100, "uint8")], []),
           lambda: QLinearMatMul(0.05, 120, np.array([[1, 200], [255, 33]], dtype=np.uint8), 0.01, 90, 0.04, 100)),
    "add": (op("QLinearAdd", [node(0.04, 100, "uint8"), node(0.02, 40, "uint8", [9, 250]), node(0.05, 110, "uint8")], []),
            lambda: QLinearAdd(0.04, 100, np.array([9, 250], dtype=np.uint8), 0.02, 40, 0.05, 110)),
    "sigmoid": (op("QLinearSigmoid", [node(0.05, 110, "uint8"), node(1 / 256, 0, "uint8")], []), lambda: QLinearSigmoid(0.05, 110, 1 / 256, 0)),
    "dequant": (op("DequantizeLinear", [node(0.05, 110, "uint8")], []), lambda: DequantizeLinear(0.05, 110)),
    "tanhlut": (op("TanhLUT", [node(0.05, 110, "uint8", lut=LUT_U, off=0)], [node(1 / 128, 128, "uint8")]), lambda: LUTActivation(list(LUT_U), 0)),
    "sigmoidlut": (op("SigmoidLUT", [node(0.05, 110, "uint8", lut=LUT_U[::-1], off=0)], [node(1 / 256, 0, "uint8")]), lambda: LUTActivation(list(LUT_U[::-1]), 0)),
    "softmax": (op("Softmax", [node()], []), Softmax),
    "tanh": (op("Tanh", [node()], []), None),
}
SPELL = {"tflite": "tflite", "TFLITE": "tflite", "onnx": "onnx", "ONNX": "onnx", "Onnx": "onnx"}


def net(engine, ops, inp=(None, None)):
    return {"ir_version": "0.1", "engine": engine, "generated_at": None, "operators": len(ops), "graph": ops,
            "input": [node(inp[0], inp[1], "FLOAT32")], "output": [node(None, None, "FLOAT32")]}


def run_ref(layers, x):
    mids = []
    for L in layers:
        x = np.tanh(x) if L is None else L.infer(x)
        mids.append(np.asarray(x))
    return mids


XS = [np.array([[0.5, -1.0], [2.0, 3.25], [-6.0, 6.0], [0.0, 0.013]]), np.array([1.25, -0.7])]


def chain_cases(tier):
    """Chains are enumerated in the JSON order; the first names the quantizing operator."""
    mid = [k for k in TF if k not in ("quant", "dequant")]
    for n in range(0, 4 if tier == "quick" else 5):
        for seq in itertools.product(mid, repeat=n):
            for deq in (False, True):
                yield {"engine": "tflite", "chain": ["quant", *seq] + (["dequant"] if deq else [])}
    midx = ["mm", "add", "sigmoid", "tanhlut", "sigmoidlut"]
    for n in range(0, 4):
        for seq in itertools.product(midx, repeat=n):
            for tail in ([], ["dequant"], ["dequant", "softmax"], ["dequant", "tanh"], ["dequant", "tanh", "softmax"]):
                yield {"engine": "onnx", "chain": ["quant", *seq, *tail]}


def chain(c, ctx):
    """The network is the composition of its operators in graph order, whatever the chain; single and batched."""
    menu = TF if c["engine"] == "tflite" else OX
    ops = [menu[k][0] for k in c["chain"]]
    mk = lambda: [menu[k][1]() if menu[k][1] else None for k in c["chain"]]
    n = SequentialNetwork(json.loads(json.dumps(net(c["engine"], ops))))
    ctx.check(len(n.layers) == len(ops), "the network does not have one layer per operator")
    for x in XS:
        keep = x.copy()
        want = run_ref(mk(), x)
        got = n.infer(x)
        ctx.equal(np.asarray(got), want[-1], f"network {c['chain']} is not the composition of its operators")
        ctx.check(np.array_equal(keep, x), "the network modified its input")
        for v in (False, True):
            ctx.equal(np.asarray(n.infer(x.tolist(), verbose=v)), want[-1], "list input / verbose changed the result")
            ctx.op(len(ops))
        ctx.state((np.asarray(got).astype(float))); ctx.trace()
    y = np.asarray(n.infer(XS[0]))
    for k in range(len(XS[0])):
        ctx.close(np.asarray(n.infer(XS[0][k])), y[k], 1e-12, "a sample alone differs from the batch")
        ctx.op()


def quant_cases(tier):
    for nm in ("quantize_0", "QUANTIZE", "my_Quant_layer", "dequantize first", "fc", "dense_1", "tanh", ""):
        for s, z in ((0.05, 3), (2.0 ** -4, -7), (None, None), (0.5, None), (None, 4)):
            for o in ((None, None), (0.3, 17), (0, 0)):
                yield {"name": nm, "s": s, "z": z, "out": o}


def legacy(c, ctx):
    """A graph whose first operator is not a (de)quantization layer takes real inputs and quantizes them to int8 with the input node's
    parameters (missing ones default to scale 1, zero point 0); otherwise the input goes to the first operator untouched."""
    first = dict(TF["tanhlut"][0], name=c["name"])
    js = net("tflite", [first, TF["relu"][0]], (c["s"], c["z"]))
    js["output"] = [node(*c["out"], "FLOAT32")]         # whatever the output node says
    n = SequentialNetwork(js)
    has = "QUANT" in c["name"].upper()
    x = np.array([[0, 3], [-7, 100]]) if has else np.array([[0.5, -1.3], [2.25, -4.0], [100.0, -100.0]])
    q = x if has else None
    got = np.asarray(n.infer(x))
    if not has:
        s, z = c["s"] or 1, c["z"] or 0
        a, b = ref.quantize_bounds(x, z, s, -128, 127)
        ctx.check(np.array_equal(a, b), "internal: ambiguous input chosen")
        q = a.astype(int)
    want = RELU(0.02, -4, 0.03, 5).infer(np.array(LUT_A)[q + 128])
    ctx.equal(got, want, "first operator input", **c)
    ctx.op(); ctx.state((got, has)); ctx.trace()


def legacy_chain_cases(tier):
    mid = [k for k in TF if k not in ("quant",)]
    for n in (1, 2, 3):
        for seq in itertools.product(mid, repeat=n):
            if "dequant" in seq[:-1] or (n == 1 and seq[0] == "dequant") or (n == 3 and tier == "quick" and seq[0] not in ("fc", "tanhlut")):
                continue
            yield {"chain": list(seq)}


def legacy_chain(c, ctx):
    """Only the first operator decides whether the graph quantizes its own input: what follows (a trailing dequantization, operators
    whose names mention quantization) does not."""
    x = XS[0]
    lo, hi = ref.quantize_bounds(x, 3, 2.0 ** -4, -128, 127)
    ctx.check(np.array_equal(lo, hi), "internal: ambiguous input chosen")
    for suffix in ("", " quantized"):
        for first, quantizes in (("dense_1", False), ("lstm_quant", True)):
            ops = [dict(TF[k][0], name=TF[k][0]["name"] + suffix) for k in c["chain"]]
            ops[0]["name"] = first
            n = SequentialNetwork(net("tflite", ops, (2.0 ** -4, 3)))
            layers = [TF[k][1]() for k in c["chain"]]
            want = run_ref(layers, lo.astype(int))[-1]
            got = n.infer(lo.astype(int) if quantizes else x)
            ctx.equal(np.asarray(got), want, "network without leading quantization", first=first, suffix=suffix)
            ctx.op(len(ops)); ctx.state((suffix, np.asarray(got, dtype=float)))
    ctx.trace()


def reject_cases(tier):
    return [{}]


def reject(c, ctx):
    """Unknown engines and operator types are refused at construction; known spellings of the engine are accepted."""
    for e in ("tflite", "TFLITE", "TfLite"):
        n = SequentialNetwork(net(e, [TF["quant"][0], TF["relu"][0]]))
        ctx.equal(n.infer(XS[0]), run_ref([TF["quant"][1](), TF["relu"][1]()], XS[0])[-1], f"engine {e}")
    for e in ("onnx", "ONNX", "Onnx"):
        n = SequentialNetwork(net(e, [OX["quant"][0], OX["sigmoid"][0]]))
        ctx.equal(n.infer(XS[0]), run_ref([OX["quant"][1](), OX["sigmoid"][1]()], XS[0])[-1], f"engine {e}")
    for e in ("", "torch", "tflite2", "onnxruntime", "keras"):
        try:
            SequentialNetwork(net(e, [TF["quant"][0]]))
        except Exception:
            continue
        ctx.check(False, f"engine {e!r} was accepted")
    for eng, good, bad in (("tflite", TF["quant"][0], ["CONV_2D", "ADD", "", "TANHLUTS", "LSTM2", "QLinearAdd", "RESHAPE"]), ("onnx", OX["quant"][0], ["Conv", "Add", "", "Reshape", "MatMul", "FULLY_CONNECTED"])):
        for b in bad:
            for body in [good] + [d for d, _ in (TF if eng == "tflite" else OX).values()]:
                # an unknown name is refused whatever it carries: the tensors of any known operator do not make it one
                for ops in ([dict(body, op_type=b)], [good, dict(body, op_type=b)], [dict(body, op_type=b), good]):
                    try:
                        SequentialNetwork(net(eng, ops))
                    except Exception:
                        ctx.op(); continue
                    ctx.check(False, f"operator type {b!r} was accepted by the {eng} engine", carrying=body["op_type"])
    ctx.state("ok"); ctx.trace()


def lstm_cases(tier):
    return [{"seq": s, "U": u} for s in (True, False) for u in (1, 2)]


def lstm_net(c, ctx):
    """quantize -> LSTM -> fully connected / dequantize networks over 3-D inputs."""
    p = lstmref.params(2, c["U"], "real", dict(in_zp=-7, h_zp=3), True, seq=c["seq"])
    lo = lstmref.operator(p)
    fc = op("FULLY_CONNECTED", [node(p["h_s"], 3), node(0.02, 0, "int8", [[5] * c["U"], [-100] * c["U"]]), node(p["h_s"] * 0.02, 0, "int32", [500, -900])], [node(0.02, -4)])
    q = op("QUANTIZE", [node(dtype="FLOAT32")], [node(p["in_s"], -7)])
    d = op("DEQUANTIZE", [node(p["h_s"], 3)], [node(dtype="FLOAT32")])
    x = np.array(list(itertools.product((-4.0, 0.31, 5.0), repeat=4))).reshape(-1, 2, 2)
    for ops, ref_l in (([q, lo], [Quantize(p["in_s"], -7, "int8"), LSTM.from_model(lo)]), ([q, lo, d], [Quantize(p["in_s"], -7, "int8"), LSTM.from_model(lo), Dequantize(p["h_s"], 3, "int8")])) + \
            ((([q, lo, fc], [Quantize(p["in_s"], -7, "int8"), LSTM.from_model(lo), FullyConnected.from_model(fc)]),) if not c["seq"] else ()):
        n = SequentialNetwork(net("tflite", ops))
        want = run_ref(ref_l, x)[-1]
        got = n.infer(x)
        ctx.equal(got, want, "LSTM network")
        ctx.equal(n.infer(x[::-1]), want[::-1], "LSTM network, reordered batch")
        ctx.op(2 * len(x)); ctx.state(np.asarray(got)); ctx.trace()


def hist_cases(tier):
    return [{"n": 3 if tier == "quick" else 4}]


def history(c, ctx):
    """Every inference sequence over two live networks equals inference with fresh ones; a saved JSON file gives the same network."""
    defs = [net("tflite", [TF[k][0] for k in ("quant", "fc", "tanhlut", "fc2", "dequant")]), net("onnx", [OX[k][0] for k in ("quant", "mm", "add", "dequant", "softmax")]),
            net("tflite", [TF["tanhlut"][0], TF["relu"][0]], (0.05, 3))]
    xs = [XS[0], XS[1], XS[0][1:3]]
    fd, path = tempfile.mkstemp(suffix=".json"); os.close(fd)
    def make():
        L = [SequentialNetwork(json.loads(json.dumps(defs[0]))), SequentialNetwork(json.loads(json.dumps(defs[1]))), None]
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(defs[2], fh)
        L[2] = SequentialNetwork.from_json_file(path)
        return L
    try:
        fresh = {(l, i): np.asarray(make()[l].infer(xs[i])).copy() for l in range(3) for i in range(3)}
        menu = sorted(fresh)
        for seq in itertools.product(range(len(menu)), repeat=c["n"]):
            L = make() if len(set(seq)) > 1 or True else None
            outs = []
            for k in seq:
                l, i = menu[k]
                y = L[l].infer(xs[i])
                ctx.equal(np.asarray(y), fresh[menu[k]], "inference depends on earlier inferences", seq=seq)
                outs.append((y, menu[k])); ctx.op(); ctx.state((k, np.asarray(y)))
            for y, k in outs:
                ctx.equal(np.asarray(y), fresh[k], "an earlier result changed", seq=seq)
            ctx.trace()
    finally:
        os.unlink(path)


def tweak(ops, i, f):
    ops = json.loads(json.dumps(ops))
    f(ops[i])
    return ops


LAYER = {"QUANTIZE": Quantize, "FULLY_CONNECTED": FullyConnected, "TANH": Tanh, "LOGISTIC": Sigmoid, "TANHLUT": LUTActivation, "SIGMOIDLUT": LUTActivation, "RELU": RELU,
         "DEQUANTIZE": Dequantize, "LSTM": LSTM, "SOFTMAX": SoftMax}
OLAYER = {"QuantizeLinear": QuantizeLinear, "QLinearMatMul": QLinearMatMul, "QLinearAdd": QLinearAdd, "QLinearSigmoid": QLinearSigmoid, "DequantizeLinear": DequantizeLinear, "Softmax": Softmax}


def net_variants():
    """Networks that differ from a base network in one number of one operator."""
    t = [TF[k][0] for k in ("quant", "fc", "tanhlut", "relu", "fc2", "tanh", "dequant")]
    o = [OX[k][0] for k in ("quant", "mm", "add", "sigmoid", "dequant", "softmax")]
    def setn(side, k, key, v):
        def f(op):
            n = op[side][k]
            if key == "tensor":
                n["tensor"]["tensor"][0] = v
            elif key == "lut":
                n["LUT"]["LUT"][v] = 99
            elif key == "off":
                n["LUT"]["offset"] = v; n["LUT"]["LUT"] += n["LUT"]["LUT"]
            else:
                n[key] = v
        return f
    yield "tflite base", "tflite", t
    for i, side, k, key, v in ((0, "outputs", 0, "scale", .06), (0, "outputs", 0, "zero_point", -9), (1, "inputs", 0, "zero_point", 9), (1, "inputs", 1, "scale", .03), (1, "inputs", 1, "tensor", [7, 7]), (1, "inputs", 2, "tensor", 7000),
                            (1, "outputs", 0, "scale", .06), (1, "outputs", 0, "zero_point", 30), (2, "inputs", 0, "lut", 128), (2, "inputs", 0, "off", 140), (3, "inputs", 0, "zero_point", -100), (3, "outputs", 0, "scale", .009),
                            (5, "inputs", 0, "scale", .001), (6, "inputs", 0, "scale", .5)):
        yield f"tflite operator {i} {side} {k} {key}", "tflite", tweak(t, i, setn(side, k, key, v))
    yield "onnx base", "onnx", o
    for i, k, key, v in ((0, 0, "scale", .06), (1, 0, "zero_point", 9), (1, 1, "tensor", [7, 7]), (1, 2, "scale", .09), (2, 1, "tensor", 200), (2, 2, "zero_point", 3), (3, 0, "scale", .001), (3, 1, "scale", 1 / 99), (4, 0, "scale", 1.5)):
        yield f"onnx operator {i} input {k} {key}", "onnx", tweak(o, i, setn("inputs", k, key, v))


def usage_cases(tier):
    return [{"what": w} for w in ("pairs", "buffers", "batches", "samples", "precision", "deep", "twins", "files")]


def usage(c, ctx):
    """Networks differing in one number built next to each other, refilled input buffers, every batch length, three dimensional
    batches of one, inputs next to half-way points, long graphs."""
    V = []
    for l, e, ops in net_variants():
        def jd(ctx, y, x, m, e=e, ops=ops):
            w = x
            for o in ops:
                w = (LAYER[o["op_type"].upper()] if e == "tflite" else OLAYER[o["op_type"]]).from_model(o).infer(w)
            ctx.equal(np.asarray(y), np.asarray(w), m)
        V.append((l, lambda e=e, ops=ops: SequentialNetwork(json.loads(json.dumps(net(e, ops)))), jd))
    X = [XS[0], XS[0][::-1] * 0.7]
    if c["what"] == "pairs":
        robust.pairs(ctx, V, X[:1])
    elif c["what"] == "buffers":
        robust.buffers(ctx, V[:2] + V[15:17], X + [X[0] * 0 + 1])
        robust.buffers(ctx, V[:2] + V[15:17], [x.astype(np.float32) for x in X])
        first = dict(TF["tanhlut"][0], name="dense")
        for seq in itertools.product(range(3), repeat=3):       # a graph that quantizes its own input
            n = SequentialNetwork(net("tflite", [first, TF["relu"][0]], (2.0 ** -4, 3)))
            buf = np.zeros((2, 2))
            for i in seq:
                src = [np.array([[0.5, -1.0], [2.0, 3.25]]), np.array([[-6.0, 6.0], [0.0, 0.25]]), np.array([[1.0, 1.0], [1.0, 1.0]])][i]
                buf[...] = src
                q = ref.quantize_bounds(src, 3, 2.0 ** -4, -128, 127)[0].astype(int)
                ctx.equal(n.infer(buf), RELU(0.02, -4, 0.03, 5).infer(np.array(LUT_A)[q + 128]), "input buffer refilled in place (self quantizing graph)", seq=seq)
                ctx.check(np.array_equal(buf, src), "input modified"); ctx.op()
    elif c["what"] == "batches":
        robust.batches(ctx, V[:1] + V[15:16], lambda n: ((np.arange(n * 2).reshape(n, 2) * 31 + n) % 256 - 128) * 0.0507, robust.sizes(ctx.tier))
    elif c["what"] == "samples":
        for seq, U, B, Wn in itertools.product((True, False), (1, 2), (1, 2, 5), (1, 2, 6)):      # every axis of length one must survive
            p = lstmref.params(2, U, "real", dict(in_zp=-7, h_zp=3), True, seq=seq)
            lo = lstmref.operator(p)
            ops = [op("QUANTIZE", [node(dtype="FLOAT32")], [node(p["in_s"], -7)]), lo, op("DEQUANTIZE", [node(p["h_s"], 3)], [node(dtype="FLOAT32")])]
            x = ((np.arange(B * Wn * 2) * 7 % 23) / 4.0 - 2).reshape(B, Wn, 2)
            w = x
            for L in (Quantize(p["in_s"], -7, "int8"), LSTM.from_model(lo), Dequantize(p["h_s"], 3, "int8")):
                w = L.infer(w)
            n = SequentialNetwork(net("tflite", ops))
            ctx.equal(n.infer(x), w, f"recurrent network on a batch of shape {x.shape}", seq=seq, units=U)
            ctx.check(np.shape(n.infer(x)) == ((B, Wn, U) if seq else (B, U)), "shape of a recurrent network's result")
            ctx.op(2); ctx.state((seq, U, B, Wn, np.asarray(w)))
        for e, ops in (("tflite", [TF[k][0] for k in ("quant", "tanhlut", "relu", "dequant")]), ("onnx", [OX[k][0] for k in ("quant", "sigmoid", "dequant")])):
            for sh in ((1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 1, 1, 3), (2, 1, 1, 2)):
                x = (np.arange(int(np.prod(sh))) * 0.7 - 1).reshape(sh)
                w = x
                for o in ops:
                    w = (LAYER[o["op_type"].upper()] if e == "tflite" else OLAYER[o["op_type"]]).from_model(o).infer(w)
                y = SequentialNetwork(net(e, ops)).infer(x)
                ctx.check(np.shape(y) == sh, f"network result of shape {np.shape(y)} for an input of shape {sh}")
                ctx.equal(y, w, f"input of shape {sh}"); ctx.op()
    elif c["what"] == "precision":
        for s, z in ((0.05, 3), (2.0 ** -4, -7), (0.0037, 0)):
            for e in (1e-3, 1e-5, 1e-6, 1e-7, 3e-8, 1e-8, 1e-9, 1e-10):
                for sg in (1, -1):
                    x = ((np.arange(-128, 127) + 0.5) * (1 + sg * e) * s).reshape(-1, 1)
                    a, b = ref.quantize_bounds(x, z, s, -128, 127)
                    for eng, ops in (("tflite", [op("QUANTIZE", [node(dtype="FLOAT32")], [node(s, z)])]), ("tflite", [op("QUANTIZE", [node(dtype="FLOAT32")], [node(s, z)]), op("DEQUANTIZE", [node(s, z)], [])])):
                        y = np.asarray(SequentialNetwork(net(eng, ops)).infer(x))
                        if len(ops) == 2:
                            y = np.rint(y.astype(np.float64) / s) + z
                        ctx.check(np.all((y >= a) & (y <= b)), f"inputs {sg * e} (relative) from a half-way point are rounded the wrong way", s=s, z=z)
                        ctx.op(255)
                    lut = list(range(-128, 128))
                    n = SequentialNetwork(net("tflite", [op("TanhLUT", [node(s, z, lut=lut, off=128)], [node(1 / 128, 0)], name="dense")], (s, z)))
                    y = np.asarray(n.infer(x))
                    ctx.check(np.all((y >= a) & (y <= b)), f"self quantizing graph: inputs {sg * e} from a half-way point are rounded the wrong way", s=s, z=z)
            ctx.state((s, z))
    elif c["what"] == "twins":
        # one graph holding an operator and a copy that differs from it in a single leaf anywhere in the JSON: each keeps its own
        def leaves(v, at=()):
            if isinstance(v, dict):
                for k in v:
                    yield from leaves(v[k], at + (k,))
            elif isinstance(v, list):
                for k in ([0, len(v) // 2, len(v) - 1] if len(v) > 8 else range(len(v))):
                    yield from leaves(v[k], at + (k,))
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                yield at, v
        wide = op("FULLY_CONNECTED", [node(0.02, -4), node(0.02, 0, "int8", [[(7 * i + 31 * j) % 255 - 127 for i in range(2)] for j in range(40)]), node(0.0004, 0, "int32", [31 * j - 500 for j in range(40)])], [node(0.03, 7)])
        back = op("FULLY_CONNECTED", [node(0.03, 7), node(0.01, 0, "int8", [[(11 * i + 5 * j) % 255 - 127 for i in range(40)] for j in range(2)]), node(0.0003, 0, "int32", [4000, -3000])], [node(0.05, 1)])
        base = {"tflite": [TF[k][0] for k in ("quant", "fc2", "tanhlut", "relu", "tanh")] + [wide, back], "onnx": [OX[k][0] for k in ("quant", "mm", "add", "sigmoid", "tanhlut", "dequant")]}
        x = XS[0]
        for e, ops in base.items():
            table = LAYER if e == "tflite" else dict(OLAYER, TanhLUT=LUTActivation)
            mk = lambda o: table[o["op_type"].upper() if e == "tflite" else o["op_type"]].from_model(o)
            for i in range(1, len(ops)):
                for at, v in leaves({k: ops[i][k] for k in ("inputs", "outputs")}):
                    if at[-2] == "shape":
                        continue
                    o = json.loads(json.dumps(ops[i]))
                    d = o
                    for k in at[:-1]:
                        d = d[k]
                    d[at[-1]] = v * 1.25 if at[-1] == "scale" else (v + 3) % 256 if e == "onnx" and "offset" not in at else v - 3 if "offset" in at else v + 3 if v < 120 else v - 3
                    if e == "tflite" and ops[i] is wide:
                        chain = [ops[0], wide, back, o, back]
                    elif e == "tflite" and ops[i] is back:
                        chain = [ops[0], wide, back, wide, o]
                    else:
                        chain = [ops[0], ops[i], o, ops[i]]
                    w = x
                    try:
                        for p in chain:
                            w = mk(p).infer(w)
                    except IndexError:      # a shifted offset leaves the table
                        continue
                    ctx.equal(np.asarray(SequentialNetwork(json.loads(json.dumps(net(e, chain)))).infer(x)), np.asarray(w), "graph with two operators differing in one number", operator=o["op_type"], at=at)
                    ctx.op(len(chain)); ctx.state((e, i, str(at)))
    elif c["what"] == "files":
        # files rewritten, replaced and removed between loads: every network is what its file said when it was loaded
        d = tempfile.mkdtemp()
        try:
            path, other = os.path.join(d, "net.json"), os.path.join(d, "other.json")
            defs = [net(e, ops) for _, e, ops in list(net_variants())[:5]] + [net("onnx", list(net_variants())[-1][2])]
            x = XS[0]
            want = [np.asarray(SequentialNetwork(json.loads(json.dumps(n))).infer(x)) for n in defs]
            for seq in itertools.product(range(len(defs)), repeat=3):
                kept = []
                for n, k in enumerate(seq):
                    dst = path if n % 2 == 0 else other
                    with open(dst, "w", encoding="utf-8") as fh:
                        json.dump(defs[k], fh)
                    os.utime(dst, (1, 1))
                    if dst == other:
                        os.replace(other, path)
                    kept.append((SequentialNetwork.from_json_file(path), k))
                    for a, q in kept:
                        ctx.equal(np.asarray(a.infer(x)), want[q], "network loaded from a file that held others before", seq=seq)
                        ctx.op()
                os.unlink(path)
                ctx.state(seq)
                for a, q in kept:
                    ctx.equal(np.asarray(a.infer(x)), want[q], "network whose file is gone", seq=seq)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    else:       # graphs of every length up to the bound, each operator once more
        for n in list(range(1, 40)) + [64, 100, 127, 128, 129, 200, 256, 257]:
            shift = [max(-128, min(127, v - 1)) for v in range(-128, 128)]
            ops = [TF["quant"][0]] + [op("TanhLUT", [node(0.02, -4, lut=shift, off=128)], [node(1 / 128, 0)], name="same name") for _ in range(n)]
            x = np.array([[0.5, 6.0, -1.0]])
            q = ref.quantize_bounds(x, 3, 0.05, -128, 127)[0].astype(int)
            net_ = SequentialNetwork(net("tflite", ops))
            ctx.equal(net_.infer(x), np.clip(q - n, -128, 127), f"graph of {n + 1} operators")
            ctx.check(len(net_.layers) == n + 1, "one layer per operator"); ctx.op(n)
        ctx.state("deep")
    ctx.trace()


# ---- the networks stored in the repository
def stored_cases(tier):
    out = []
    for p in stored.networks():
        js = stored.load(p)
        kinds = {o["op_type"].upper() for o in js["graph"]}
        known = {"LSTM", "FULLY_CONNECTED", "QUANTIZE", "DEQUANTIZE", "TANHLUT", "SIGMOIDLUT", "SOFTMAX"} if js["engine"].upper() == "TFLITE" else {"QUANTIZELINEAR", "DEQUANTIZELINEAR", "QLINEARMATMUL", "QLINEARADD", "SIGMOIDLUT", "TANHLUT", "SOFTMAX"}
        # older formats (no cell activation, bare tables) cannot be loaded
        if kinds <= known and all(len(o["inputs"]) >= 32 for o in js["graph"] if o["op_type"].upper() == "LSTM") and not any(isinstance(n.get("LUT"), list) for o in js["graph"] for n in o["inputs"]):
            out.append({"net": p, "deep": tier == "thorough"})
    return out


def onnx_ops(graph):
    """the operators of an ONNX graph as M03's judge reads them"""
    q = lambda n: (n["scale"], n["zero_point"])
    out = []
    for o in graph:
        k, I = o["op_type"], o["inputs"]
        w = {"kind": "QLinearSigmoid" if k == "SigmoidLUT" else k}
        if k in ("QuantizeLinear", "DequantizeLinear"):
            w["q"] = q(I[0])
        elif k == "QLinearMatMul":
            w.update(qi=q(I[0]), qw=q(I[1]), qo=q(I[2]), w=np.array(I[1]["tensor"]["tensor"]).T)
        elif k == "QLinearAdd":
            w.update(qi=q(I[0]), qb=q(I[1]), qo=q(I[2]), b=np.array(I[1]["tensor"]["tensor"]))
        out.append(w)
    return out


def stored_net(c, ctx):
    """every operator of a stored network follows from the codes the engine feeds into it, on enumerated inputs; batches and single samples agree"""
    js = stored.load(c["net"])
    n = SequentialNetwork.from_json_file(os.path.join(stored.REPO, c["net"]))
    ops = js["graph"]
    if js["engine"].upper() == "ONNX":
        i = ops[0]["inputs"][0]
        m = next(o for o in ops if o["op_type"] == "QLinearMatMul")["inputs"][1]["tensor"]["tensor"]
        codes = stored.codes(np.shape(m)[1], c["deep"], 0, 255)
        x = (codes - i["zero_point"]) * i["scale"]
        outs = [np.asarray(o) for o in M03.check_run(ctx, js, onnx_ops(ops), x)]
    else:
        q = ops[0]["op_type"].upper() == "QUANTIZE"
        t = (ops[0]["outputs"][0] if q else js["input"][0])
        rec = next((k for k, o in enumerate(ops) if o["op_type"].upper() == "LSTM"), None)
        first = ops[1 if q else 0]["inputs"]
        F = np.shape(first[1]["tensor"]["tensor"])[0 if rec is not None else 1]
        if rec is None:
            codes = stored.codes(F, c["deep"])
        else:
            # windows: longer ones than 16 steps are cut, the recurrence does not know their length
            W = min(first[0]["tensor"]["shape"][0], 16)
            codes = stored.codes(F * W, c["deep"])
            codes = codes[:40 if not c["deep"] else 400] if len(codes) > 40 else codes
            codes = codes.reshape(len(codes), W, F)
        x = (codes - t["zero_point"]) * t["scale"]
        if rec is None:
            if q:
                x = np.concatenate([x, x + 0.31 * t["scale"], x * 3 - 100 * t["scale"]])
            outs = netref.prefixes(ctx, js, x)
            netref.check_ops(ctx, js, x, c["net"], outs, None if q else codes)
        else:
            outs = netref.prefixes(ctx, js, x)
            prev = x
            for k, o in enumerate(ops):
                if o["op_type"].upper() == "LSTM":
                    K02.explained(ctx, K02.ref_params(o), np.asarray(prev), outs[k], f"{c['net']}: operator {k} LSTM")
                else:
                    netref.check_ops(ctx, {"graph": [o]}, prev, f"{c['net']}: operator {k}", [outs[k]])
                prev = outs[k]
    y = np.asarray(n.infer(x))
    ctx.equal(y, outs[-1], "the network read from its file differs from the network of its description")
    for k in range(0, len(x), max(1, len(x) // 8)):
        ctx.close(np.asarray(n.infer(x[k] if x.ndim < 3 else x[k:k + 1])).reshape(y[k].shape), y[k], np.abs(y[k]) * 1e-9 + 1e-12, "a sample alone differs from the batch")
        ctx.op()
    ctx.equal(np.asarray(n.infer(x)), y, "a second inference differs")
    for o in outs:
        ctx.state(np.asarray(o))
    ctx.trace()


PROP = Property("E09", [
    Scenario("chain", chain_cases, chain, "all operator chains up to a length"),
    Scenario("legacy", quant_cases, legacy, "quantization layer detection and legacy input quantization"),
    Scenario("legacychain", legacy_chain_cases, legacy_chain, "all chains without leading quantization"),
    Scenario("reject", reject_cases, reject, "engines and operator types"),
    Scenario("lstm", lstm_cases, lstm_net, "recurrent networks"),
    Scenario("stored", stored_cases, stored_net, "the JSON networks of the repository, every operator on enumerated input codes"),
    Scenario("history", hist_cases, history, "inference sequences over live networks"),
    Scenario("usage", usage_cases, usage, "ordered pairs of networks differing in one number, refilled buffers, batch lengths, unit axes, near-half inputs, long graphs"),
], "model_checking", "state: network result; transition: one operator executed in a network; trace: one network run in lockstep with the composition of its operators")
