import itertools, os
import numpy as np
import stubs; stubs.install()
import robust
from kit import Property, Scenario
import ref, netref
from stubs import Dense, Model, MODELS, InputLayer, Dropout
from itcl_quantizer.tensor_extractor.keras import keras_builder
from itcl_quantizer.config.models.keras import QuantizerCfg, KerasDenseCfg, QuantizeCfg

ACTS = ["linear", "relu", "relu6", "tanh", "sigmoid", "softmax"]
A = [-2.0, -0.3, 0.0, 0.7]
DATA = {
    "mixed": [[-1, 2], [0.5, -0.25], [3, 0.1], [-2.5, -1.5]],
    "positive": [[0.2, 1], [5, 0.3], [2.5, 4]],
    "negative": [[-0.2, -1], [-5, -0.3], [-2.5, -4]],
    "wide": [[-100, 0.001], [37, 80], [0.5, -0.5]],
    "narrow": [[0.001, -0.002], [0.003, 0.0005], [-0.001, 0.002]],
    "single": [[0.3, -0.7]],
    "dead": [[0, 0], [0, 0]],
    "dense": [[a / 3, b / 2] for a in range(-4, 5) for b in range(-3, 4)],
}
DCFG = dict(activation_dtype="int8", bias_add_dtype="int8", bias_dtype="int32", kernel_dtype="int8", kernel_symmetric=False)


def data(name, n):
    x = np.array(DATA[name], dtype=np.float64)
    return np.stack([x[:, j % 2] * (1 if j < 2 else 0.5) for j in range(n)], axis=1)


def quantize(layers, x, cfg=None, junk=False):
    ls = []
    for w, b, act in layers:
        ls.append(Dense(np.shape(w)[1], act, use_bias=b is not None, weights=[np.array(w)] + ([np.array(b)] if b is not None else []), name=f"L{len(ls)}"))
    if junk:
        ls = [InputLayer(name="input_1")] + [l for d in ls for l in (d, Dropout(name="drop"))]
    MODELS["m"] = Model(ls)
    return keras_builder.build("m", f"out{os.getpid()}.json", x, None, cfg if cfg is not None else QuantizerCfg())


def within(ctx, v, data, s, msg, **kw):
    """s is the tight scale of the range [min(data,0), max(data,0)] over the dtype (constant data is free)."""
    ctx.check(s > 0 and np.isfinite(s), msg + ": scale", s=s, **kw)


def check_range(ctx, n, data, msg, fused=None):
    s, z, lo, hi = netref.node(n)
    ctx.check(s > 0 and np.isfinite(s) and lo <= z <= hi, msg + ": parameters out of range", scale=s, zp=z)
    d = np.asarray(data, dtype=np.float64)
    a, b = min(d.min(), 0.0), max(d.max(), 0.0)
    ctx.check((lo - z) * s <= a + s * 0.5001 and (hi - z) * s >= b - s * 0.5001, msg + ": the calibration range does not fit", scale=s, zp=z, range=[a, b])
    if d.max() > d.min():
        tight = (b - a) / (hi - lo)
        ctx.check(abs(s - tight) <= 1e-5 * tight, msg + ": the scale is not the tight one", scale=s, tight=tight)


def verify(ctx, net, layers, x, cfgs, qdt):
    """Structure of the JSON, integer semantics of every operator, and the analytic error bound on the calibration data."""
    js = net.as_json()
    g = js["graph"]
    want = ["QUANTIZE"]
    for _, _, act in layers:
        want.append("FULLY_CONNECTED")
        if act in ("tanh", "sigmoid"):
            want.append(act.upper() + "LUT")
    want.append("DEQUANTIZE")
    ctx.check([o["op_type"].upper() for o in g] == want, "operators of the network", got=[o["op_type"] for o in g], want=want)
    outs = netref.check_ops(ctx, js, x)
    # input
    y = np.asarray(x, dtype=np.float64)
    n = g[0]["outputs"][0]
    ctx.check(n["tensor"]["dtype"] == qdt, "input dtype", got=n["tensor"]["dtype"])
    check_range(ctx, n, y, "input node")
    e = np.full(y.shape, netref.node(n)[0])
    ctx.check(np.all(np.abs(netref.real(outs[0], n) - y) <= e * 1.001), "input codes are off by more than a step")
    k = 1
    for (W, B, act), c in zip(layers, cfgs):
        W = np.asarray(W, dtype=np.float32).astype(np.float64)
        b = np.zeros(W.shape[1]) if B is None else np.asarray(B, dtype=np.float32).astype(np.float64)
        op = g[k]
        i_n, k_n, b_n = op["inputs"]; o_n = op["outputs"][0]
        ctx.check((i_n["scale"], i_n["zero_point"]) == (n["scale"], n["zero_point"]), "the input node is the output of the previous operator")
        sk, zk, klo, khi = netref.node(k_n)
        ctx.check(k_n["tensor"]["dtype"] == c["kernel_dtype"] and zk == 0, "kernel node", got=(k_n["tensor"]["dtype"], zk))
        wq = np.asarray(k_n["tensor"]["tensor"], dtype=np.int64)
        a_, b_ = ref.quantize_bounds(W.T, 0, sk, klo, khi)
        netref.between(ctx, wq, a_, b_, "kernel codes")
        m = np.abs(W).max()
        if W.max() > W.min():
            tight = m / (khi if c["kernel_symmetric"] else -klo)
            ctx.check(abs(sk - tight) <= 1e-5 * tight, "kernel scale is not the tight one", got=sk, tight=tight, sym=c["kernel_symmetric"])
        ctx.check(np.all(np.abs(wq * sk - W.T) <= sk * (0.5001 if c["kernel_symmetric"] else 1.0001)), "kernel codes are off by more than a step")
        sb, zb, blo, bhi = netref.node(b_n)
        si = netref.node(i_n)[0]
        ctx.check(b_n["tensor"]["dtype"] == c["bias_dtype"] and zb == 0 and abs(sb - si * sk) <= 1e-9 * si * sk, "bias node", got=(b_n["tensor"]["dtype"], zb, sb), want=si * sk)
        bq = np.asarray(b_n["tensor"]["tensor"], dtype=np.int64)
        a_, b_ = ref.quantize_bounds(b, 0, sb, blo, bhi)
        netref.between(ctx, bq, a_, b_, "bias codes")
        # floats
        xin = y
        y = np.float32(xin).astype(np.float32) @ W.astype(np.float32) + b.astype(np.float32)
        y = y.astype(np.float64)
        dW = np.abs(wq.T * sk - W)
        e = e @ np.abs(W) + (np.abs(xin) + e) @ dW + np.abs(bq * sb - b)
        so, zo, olo, ohi = netref.node(o_n)
        ctx.check(o_n["tensor"]["dtype"] == c["bias_add_dtype"] and list(o_n["tensor"]["shape"]) == [W.shape[1]], "bias add node", got=o_n["tensor"])
        pre = netref.FN[act](y) if act in ("relu", "relu6") else y
        if act in ("relu", "relu6"):
            ctx.check(zo == olo, "a fused RELU saturates below 0", zp=zo)
            if pre.max() > 0:
                tight = pre.max() / (ohi - olo)
                ctx.check(abs(so - tight) <= 1e-5 * tight, "the scale of a fused RELU is not the tight one", got=so, tight=tight)
        else:
            check_range(ctx, o_n, y, "bias add node")
        e = e + so * 1.001 + 1e-5 * np.abs(y)
        err = np.abs(netref.real(outs[k], o_n) - pre)
        ctx.check(np.all(err <= e), "fully connected result is further from the float layer than its scales allow", err=float((err - e).max()), step=so, op=k)
        y, n = pre, o_n
        k += 1
        if act in ("tanh", "sigmoid"):
            op = g[k]
            n = op["outputs"][0]
            y = netref.FN[act](y)
            s = netref.node(n)[0]
            ctx.check(n["tensor"]["dtype"] == c["activation_dtype"] and list(n["tensor"]["shape"]) == [W.shape[1]], "activation node", got=n["tensor"])
            check_range(ctx, n, y, "activation node")
            e = e * netref.LIP[act] + s * 1.001 + 1e-5
            err = np.abs(netref.real(outs[k], n) - y)
            ctx.check(np.all(err <= e), "activation result is further from the float layer than its scales allow", err=float((err - e).max()), step=s, op=k)
            k += 1
    ctx.check(np.all(np.abs(outs[-1] - y) <= e + 1e-6), "network result is further from the float model than its scales allow")
    ctx.equal(net.as_sequential_network().infer(x), outs[-1], "as_sequential_network")
    ctx.state([np.asarray(o) for o in outs])
    ctx.trace()


def run(ctx, layers, x, cfg=None, cfgs=None, qdt="int8", junk=False):
    xin = np.array(x, copy=True)
    net = quantize(layers, x, cfg, junk)
    ctx.op(); ctx.check(np.array_equal(xin, x), "representative data modified")
    verify(ctx, net, layers, x, cfgs or [DCFG] * len(layers), qdt)


# ------------------------------------------------------------ scenarios
def weights_cases(tier):
    return [{"act": a, "b": b, "data": d} for a in ACTS for b in (None, [0.0, 0.0], [0.4, -1.5]) for d in (["mixed"] if tier == "quick" else ["mixed", "positive", "wide", "dense"])]


def weights(c, ctx):
    x = data(c["data"], 2)
    al = A if c["data"] == "mixed" else A + [1.3]
    for w in itertools.product(al, repeat=4):
        run(ctx, [(np.reshape(w, (2, 2)), c["b"], c["act"])], x)


def shape_cases(tier):
    return [{"n": n, "m": m, "act": a} for n in (1, 2, 3, 5) for m in (1, 2, 4) for a in ACTS]


def shapes(c, ctx):
    n, m = c["n"], c["m"]
    for d in DATA:
        for seed in range(3):
            w = np.array([A[(i * 7 + j * 3 + seed + i * j) % 4] + 0.01 * (i - j) for i in range(n) for j in range(m)]).reshape(n, m)
            for b in (None, [0.05 * j - 0.1 for j in range(m)]):
                run(ctx, [(w, b, c["act"])], data(d, n))


W1, B1 = [[0.9, -1.1, 0.25], [-0.4, 0.6, 1.7]], [0.1, -0.2, 0.3]
W2, B2 = [[0.5, -0.7], [1.3, 0.2], [-0.6, 0.9]], [-0.05, 0.4]
W3, B3 = [[1.2, -0.8, 0.3], [0.4, 0.5, -1.6]], [0.0, 0.15, -0.3]
W4, B4 = [[-0.5, 0.7], [1.1, -0.2], [0.6, 0.9]], [0.2, -0.1]
STACK = [(W1, B1), (W2, B2), (W3, B3), (W4, B4)]


def chain_cases(tier):
    n = 3 if tier == "quick" else 4
    return [{"first": a, "n": n} for a in itertools.product(ACTS, repeat=2)]


def chains(c, ctx):
    for extra in range(0, c["n"] - 1):
        for rest in itertools.product(ACTS, repeat=extra):
            acts = list(c["first"]) + list(rest)
            for d in ("mixed", "positive", "negative", "dead") if ctx.tier == "quick" else DATA:
                run(ctx, [(w, b, a) for (w, b), a in zip(STACK, acts)], data(d, 2), junk=d == "mixed")


def config_cases(tier):
    ks = ["int4", "int8", "int16"]
    return [{"k": k, "sym": s, "ba": b, "ad": a} for k in ks for s in (False, True) for b in ks for a in ["int4", "int8", "uint8"]]


def configs(c, ctx):
    """Every dtype configuration, global and per layer."""
    dense = dict(kernel_dtype=c["k"], kernel_symmetric=c["sym"], bias_add_dtype=c["ba"], activation_dtype=c["ad"], bias_dtype="int32")
    for qdt in ("int4", "int8", "int16", "uint8"):
        for acts in (("tanh", "linear"), ("relu", "sigmoid"), ("sigmoid", "relu6"), ("linear", "tanh")):
            if c["k"] == "int16" and "int16" in (qdt, c["ba"]):
                continue            # accumulators are 32 bit: at most one 16 bit operand
            if c["ba"] == "int16" and any(a in ("tanh", "sigmoid") for a in acts) and ctx.tier == "quick" and qdt != "int8":
                continue
            layers = [(W1, B1, acts[0]), (W2, B2, acts[1])]
            x = data("mixed", 2)
            run(ctx, layers, x, QuantizerCfg(dense=KerasDenseCfg(**dense), quantize=QuantizeCfg(dtype=qdt)), [dense, dense], qdt)
            if qdt == "int8":
                for who in ("L0", "L1"):
                    spec = QuantizerCfg(specific_layers={who: KerasDenseCfg(**dense)})
                    run(ctx, layers, x, spec, [dense if who == "L0" else DCFG, dense if who == "L1" else DCFG], "int8")
                    glob = QuantizerCfg(dense=KerasDenseCfg(**dense), specific_layers={who: KerasDenseCfg(kernel_symmetric=True)})
                    other = dict(DCFG, kernel_symmetric=True)
                    run(ctx, layers, x, glob, [other if who == "L0" else dense, other if who == "L1" else dense], "int8")


def history_cases(tier):
    return [{"n": 3 if tier == "quick" else 4}]


def history(c, ctx):
    """Quantizing networks one after another: no parameters of one reach another."""
    kinds = [([(W1, B1, "tanh"), (W2, B2, "linear")], "mixed"), ([(W1, B1, "relu"), (W2, B2, "sigmoid")], "positive"), ([(W3, B3, "linear")], "negative"),
             ([(W1, None, "relu6")], "wide")]
    for seq in itertools.product(range(len(kinds)), repeat=c["n"]):
        nets = [(quantize(kinds[i][0], data(kinds[i][1], 2)), kinds[i]) for i in seq]
        for net, (layers, d) in nets:
            verify(ctx, net, layers, data(d, 2), [DCFG] * len(layers), "int8")


def samples_cases(tier):
    return [{"where": w, "acts": a} for w in ("first", "third", "last", "spread") for a in (("tanh", "linear"), ("relu", "sigmoid"), ("relu6", "softmax"))]


def samples(c, ctx):
    """Calibration sets of every size with the extreme sample anywhere in them: the parameters cover all of it."""
    layers = [(W1, B1, c["acts"][0]), (W2, B2, c["acts"][1])]
    for n in robust.sizes(ctx.tier, 12 if ctx.tier == "quick" else 100):
        x = np.stack([np.sin(np.arange(n) * 1.3), np.cos(np.arange(n) * 0.7)], axis=1) * 0.4
        k = {"first": 0, "third": n // 3, "last": n - 1, "spread": n // 2}[c["where"]]
        x[k] = [2.5, -3.0]
        if c["where"] == "spread":
            x[n - 1] = [-4.0, 1.0]
        run(ctx, layers, x)


def width_cases(tier):
    return [{"act": a, "axis": x} for a in ("linear", "relu", "tanh") for x in ("in", "out", "both")]


def widths(c, ctx):
    """Layers of every width with the largest weight anywhere in the kernel."""
    ws = list(range(1, 40)) + [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300] + ([511, 512, 513, 1000] if ctx.thorough else [])
    for w in ws:
        n, m = {"in": (w, 2), "out": (2, w), "both": (w, w)}[c["axis"]]
        if n * m > 20000 and not ctx.thorough:
            continue
        base = np.sin(np.arange(n * m) * 0.77).reshape(n, m) * 0.3 / np.sqrt(n)
        x = np.sin(np.arange(6 * n) * 0.31).reshape(6, n) * 2
        for i, j in {(0, 0), (n - 1, m - 1), (n - 1, 0), (n // 2, m // 2)}:
            k = base.copy(); k[i, j] = -0.9
            run(ctx, [(k, np.cos(np.arange(m)) * 0.2, c["act"])], x)


PROP = Property("K01", [
    Scenario("weights", weights_cases, weights, "all 2x2 kernels over an alphabet x activations x biases"),
    Scenario("shapes", shape_cases, shapes, "layer shapes x calibration data sets"),
    Scenario("chains", chain_cases, chains, "all activation chains up to length 3 (4)"),
    Scenario("configs", config_cases, configs, "all dtype configurations, global and per layer"),
    Scenario("samples", samples_cases, samples, "calibration set sizes x position of the extremes"),
    Scenario("widths", width_cases, widths, "layer widths x position of the largest weight"),
    Scenario("history", history_cases, history, "several live networks"),
], "model_checking", "state: codes after every operator for the calibration data; transition: one operator executed on the engine; trace: one quantized network checked operator by operator against the float model")
