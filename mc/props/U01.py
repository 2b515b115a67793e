import itertools, math, os
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
import ref, netref
from stubs import LAST_QUBO
from itcl_quantizer.equalizers.adaround.adaround import AdaroundNet
from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer
from itcl_quantizer.config.models.keras import QuantizerCfg, RoundingQUBOCfg, KerasDenseCfg
from props import K01, K02
from props.A01 import jkey

WAL = [-1.7, -0.6, -0.01, 0.0, 0.45, 1.3, 1.75]
DATA = {      # dyadic values: nothing is lost in float32
    "mixed": [[-1, 2, 0.5], [0.5, -0.25, 1.0], [3, 0.125, -0.6875], [-2.5, -1.5, 0.1875]],
    "positive": [[0.1875, 1, 0.125], [5, 0.3125, 2.0], [2.5, 4, 1.0]],
    "single": [[0.3125, -0.6875, 1.125]],
    "dead": [[0.0, 0, 1.0], [0.0, 0, -2.0]],
    "high": [[5, 5, 4.5], [5, 0.25, 5], [0.125, 4.75, 5]],
    "low": [[-5, -5, -4.5], [-5, -0.25, -5], [-0.125, -4.75, -5]],
    "ortho": [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]],
}


def options(t):
    """floor and floor + 1 of an exact position; a position within rounding error of an integer may be read as either side"""
    r = round(t)
    return [r - 1, r, r + 1] if abs(t - r) < 1e-12 * max(1, abs(t)) else [math.floor(t), math.floor(t) + 1]


def run(ctx, layers, x, cfg=None, through="net"):
    net = K01.quantize(layers, x, cfg)
    before = net.as_json()
    del LAST_QUBO[:]
    if through == "net":
        AdaroundNet(net, lambda n: 0.0, QUBOAnnealer).round()
    else:
        net = K01.keras_builder.build("m", f"u{os.getpid()}.json", x, lambda n: 0.0, QuantizerCfg(ada_round_net=RoundingQUBOCfg()))
    qubos = [dict(q) for q in LAST_QUBO]
    after = net.as_json()
    y = np.asarray(x, dtype=np.float32).astype(np.float64)
    k = 1
    ctx.check(len(qubos) > 0, "the sampler was never asked")
    for W, B, act in layers:
        W = np.asarray(W, dtype=np.float32).astype(np.float64)
        b = np.zeros(W.shape[1]) if B is None else np.asarray(B, dtype=np.float32).astype(np.float64)
        op0, op = before["graph"][k], after["graph"][k]
        for a, c in zip(op0["inputs"] + op0["outputs"], op["inputs"] + op["outputs"]):
            ctx.check((a["scale"], a["zero_point"]) == (c["scale"], c["zero_point"]), "AdaRound changed quantization parameters")
        (si, *_), (sk, zk, klo, khi), (sb, zb, blo, bhi) = (netref.node(n) for n in op["inputs"])
        n, m = W.shape
        ties = np.any(np.abs(y / si - np.floor(y / si) - 0.5) < 1e-7 * (1 + np.abs(y / si).max()))      # the input's own rounding is not this property's business
        X = np.round(y / si)
        out = y @ W + b
        K = np.asarray(op["inputs"][1]["tensor"]["tensor"], dtype=np.int64)
        Bq = np.asarray(op["inputs"][2]["tensor"]["tensor"], dtype=np.int64)
        for l in range(m):
            mse = lambda kc, bc: float(np.mean((out[:, l] - sk * si * (X @ np.asarray(kc)) - sb * bc) ** 2))
            t, tb = W[:, l] / sk, b[l] / sb
            opts, optb = [options(e) for e in t], options(tb)
            clip = lambda o, lo, hi: min(max(o, lo), hi)
            ctx.check(all(int(c) in [clip(v, klo, khi) for v in o] for c, o in zip(K[l], opts)) and int(Bq[l]) in optb,
                      "a code is neither floor nor ceil", kernel=K[l], options=opts, bias=Bq[l], bias_options=optb, weights=W[:, l])
            exact = all(len(o) == 2 for o in opts + [optb])
            full = all(klo <= v <= khi for o in opts for v in o)
            if ties or not full:
                continue
            # grid points: the floor is the point itself (at worst one step off by the division's rounding)
            sure = [o if len(o) == 2 else [o[1]] for o in opts]
            got = mse(K[l], Bq[l])
            # float32 activations: relative error 1e-7 of the output times one step of the kernel
            noise = 1e-6 * (float(np.sqrt(np.mean(out[:, l] ** 2))) + sk * si) * sk * max(1e-9, float(np.abs(y).max()))
            best = min(mse(kc, bc) for kc in itertools.product(*sure) for bc in (optb if len(optb) == 2 else [optb[1]]))
            ctx.check(got <= best + noise, "the rounding is not the best one of the layer", got=got, best=best, kernel=K[l], bias=Bq[l],
                      weights=W[:, l], scale=[si, sk])
            ctx.op(2 ** (n + 1))
            ctx.state((K[l], int(Bq[l])))
            if not exact:
                continue
            # the problem handed to the sampler: variables are the flags of this neuron, its energy the error up to a constant
            for q in qubos:
                if len({v for p in q for v in p}) != n + 1 or not identical(q, opts, optb, mse, n, noise):
                    continue
                break
            else:
                ctx.check(False, "no problem handed to the sampler has the layer's error as its energy", neuron=l, weights=W[:, l], problems=len(qubos))
            ctx.op(2 ** (n + 1))
        k += 1
        y = K01.stubs.ACT[act](out) if act != "linear" else out
        y = np.asarray(y, dtype=np.float32).astype(np.float64)
        if act in ("tanh", "sigmoid"):
            k += 1
    return net, after


def identical(q, opts, optb, mse, n, noise):
    vs = sorted({v for p in q for v in p})      # kernel flags in order, the bias flag last
    consts = []
    for bits in itertools.product((0, 1), repeat=n + 1):
        val = dict(zip(vs, bits))
        e = sum(c * val[p[0]] * val[p[1]] for p, c in q.items())
        consts.append(mse([o[v] for o, v in zip(opts, bits)], optb[bits[n]]) - e)
    return max(consts) - min(consts) <= noise


def single_cases(tier):
    return [{"w": list(w), "data": d} for w in itertools.product(WAL, repeat=2) for d in DATA]


def single(c, ctx):
    """One layer of two inputs: all weight pairs x biases x data sets."""
    x = np.array(DATA[c["data"]])[:, :2]
    for w2 in WAL:
        for b in (None, [0.3, -0.2], [0.0, 5.0]):
            W = np.array([[c["w"][0], w2], [c["w"][1], 0.8]])
            run(ctx, [(W, b, "linear")], x)
    ctx.trace()


def shape_cases(tier):
    return [{"n": n, "m": m, "act": a, "data": d, "k": k} for n in range(1, 6 if tier == "quick" else 8) for m in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 5)) for a in ("linear", "tanh", "relu", "sigmoid") for d in DATA for k in (("int8", "int4", "int3") if tier == "quick" else ("int8", "int6", "int4", "int3"))]


def shapes(c, ctx):
    n, m = c["n"], c["m"]
    W = np.sin(np.arange(n * m) * 1.7 + 0.6).reshape(n, m) * 1.3
    b = np.cos(np.arange(m) * 2.1) * 0.4
    x = np.array(DATA[c["data"]])
    x = np.hstack([x, x[::-1] * 0.5, np.sin(np.arange(len(x) * 2)).round(1).reshape(-1, 2) * 1.25])[:, :n]
    x = np.round(x * 64) / 64
    cfg = K01.QuantizerCfg(dense=KerasDenseCfg(**dict(K01.DCFG, kernel_dtype=c["k"])))
    run(ctx, [(W, b, c["act"])], x, cfg)
    ctx.trace()


def net_cases(tier):
    return [{"acts": list(a), "through": t, "data": d} for a in itertools.product(("linear", "tanh", "relu"), repeat=2) for t in ("net", "build") for d in ("mixed", "positive")]


def nets(c, ctx):
    x = np.array(DATA[c["data"]])[:, :2]
    layers = [([[0.9, -1.1], [-0.4, 0.6]], [0.1, -0.2], c["acts"][0]), ([[0.7, 0.3, -0.5], [-1.2, 0.2, 0.9]], [0.05, 0.0, 0.4], c["acts"][1])]
    net, js = run(ctx, layers, x, through=c["through"])
    netref.check_ops(ctx, js, x)
    ctx.trace()


def data_size_cases(tier):
    ns = [*range(1, 41), 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300, 511, 512, 513, 600] + ([1000, 1024, 1025, 2000, 2048, 2049] if tier == "thorough" else [])
    return [{"rows": n, "where": w} for n in ns for w in ("first", "last", "middle", "odd", "all")]


def data_sizes(c, ctx):
    """Data sets of every size whose information sits anywhere: the other rows are zero."""
    n = c["rows"]
    info = np.round(np.array([[np.sin(3.1 * i + 0.4), np.cos(1.7 * i) * 2] for i in range(n)]) * 64) / 64
    keep = {"first": [0], "last": [n - 1], "middle": [n // 2], "odd": list(range(1, n, 2)) or [0], "all": list(range(n))}[c["where"]]
    x = np.zeros((n, 2)); x[keep] = info[keep]
    x[keep[0]] = [1.25, -0.6875]
    run(ctx, [([[0.83, -0.47], [-0.29, 0.61]], [0.13, -0.21], "linear")], x)
    ctx.trace()


def magnitude_cases(tier):
    P = [-18, -9, 0, 7, 12] if tier == "quick" else [-27, -18, -9, -4, 0, 4, 7, 12, 18]
    return [{"x": a, "w": b, "data": d, "k": k} for a in P for b in P for d in DATA for k in (("int8", "int4") if tier == "quick" else ("int8", "int6", "int4", "int3"))]


def magnitudes(c, ctx):
    """Inputs and weights of all magnitudes (powers of two): coefficients of any size matter."""
    x = np.array(DATA[c["data"]]) * 2.0 ** c["x"]
    W = np.array([[0.9, -0.31, 0.4], [0.23, 0.77, -0.15], [-0.51, 0.08, 0.66]]) * 2.0 ** c["w"]
    cfg = K01.QuantizerCfg(dense=KerasDenseCfg(**dict(K01.DCFG, kernel_dtype=c["k"])))
    for b in (None, np.array([0.31, -0.2, 0.07]) * 2.0 ** (c["x"] + c["w"])):
        run(ctx, [(W, b, "linear")], x, cfg)
    ctx.trace()


def many_cases(tier):
    return [{"n": n, "m": m} for n, m in [(1, 7), (1, 40), (2, 9), (2, 33), (3, 16), (4, 12), (6, 3), (7, 2), (8, 2), (9, 1), (10, 1)] + ([(1, 130), (2, 65), (2, 129), (3, 70), (8, 13), (11, 2), (12, 1)] if tier == "thorough" else [])]


def many(c, ctx):
    """Many neurons and many inputs per neuron."""
    n, m = c["n"], c["m"]
    W = np.sin(np.arange(n * m) * 1.9 + 0.3).reshape(n, m)
    x = np.round(np.sin(np.arange(5 * n) * 1.1 + 0.2).reshape(5, n) * 64) / 64
    cfg = K01.QuantizerCfg(dense=KerasDenseCfg(**dict(K01.DCFG, kernel_dtype="int4")))
    for k in (None, cfg):
        run(ctx, [(W, np.cos(np.arange(m) * 0.9) * 0.4, "linear")], x, k)
    ctx.trace()


def wide_cases(tier):
    return [{"n": n, "m": m, "k": k} for n, m in [(11, 3), (12, 3), (16, 2), (20, 2), (31, 3), (32, 2), (33, 3), (48, 2), (64, 3)] + ([(65, 4), (100, 2), (128, 3), (129, 2), (200, 2)] if tier == "thorough" else []) for k in ("int8", "int4")]


def wide(c, ctx):
    """Wide layers whose samples each see three inputs: given the bias the groups are independent, and the best rounding is known exactly."""
    n, m = c["n"], c["m"]
    W = np.round(np.sin(np.arange(n * m) * 1.9 + 0.3).reshape(n, m) * 1024) / 1024
    W[:2, 0] = 1.3, -1.3      # the first neuron has the ends of the range, where floor and ceil need not both exist
    groups = [list(range(g, min(g + 3, n))) for g in range(0, n, 3)]
    rows, owner = [], []
    for g, idx in enumerate(groups):
        for r in range(4):
            v = np.zeros(n)
            v[idx] = np.round(np.sin(np.arange(len(idx)) * 2.3 + g * 1.1 + r * 0.7) * 64) / 64
            rows.append(v); owner.append(g)
    x, owner = np.array(rows), np.array(owner)
    x[0, 0], x[1, 0] = 1.5, -1.5
    seen = 0
    b = np.round(np.cos(np.arange(m) * 0.9) * 0.4 * 1024) / 1024
    net = K01.quantize([(W, b, "linear")], x, K01.QuantizerCfg(dense=KerasDenseCfg(**dict(K01.DCFG, kernel_dtype=c["k"]))))
    AdaroundNet(net, lambda n: 0.0, QUBOAnnealer).round()
    op = net.as_json()["graph"][1]
    (si, *_), (sk, zk, klo, khi), (sb, *_) = (netref.node(o) for o in op["inputs"])
    X = np.round(x / si)
    out = x @ W + b
    K, Bq = (np.asarray(op["inputs"][i]["tensor"]["tensor"], dtype=np.int64) for i in (1, 2))
    for l in range(m):
        def err(idx, g, kc, bc):
            r = owner == g
            return float(np.sum((out[r, l] - sk * si * (X[r][:, idx] @ np.asarray(kc)) - sb * bc) ** 2))
        opts, optb = [options(e) for e in W[:, l] / sk], options(b[l] / sb)
        clip = lambda v: min(max(v, klo), khi)
        ctx.check(all(int(k) in [clip(v) for v in o] for k, o in zip(K[l], opts)) and int(Bq[l]) in optb, "a code is neither floor nor ceil", neuron=l)
        if any(not klo <= v <= khi for o in opts for v in o):
            continue
        seen += 1
        sure = [o if len(o) == 2 else [o[1]] for o in opts]
        got = sum(err(idx, g, K[l][idx], Bq[l]) for g, idx in enumerate(groups)) / len(x)
        best = min(sum(min(err(idx, g, kc, bc) for kc in itertools.product(*[sure[i] for i in idx])) for g, idx in enumerate(groups)) / len(x) for bc in (optb if len(optb) == 2 else [optb[1]]))
        noise = 1e-6 * (float(np.sqrt(np.mean(out[:, l] ** 2))) + sk * si) * sk * float(np.abs(x).max())
        ctx.check(got <= best + noise, f"the rounding of a layer of {n} inputs is not the best one", got=got, best=best, neuron=l)
        ctx.op(2 * 8 * len(groups)); ctx.state((K[l], int(Bq[l])))
    ctx.check(seen == m - 1, "a neuron was not judged", seen=seen)
    ctx.trace()


ZOO = [
    ([([[0.83, -0.47], [-0.29, 0.61]], [0.13, -0.21], "linear")], "mixed"),
    ([([[-0.4, 0.2], [0.9, -0.7]], [0.5, 0.25], "linear")], "mixed"),                   # same shapes and data, other weights
    ([([[0.83, -0.47], [-0.29, 0.61]], [0.13, -0.21], "linear")], "flip"),              # same weights, other data of the same range
    ([([[0.83, -0.47], [-0.29, 0.61]], None, "tanh")], "mixed"),
    ([([[0.83], [-0.29]], [0.13], "relu"), ([[0.37, -0.6, 0.2]], [0.1, -0.2, 0.3], "linear")], "mixed"),
]


def order_cases(tier):
    return [{"seq": list(s)} for s in itertools.product(range(len(ZOO)), repeat=2 if tier == "quick" else 3)]


def order(c, ctx):
    """Networks optimized one after the other: none depends on what was optimized before, earlier ones stay as they were."""
    kept = []
    for i in c["seq"]:
        layers, d = ZOO[i]
        x = np.array(DATA["mixed"])[:, :2]
        if d == "flip":
            x = np.vstack([x[0], x[2], x[3], x[1] * 0.5])
        net, js = run(ctx, layers, x)
        for n, k in kept:
            ctx.check(jkey(n.as_json()) == k, "optimizing another network changed this one")
        kept.append((net, jkey(js)))
    ctx.trace()


def lstm_cases(tier):
    return [{"units": u, "feats": f} for u in (1, 2) for f in (1, 2)]


def lstms(c, ctx):
    """LSTM layers have no QUBO formulation: they keep their rounding, the dense layers around them are optimized."""
    x = K02.windows("mixed", 3, c["feats"])
    net = K02.quantize([("lstm", K02.weights(c["feats"], c["units"]), False), ("dense", [[0.9, -1.1]] * c["units"], [0.1, -0.2], "tanh")], x)
    before = net.as_json()
    AdaroundNet(net, lambda n: 0.0, QUBOAnnealer).round()
    after = net.as_json()
    i = [k for k, o in enumerate(before["graph"]) if o["op_type"].upper() == "LSTM"][0]
    ctx.check(jkey(before["graph"][i]) == jkey(after["graph"][i]), "the LSTM changed")
    ctx.op(); ctx.state(jkey(after["graph"][i + 1])); ctx.trace()


PROP = Property("U01", [
    Scenario("single", single_cases, single, "all weights of a two-input layer over an alphabet x data sets"),
    Scenario("shapes", shape_cases, shapes, "layer shapes x activations x kernel widths x data sets"),
    Scenario("nets", net_cases, nets, "two-layer networks, through the optimizer and the builder"),
    Scenario("data-sizes", data_size_cases, data_sizes, "data set sizes x position of the informative rows"),
    Scenario("magnitudes", magnitude_cases, magnitudes, "input and weight magnitudes x kernel widths x data sets"),
    Scenario("many", many_cases, many, "many neurons and inputs"),
    Scenario("wide", wide_cases, wide, "layers of up to 64 (200) inputs whose best rounding decomposes"),
    Scenario("order", order_cases, order, "all pairs (triples) of networks one after the other"),
    Scenario("lstm", lstm_cases, lstms, "networks with LSTM layers"),
], "model_checking", "state: optimized codes of one neuron; transition: one rounding vector of a neuron evaluated against the float layer; trace: one optimized network")
