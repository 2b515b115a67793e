import itertools, json
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from keras2json import convert

SPECIAL = np.array([0.0, -0.0, 1.5, -2.25, 1e-45, -3.4e38, 3.4e38, 0.1, 1 / 3, -1e-20, 7.0, 123456.789], dtype=np.float32)


def values(shape, seed):
    n = int(np.prod(shape))
    return np.resize(np.roll(SPECIAL, seed), n).reshape(shape) + np.float32(0)


def act(name):
    f = stubs.ACT[name]
    return f


class KLayer(stubs.Layer):
    def __init__(self, name, weights=(), **kw):
        self.name, self._w = name, [np.asarray(w) for w in weights]
        self.cfg = dict(kw, name=name)
        self.__dict__.update(kw)

    def get_config(self):
        return {k: getattr(v, "__name__", v) for k, v in self.cfg.items()}


def klass(n):
    base = getattr(stubs, {"MaxPooling2D": "MaxPool2D"}.get(n, n), None)      # (isinstance works as with keras.layers)
    return type(n, (KLayer,) + ((base,) if base else ()), {})


# the class names Keras uses
K = {n: klass(n) for n in ("Dense", "LSTM", "Conv2D", "Flatten", "MaxPooling2D", "InputLayer", "Dropout", "Input")}
OTHERS = {n: klass(n) for n in ("GRU", "SimpleRNN", "BatchNormalization", "Embedding", "AveragePooling2D", "Reshape", "Add", "Softmax", "ReLU", "Conv1D", "DepthwiseConv2D",
                                "SeparableConv2D", "Conv2DTranspose", "ConvLSTM2D", "MaxPooling1D", "GlobalMaxPooling2D", "Bidirectional", "TimeDistributed", "DenseFeatures", "MaxPooling3D")}


def dense(i, n=2, m=3, bias=True, a="relu"):
    w = [values((n, m), i)] + ([values((m,), i + 3)] if bias else [])
    return K["Dense"](f"dense_{i}", w, units=m, use_bias=bias, activation=act(a))


def conv(i, bias=True, padding="valid", strides=(1, 1), a="relu", shape=(2, 3, 2, 4)):
    w = [values(shape, i)] + ([values((shape[-1],), i + 5)] if bias else [])
    return K["Conv2D"](f"conv_{i}", w, filters=shape[-1], kernel_size=shape[:2], strides=strides, padding=padding, use_bias=bias, activation=act(a), data_format="channels_last", dilation_rate=(1, 1), groups=1)


def pool(i, size=(2, 2), strides=None, padding="valid"):
    return K["MaxPooling2D"](f"pool_{i}", [], pool_size=size, strides=strides or size, padding=padding, data_format="channels_last")


def lstm(i, units=2, feats=3, seq=False, steps=4, bias=True):
    w = [values((feats, 4 * units), i), values((units, 4 * units), i + 1)] + ([values((4 * units,), i + 2)] if bias else [])
    return K["LSTM"](f"lstm_{i}", w, units=units, return_sequences=seq, use_bias=bias, activation=act("tanh"), recurrent_activation=act("sigmoid"), _batch_input_shape=(None, steps, feats),
                     batch_input_shape=(None, steps, feats))


KINDS = {
    "input": lambda i: K["InputLayer"](f"in_{i}"),
    "dropout": lambda i: K["Dropout"](f"drop_{i}", rate=0.5),
    "dense": lambda i: dense(i),
    "dense0": lambda i: dense(i, 3, 2, False, "tanh"),
    "conv": lambda i: conv(i),
    "conv0": lambda i: conv(i, False, "same", (2, 1), "linear"),
    "flatten": lambda i: K["Flatten"](f"flat_{i}"),
    "pool": lambda i: pool(i),
    "lstm": lambda i: lstm(i),
    "lstmseq": lambda i: lstm(i, 1, 2, True, 3),
}


def tensor(ctx, node, want, msg):
    t = node["tensor"]
    ctx.check(node["scale"] is None and node["zero_point"] is None, msg + ": a float tensor has quantization parameters")
    ctx.check(list(t["shape"]) == list(want.shape), f"{msg}: shape {t['shape']}, expected {list(want.shape)}")
    got = np.array(t["tensor"], dtype=np.float64)
    ctx.check(got.shape == want.shape and np.array_equal(got, want.astype(np.float64), equal_nan=True), msg + ": values", got=got.ravel()[:8], want=want.ravel()[:8])
    n = ~np.isnan(got)
    ctx.check(np.array_equal(np.signbit(got)[n], np.signbit(want)[n]), msg + ": sign of zero")
    ctx.check("float" in str(t["dtype"]), msg + ": dtype")


def attr(op, k):
    return op["attributes"][k]["value"]


def check_layer(ctx, layer, ops):
    """consume the operators of one layer"""
    kind = type(layer).__name__
    msg = layer.name
    if kind in ("InputLayer", "Dropout", "Input"):
        return
    op = next(ops)
    w = layer._w
    if kind == "Dense":
        ctx.check(op["op_type"] == "FULLY_CONNECTED_F" and op["name"] == layer.name, f"{msg}: operator", got=[op["op_type"], op["name"]])
        ctx.check(len(op["inputs"]) == 2, f"{msg}: inputs")
        tensor(ctx, op["inputs"][0], w[0].T, msg + " kernel")
        tensor(ctx, op["inputs"][1], w[1] if len(w) > 1 else np.zeros(w[0].shape[1]), msg + " bias")
        # the operator is the layer: y = W x + b
        x = np.array([np.resize([1.0, -2.0, 0.5], w[0].shape[0])])
        with np.errstate(all="ignore"):
            got = x @ np.array(op["inputs"][0]["tensor"]["tensor"]).T + np.array(op["inputs"][1]["tensor"]["tensor"])
            want = x @ w[0].astype(float) + (w[1] if len(w) > 1 else 0)
        if np.isfinite(want).all():
            ctx.close(got, want, np.abs(want) * 1e-9 + 1e30 * (np.abs(x).sum() * np.abs(w[0]).max(initial=0) > 1e37) + 1e-9 * (np.abs(x) @ np.abs(w[0].astype(float))), msg + ": result of the operator")
        a = next(ops)
        ctx.check(a["op_type"].upper().removesuffix("_F") == layer.activation.__name__.upper() and not a["inputs"], f"{msg}: activation", got=a["op_type"])
    elif kind == "Conv2D":
        ctx.check(op["op_type"] == "CONV_2D_F" and len(op["inputs"]) == 2, f"{msg}: operator")
        tensor(ctx, op["inputs"][0], w[0], msg + " kernel")
        tensor(ctx, op["inputs"][1], w[1] if len(w) > 1 else np.zeros(w[0].shape[-1]), msg + " bias")
        ctx.check(attr(op, "strides") == list(layer.strides) and attr(op, "padding") == [int(layer.padding == "same")], f"{msg}: attributes", got=op["attributes"])
        a = next(ops)
        ctx.check(a["op_type"].upper().removesuffix("_F") == layer.activation.__name__.upper() and not a["inputs"], f"{msg}: activation", got=a["op_type"])
    elif kind == "MaxPooling2D":
        ctx.check(op["op_type"] == "MAXPOOLING_2D_F" and not op["inputs"], f"{msg}: operator")
        ctx.check(attr(op, "strides") == list(layer.strides) and attr(op, "pool_size") == list(layer.pool_size) and attr(op, "padding") == [int(layer.padding == "same")], f"{msg}: attributes", got=op["attributes"])
    elif kind == "Flatten":
        ctx.check(op["op_type"] == "FLATTEN" and not op["inputs"], f"{msg}: operator")
    elif kind == "LSTM":
        ctx.check(op["op_type"] == "LSTM_F" and len(op["inputs"]) == 15, f"{msg}: operator", inputs=len(op["inputs"]))
        u = layer.units
        tensor(ctx, op["inputs"][12], w[0].T, msg + " kernel")
        tensor(ctx, op["inputs"][13], w[1].T, msg + " recurrent kernel")
        tensor(ctx, op["inputs"][14], w[2] if len(w) > 2 else np.zeros(4 * u), msg + " bias")
        ctx.check(attr(op, "units") == [u] and attr(op, "return_sequences") == [layer.return_sequences] and attr(op, "steps") == [layer._batch_input_shape[1]], f"{msg}: attributes", got=op["attributes"])


def check_net(ctx, layers):
    before = [[w.copy() for w in l._w] for l in layers]
    model = stubs.Model(layers)
    js = convert(model)
    text = json.dumps(js)
    back = json.loads(text)
    ctx.check({k: v for k, v in back.items()} == json.loads(json.dumps(js)), "not serializable")
    ctx.check(back["operators"] == len(back["graph"]), "number of operators", got=back["operators"], graph=len(back["graph"]))
    ops = iter(back["graph"])
    for l in layers:
        try:
            check_layer(ctx, l, ops)
        except StopIteration:
            ctx.check(False, f"the operators of {l.name} are missing")
    ctx.check(next(ops, None) is None, "more operators than the layers have")
    ctx.check(all(np.array_equal(a, b, equal_nan=True) for l, w in zip(layers, before) for a, b in zip(l._w, w)), "the conversion changed the model")
    ctx.state([l.name for l in layers]); ctx.op(len(back["graph"])); ctx.trace()
    return back


def chain_cases(tier):
    return [{"head": []}] + [{"head": [k]} for k in KINDS] + [{"head": list(h)} for h in itertools.product(KINDS, repeat=2)]


def chains(c, ctx):
    """every sequence of layers: the operators are those of the layers, in order"""
    h = c["head"]
    depth = (2 if not ctx.thorough else 3) if len(h) == 2 else 0
    for n in range(depth + 1):
        for t in itertools.product(KINDS, repeat=n):
            ls = [KINDS[k](i) for i, k in enumerate(h + list(t))]
            a = check_net(ctx, ls)
            if n == 0:
                b = check_net(ctx, ls)
                a.pop("generated_at"), b.pop("generated_at")
                ctx.check(a == b, "converting again gives another network")


def dense_cases(tier):
    return [{"n": n, "m": m, "bias": b, "a": a} for n in (1, 2, 3) for m in (1, 2, 3, 4) for b in (True, False) for a in stubs.ACT]


def denses(c, ctx):
    for s in range(12):
        check_net(ctx, [dense(s, c["n"], c["m"], c["bias"], c["a"])])


def conv_cases(tier):
    return [{"bias": b, "padding": p, "strides": list(s), "a": a} for b in (True, False) for p in ("valid", "same", "SAME", "VALID") for s in ((1, 1), (2, 1), (1, 3), (2, 2)) for a in ("relu", "linear", "tanh", "sigmoid")]


def convs(c, ctx):
    for shape in ((1, 1, 1, 1), (2, 3, 1, 2), (3, 2, 2, 1), (2, 2, 3, 4)):
        l = conv(1, c["bias"], c["padding"].lower(), tuple(c["strides"]), c["a"], shape)
        check_net(ctx, [l])
    for size in ((1, 1), (2, 2), (2, 3), (3, 1)):
        check_net(ctx, [pool(0, size, tuple(c["strides"]), c["padding"].lower())])


def lstm_cases(tier):
    return [{"units": u, "feats": f, "seq": s, "steps": t, "bias": b} for u in (1, 2, 3) for f in (1, 2, 4) for s in (True, False) for t in (1, 3, 7, None) for b in (True, False)]


def lstms(c, ctx):
    for i in range(3):
        check_net(ctx, [lstm(i, c["units"], c["feats"], c["seq"], c["steps"], c["bias"])])


# ---- sizes, types, names, histories
def size_cases(tier):
    N = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129] + ([255, 256, 257, 300] if tier == "thorough" else [])
    out = [{"kind": "dense", "n": n, "m": m} for n in N for m in N if min(n, m) < 4 or n == m or abs(n - m) == 1 or max(n, m) <= 9]
    out += [{"kind": "conv", "shape": list(s)} for s in [(1, 1, 64, 65), (3, 3, 17, 33), (5, 5, 1, 6), (7, 7, 3, 64), (11, 1, 2, 3), (1, 11, 33, 2), (3, 5, 16, 16), (2, 2, 128, 3), (2, 2, 3, 128), (4, 4, 4, 4), (9, 9, 9, 9)]]
    out += [{"kind": "lstm", "u": u, "f": f} for u in (1, 4, 8, 9, 16, 17, 32, 33, 50, 64, 65, 100) for f in (1, 2, u - 1, u, u + 1, 4 * u, 40) if f > 0]
    out += [{"kind": "deep", "n": n, "of": k} for n in (10, 11, 16, 17, 32, 33, 64, 65, 100, 128, 129, 257) for k in ("dense", "conv", "pool", "flatten", "lstm", "mixed")]
    return out


def rnd(shape, seed=0):
    return np.sin(np.arange(int(np.prod(shape)), dtype=np.float64) * 1.37 + seed).reshape(shape).astype(np.float32)


def sizes(c, ctx):
    """Layers of all sizes and long networks."""
    k = c["kind"]
    if k == "dense":
        for bias in (True, False):
            check_net(ctx, [K["Dense"]("d", [rnd((c["n"], c["m"]))] + [rnd((c["m"],), 2)] * bias, units=c["m"], use_bias=bias, activation=act("tanh"))])
    elif k == "conv":
        for bias in (True, False):
            l = conv(0, bias, "same", (1, 1), "relu", tuple(c["shape"]))
            l._w[0] = rnd(c["shape"])
            check_net(ctx, [l])
    elif k == "lstm":
        for seq in (True, False):
            l = lstm(0, c["u"], c["f"], seq, 6)
            l._w = [rnd(w.shape, i) for i, w in enumerate(l._w)]
            check_net(ctx, [l])
    else:
        kinds = list(KINDS)
        check_net(ctx, [KINDS[c["of"] if c["of"] != "mixed" else kinds[i * 7 % len(kinds)]](i) for i in range(c["n"])])


VALUES = {"zero": lambda s, t: np.zeros(s, t), "negative zero": lambda s, t: -np.zeros(s, t), "one": lambda s, t: np.ones(s, t), "nan": lambda s, t: np.where(np.arange(np.prod(s)).reshape(s) % 3 == 0, np.nan, 0.5).astype(t),
          "inf": lambda s, t: np.where(np.arange(np.prod(s)).reshape(s) % 2 == 0, np.inf, -np.inf).astype(t), "max": lambda s, t: np.full(s, np.finfo(t).max, t), "tiny": lambda s, t: np.full(s, np.finfo(t).tiny, t),
          "smallest": lambda s, t: np.full(s, np.nextafter(t(0), t(1)), t), "digits": lambda s, t: (np.arange(np.prod(s)).reshape(s) / 7 - 1 / 3).astype(t), "ulp": lambda s, t: np.nextafter(np.ones(s, t), t(2)),
          "whole": lambda s, t: np.arange(np.prod(s)).reshape(s).astype(t)}


def type_cases(tier):
    return [{"type": t, "values": v} for t in ("float16", "float32", "float64") for v in VALUES]


def types_(c, ctx):
    """Weights of every float type, with values of every kind, in every memory layout, arrive digit by digit."""
    t = np.dtype(c["type"]).type
    for lay in (np.ascontiguousarray, np.asfortranarray, lambda a: np.repeat(a, 2, -1)[..., ::2], lambda a: a[::-1]):
        v = lambda *s: lay(VALUES[c["values"]](s, t))
        for mk in (lambda: K["Dense"]("d", [v(3, 2), v(2)], units=2, use_bias=True, activation=act("relu")), lambda: K["Dense"]("d", [v(1, 4)], units=4, use_bias=False, activation=act("linear")),
                   lambda: K["Conv2D"]("c", [v(2, 3, 2, 4), v(4)], filters=4, kernel_size=(2, 3), strides=(1, 1), padding="valid", use_bias=True, activation=act("relu"), data_format="channels_last", dilation_rate=(1, 1), groups=1),
                   lambda: K["LSTM"]("l", [v(3, 8), v(2, 8), v(8)], units=2, return_sequences=False, use_bias=True, activation=act("tanh"), recurrent_activation=act("sigmoid"), _batch_input_shape=(None, 4, 3), batch_input_shape=(None, 4, 3)),
                   lambda: K["LSTM"]("l", [v(2, 8), v(2, 8), v(8)], units=2, return_sequences=True, use_bias=True, activation=act("tanh"), recurrent_activation=act("sigmoid"), _batch_input_shape=(None, 4, 2), batch_input_shape=(None, 4, 2))):
            layer = mk()
            try:
                js = convert(stubs.Model([layer]))
            except Exception as e:
                ctx.check(False, "a model was not converted", error=repr(e))
            ops = iter(js["graph"])
            check_layer(ctx, layer, ops)
            ctx.check(next(ops, None) is None, "more operators than the layers have")
            ctx.op(); ctx.trace()
    ctx.state(c)


FNS = ["relu", "relu6", "linear", "tanh", "sigmoid", "softmax", "hard_sigmoid", "log_softmax", "leaky_relu", "_private", "elu", "selu", "my_own_function", "swish", "f", "softplus", "softsign", "exponential", "gelu", "mish", "silu", "hard_tanh", "hard_silu", "relu_6", "celu", "glu", "sparse_plus", "log_sigmoid", "threshold", "tanh_shrink", "squareplus", "identity", "sigmoid_lut", "tanhlut", "TANH", "Relu", "none"]


def name_cases(tier):
    return [{"fn": f} for f in FNS]


def fn_named(n):
    def fn(x):
        return x
    fn.__name__ = n
    return fn


def names(c, ctx):
    """Every activation keeps its name, and every layer its own."""
    for other in FNS:
        a, b = fn_named(c["fn"]), fn_named(other)
        for name in ("dense", "dense_1", "Dense", "a/b", "capa_\u00f1", "dense 1", "1"):
            d1, d2, cv = dense(1), dense(2, 3, 2), conv(3)
            d1.activation, d2.activation, cv.activation = a, b, b
            d1.name = d1.cfg["name"] = name
            d2.name = d2.cfg["name"] = name + "_1"
            check_net(ctx, [d1, d2, cv])


def history_cases(tier):
    return [{"kind": k} for k in ("dense", "dense0", "conv", "conv0", "lstm", "lstmseq", "pool")]


def histories(c, ctx):
    """Every history of conversions of models whose layers change between them, in place or by new weights, and of other models
    with layers of the same names and shapes."""
    steps = ("convert", "in place", "set", "other model", "activation", "shared")
    for n in range(1, 4 if ctx.tier == "quick" else 5):
        for seq in itertools.product(steps, repeat=n):
            l, k = KINDS[c["kind"]](1), 0
            model = [dense(0), l]
            kept = []
            for op in seq + ("convert",):
                k += 1
                if op == "in place":
                    for w in l._w:
                        w += np.float32(0.5) * k
                elif op == "set":
                    l._w = [rnd(w.shape, k) for w in l._w]
                elif op == "activation" and hasattr(l, "activation") and c["kind"] not in ("lstm", "lstmseq"):
                    l.activation = act(["relu", "tanh", "linear", "sigmoid"][k % 4])
                elif op == "other model":
                    o = KINDS[c["kind"]](1)
                    o._w = [rnd(w.shape, 10 + k) for w in o._w]
                    check_net(ctx, [dense(0), o])
                elif op == "shared":
                    check_net(ctx, [l, dense(5)])
                else:
                    js = convert(stubs.Model(model))
                    kept.append((js, json.dumps(js)))
                    check_net(ctx, model)
            ctx.check(all(json.dumps(a) == b for a, b in kept), "a converted network changed afterwards", history=seq)


def reject_cases(tier):
    return [{"layer": n, "at": k} for n in OTHERS for k in range(3)]


def rejects(c, ctx):
    """layers without a counterpart are refused, never converted into something else"""
    l = OTHERS[c["layer"]]("x", [values((2, 3, 2, 4), 1), values((4,), 2), values((4,), 3)], strides=(1, 1), padding="valid", pool_size=(2, 2), activation=act("relu"), units=2,
                           return_sequences=False, _batch_input_shape=(None, 2, 3))
    ls = [dense(0), dense(1)]
    ls.insert(c["at"], l)
    try:
        js = convert(stubs.Model(ls))
    except Exception:
        js = None
    ctx.check(js is None, f"a {c['layer']} layer was converted", graph=None if js is None else [o["op_type"] for o in js["graph"]])
    ctx.op(); ctx.state(c["layer"]); ctx.trace()


OPTIONS = [("conv", "dilation_rate", [(2, 2), (1, 2), (2, 1)]), ("conv", "groups", [2, 4]), ("conv", "data_format", ["channels_first"]), ("conv0", "dilation_rate", [(3, 1)]),
           ("pool", "data_format", ["channels_first"]), ("flatten", "data_format", ["channels_first"]),
           ("lstm", "activation", ["relu", "linear", "sigmoid"]), ("lstm", "recurrent_activation", ["relu", "tanh", "linear"]), ("lstm", "go_backwards", [True]),
           ("lstmseq", "activation", ["relu"]), ("lstmseq", "go_backwards", [True])]
USUAL = {"conv": {"dilation_rate": (1, 1), "groups": 1, "data_format": "channels_last"}, "pool": {"data_format": "channels_last"}, "flatten": {"data_format": "channels_last"}, "lstm": {"go_backwards": False}}


def option_cases(tier):
    return [{"kind": k, "option": o, "value": v, "at": a} for k, o, vs in OPTIONS for v in vs for a in range(3)]


def options(c, ctx):
    """A layer whose option has no counterpart in the format computes another function than any operator: it is refused.
    With the usual value spelled out it is converted."""
    for usual in (False, True):
        l = KINDS[c["kind"]](0)
        v = c["value"]
        v = act(v) if "activation" in c["option"] else tuple(v) if isinstance(v, (tuple, list)) else v
        for o, w in USUAL[c["kind"].rstrip("0").replace("seq", "")].items():
            setattr(l, o, w); l.cfg[o] = w
        if not usual:
            setattr(l, c["option"], v); l.cfg[c["option"]] = v
        ls = [dense(0), dense(1)]
        ls.insert(c["at"], l)
        ctx.op()
        if usual:
            check_net(ctx, ls)
            continue
        try:
            js = convert(stubs.Model(ls))
        except Exception:
            js = None
        ctx.check(js is None, f"a {c['kind']} layer with {c['option']} {c['value']} was converted as if it had none", graph=None if js is None else [o["op_type"] for o in js["graph"]])
    ctx.state((c["kind"], c["option"], c["value"])); ctx.trace()


PROP = Property("M01", [
    Scenario("options", option_cases, options, "layer options without a counterpart, at every position"),
    Scenario("chains", chain_cases, chains, "all sequences of up to 4 (5) layers of ten kinds"),
    Scenario("dense", dense_cases, denses, "dense layers: shapes x bias x activations x values"),
    Scenario("conv", conv_cases, convs, "convolutions and pools: shapes x bias x padding x strides x activations"),
    Scenario("lstm", lstm_cases, lstms, "LSTM layers: units x features x sequence x steps x bias"),
    Scenario("sizes", size_cases, sizes, "layer sizes up to 129 (300), networks of up to 257 layers"),
    Scenario("types", type_cases, types_, "float types x kinds of values x memory layouts"),
    Scenario("names", name_cases, names, "all pairs of activation names x layer names"),
    Scenario("histories", history_cases, histories, "all histories of up to 4 (5) conversions and changes"),
    Scenario("reject", reject_cases, rejects, "layers without a counterpart, at every position"),
], "model_checking", "state: converted layer sequence; transition: operator compared with its layer; trace: one converted model")
