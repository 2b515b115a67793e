import itertools
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
import ref, netref
from props import T01, T02, K01
from props.K01 import QuantizerCfg, KerasDenseCfg, DCFG, quantize, data, W1, B1, W2, B2, W3, B3

NETS = {
    "tanh-linear": [(W1, B1, "tanh"), (W2, B2, "linear")],
    "relu-sigmoid": [(W1, B1, "relu"), (W2, B2, "sigmoid")],
    "linear-softmax": [(W1, B1, "linear"), (W2, B2, "softmax")],
    "sigmoid-tanh": [(W1, None, "sigmoid"), (W2, B2, "tanh")],
    "three": [(W1, B1, "tanh"), (W2, B2, "relu"), (W3, B3, "linear")],
}
FNS = {"tanh": np.tanh, "sigmoid": lambda x: 1 / (1 + np.exp(-x))}


def nearest(t):
    """The rounding policy that is round to nearest under the parameters of tensor t."""
    v = t.fp / t.s + t.z
    return (np.floor(v + 0.5) - np.floor(v)).astype(int)


class NetModel:
    """Parameters of every node of a dense network and what they imply for its tensors, biases and tables."""

    def __init__(self, js, layers):
        g = js["graph"]
        self.params = {"in": list(netref.node(g[0]["outputs"][0])[:2])}
        self.tensors, self.luts, self.order = {}, {}, []
        k, prev = 1, "in"
        for i, (W, B, act) in enumerate(layers):
            W = np.asarray(W, np.float32); B = np.zeros(W.shape[1]) if B is None else np.asarray(B, np.float32)
            op = g[k]
            kn, on = f"k{i}", f"o{i}"
            s, z, *_ = netref.node(op["inputs"][1])
            self.params[kn] = [s, z]
            self.tensors[kn] = T01.Model(W.T, s, z, -128, 127)
            si = self.params[prev][0]
            self.tensors[f"b{i}"] = T01.Model(B, si * s, 0, *ref.drange(op["inputs"][2]["tensor"]["dtype"]))
            self.params[on] = list(netref.node(op["outputs"][0])[:2])
            self.order.append((kn, f"b{i}", prev, on))
            prev, k = on, k + 1
            if act in FNS:
                an = f"a{i}"
                self.params[an] = list(netref.node(g[k]["outputs"][0])[:2])
                self.luts[on] = (an, T02.Model(FNS[act], "int8", "int8", tuple(self.params[on]), tuple(self.params[an])))
                prev, k = an, k + 1
        self.last = prev
        self.base = {n: nearest(t) for n, t in self.tensors.items()}

    def update(self, name, s, z, rq=True):
        """Without rq the node's own codes and table stay as they are; what depends on it follows it at once."""
        self.params[name] = [s, z]
        for kn, bn, prev, on in self.order:
            if name == kn:
                m = self.tensors[kn]; m.s, m.z = s, z
                if rq:
                    m.requant(); self.base[kn] = nearest(m)
            if name in (kn, prev):
                b = self.tensors[bn]; b.s = self.params[kn][0] * self.params[prev][0]; b.requant(); self.base[bn] = nearest(b)
        for on, (an, m) in self.luts.items():
            if name == on and rq:
                m.i = (s, z)
            if name == an:
                m.o = (s, z)

    def policy(self, name, pol):
        if name in self.tensors:
            t = self.tensors[name]
            t.pol = np.zeros(t.fp.shape, int) if pol == "floor" else np.ones(t.fp.shape, int) if pol == "ceil" else (np.arange(t.fp.size) % 2).reshape(t.fp.shape)
            t.requant()
            return t.pol
        self.luts[name][1].pol = pol
        return T02.policy(pol, 256)

    def ambiguous(self):
        for n, t in self.tensors.items():
            if t.pol is not None and (np.array_equal(nearest(t), t.pol) or np.array_equal(self.base[n], t.pol)):
                return True
        return any(m.pol is not None and m.base_equals() for _, m in self.luts.values())


def handles(net):
    """name -> live node, by following the operators."""
    ops = [o for o in net.as_operators()]
    h = {"in": ops[0].outputs[0]}
    i, k = 0, 1
    while k < len(ops):
        t = ops[k].as_json()["op_type"].upper()
        if t == "FULLY_CONNECTED":
            _, h[f"k{i}"], h[f"b{i}"] = ops[k].inputs
            h[f"o{i}"] = ops[k].outputs[0]
            i += 1
        elif t.endswith("LUT"):
            h[f"a{i - 1}"] = ops[k].outputs[0]
        k += 1
    return h


def observe(ctx, net, m, x, seq, deep=True):
    js = net.as_json()
    g = js["graph"]

    def same(n, name, what):
        ctx.check((float(n["scale"]), int(n["zero_point"])) == (float(m.params[name][0]), int(m.params[name][1])), f"{what}: parameters after {seq}",
                  got=(n["scale"], n["zero_point"]), want=m.params[name])
    same(g[0]["outputs"][0], "in", "input node")
    k = 1
    for i, (kn, bn, prev, on) in enumerate(m.order):
        op = g[k]; k += 1
        same(op["inputs"][0], prev, f"layer {i} input"); same(op["inputs"][1], kn, f"layer {i} kernel"); same(op["outputs"][0], on, f"layer {i} bias add")
        ctx.equal(op["inputs"][1]["tensor"]["tensor"], m.tensors[kn].codes, f"layer {i} kernel codes after {seq}")
        b = op["inputs"][2]
        want = m.params[prev][0] * m.params[kn][0]
        ctx.check(abs(b["scale"] - want) <= 1e-12 * want and b["zero_point"] == 0, f"layer {i}: bias scale is not input scale * kernel scale after {seq}", got=b["scale"], want=want)
        ctx.equal(b["tensor"]["tensor"], m.tensors[bn].codes, f"layer {i} bias codes after {seq}")
        if on in m.luts:
            an, lm = m.luts[on]
            a, c = lm.bounds()
            netref.between(ctx, g[k]["inputs"][0]["LUT"]["LUT"], a, c, f"layer {i} table after {seq}")
            same(g[k]["inputs"][0], on, f"layer {i} activation input"); same(g[k]["outputs"][0], an, f"layer {i} activation output")
            k += 1
    same(g[k]["inputs"][0], m.last, "dequantize input")
    if deep:
        netref.check_ops(ctx, js, x, f"after {seq}")
    ctx.state((sorted((n, tuple(p)) for n, p in m.params.items()), [t.codes for t in m.tensors.values()]))


def alphabet(m, rich):
    ops = []
    for n, (s, z) in m.params.items():
        for f, dz in ((0.5, 0), (1.3, 3 if n[0] != "k" else 1)) if rich else ((1.7, 0 if n[0] == "k" else -2),):
            ops.append(("update", n, s * f, z + dz))
        if rich:
            ops.append(("defer", n, s * 0.6, z - 1))
    for t in m.tensors:
        ops += [("policy", t, p) for p in (("floor", "alt") if rich else ("ceil",))]
    for l in m.luts:
        ops += [("policy", l, p) for p in (("alt",) if rich else ("ceil",))]
    return ops


def seq_cases(tier):
    out = []
    for net in NETS:
        m = NetModel(quantize(NETS[net], data("mixed", 2)).as_json(), NETS[net])
        n = len(alphabet(m, True))
        out += [{"net": net, "n": 2, "first": i, "rich": True} for i in range(n)]
        if tier == "thorough":
            out += [{"net": net, "n": 3, "first": i, "rich": True} for i in range(n)]
        n = len(alphabet(m, False))
        out += [{"net": net, "n": 3 if tier == "quick" else 4, "first": i, "rich": False} for i in range(n)]
    return out


def sequences(c, ctx):
    x = data("mixed", 2)
    layers = NETS[c["net"]]
    base = alphabet(NetModel(quantize(layers, x).as_json(), layers), c["rich"])
    for rest in itertools.product(base, repeat=c["n"] - 1):
        seq = (base[c["first"]],) + rest
        net = quantize(layers, x)
        h = handles(net)
        m = NetModel(net.as_json(), layers)
        skip = False
        for op in seq:
            if op[0] == "update":
                m.update(op[1], op[2], op[3])
                h[op[1]].update_quant_parameters(op[2], op[3])
            elif op[0] == "defer":
                m.update(op[1], op[2], op[3], False)
                h[op[1]].update_quant_parameters(op[2], op[3], requantize=False)
            else:
                pol = m.policy(op[1], op[2])
                (h[op[1]] if op[1] in m.tensors else h[op[1]].LUT).rounding_policy = pol.copy()
            ctx.op()
            if m.ambiguous():
                skip = True
                break
        if not skip:
            observe(ctx, net, m, x, seq, deep=len(seq) < 3 or seq[0] == seq[-1])
        ctx.trace()


def two_cases(tier):
    return [{"a": a, "b": b} for a in NETS for b in NETS]


def two(c, ctx):
    """Updates to one network never reach another one quantized from the same or another model."""
    x = data("mixed", 2)
    la, lb = NETS[c["a"]], NETS[c["b"]]
    na = quantize(la, x); nb = quantize(lb, x)
    ma, mb = NetModel(na.as_json(), la), NetModel(nb.as_json(), lb)
    ha = handles(na)
    for op in alphabet(ma, False) + alphabet(ma, True):
        if op[0] == "update":
            ma.update(op[1], op[2], op[3]); ha[op[1]].update_quant_parameters(op[2], op[3])
        elif op[0] == "defer":
            ma.update(op[1], op[2], op[3], False); ha[op[1]].update_quant_parameters(op[2], op[3], requantize=False)
        else:
            continue
        ctx.op()
        observe(ctx, na, ma, x, op)
        observe(ctx, nb, mb, x, op)
    ctx.trace()


def fine_cases(tier):
    out = []
    for net in NETS:
        for mag in (1.0, 1e-3, 1e-6, 1e4):
            for bits in ("int32", "int16", "int8"):
                out.append({"net": net, "mag": mag, "bits": bits})
    return out


def fine(c, ctx):
    """Updates of every node by all magnitudes, in networks of all magnitudes and bias dtypes: whatever depends on the node
    follows it, immediately or deferred, alone and one after another."""
    x = data("mixed", 2) * c["mag"]
    layers = [(np.array(w) * c["mag"], None if b is None else np.array(b) * c["mag"] ** 2, a) for w, b, a in NETS[c["net"]]]
    cfg = QuantizerCfg(dense=KerasDenseCfg(**dict(DCFG, bias_dtype=c["bits"])))
    rels = [s * 10.0 ** -e for e in range(1, 8) for s in (1, -1)] + [0.0, 9.0]
    net = quantize(layers, x, cfg)
    h, m = handles(net), NetModel(net.as_json(), layers)
    for name in list(m.params):
        for rel in rels:
            for rq in (True, False) if rel in (0.1, -1e-3, 9.0) else (True,):
                s, z = m.params[name]
                new = (s * (1 + rel), z)
                m.update(name, *new, rq)
                h[name].update_quant_parameters(*new, **({} if rq else {"requantize": False}))
                ctx.op()
                observe(ctx, net, m, x, (name, rel, rq), deep=False)
                if not rq:
                    m.update(name, *new, True)
                    h[name].update_quant_parameters(*new)
                    observe(ctx, net, m, x, (name, rel, "requantized"), deep=False)
    ctx.trace()


def order_cases(tier):
    return [{"a": a, "b": b} for a in NETS for b in NETS]


def strip(js):
    return {k: v for k, v in js.items() if k != "generated_at"}


def order(c, ctx):
    """A network quantized after (or retuned next to) another one is the network a fresh quantization would have given,
    for all pairs of models, calibration sets and retunings of the first."""
    la, lb = NETS[c["a"]], NETS[c["b"]]
    for da, db in itertools.product(("mixed", "positive", "wide", "narrow"), repeat=2):
        alone = strip(quantize(lb, data(db, 2)).as_json())
        na = quantize(la, data(da, 2))
        ha, ma = handles(na), NetModel(na.as_json(), la)
        for n in ma.params:
            ha[n].update_quant_parameters(ma.params[n][0] * 1.4, ma.params[n][1])
        for t in ma.tensors:
            ha[t].rounding_policy = np.ones_like(ha[t].rounding_policy)
        got = strip(quantize(lb, data(db, 2)).as_json())
        ctx.op()
        ctx.check(got == alone, "the network depends on what was quantized before", before=(c["a"], da), model=(c["b"], db))
        netref.check_ops(ctx, quantize(lb, data(db, 2)).as_json(), data(db, 2), "third network")
        # independent of history altogether: every node covers its own calibration data
        K01.verify(ctx, quantize(lb, data(db, 2)), lb, data(db, 2), [DCFG] * len(lb), "int8")
        ctx.state((c["a"], c["b"], da, db)); ctx.trace()


PROP = Property("T03", [
    Scenario("sequences", seq_cases, sequences, "all sequences of node updates and rounding policies over whole networks"),
    Scenario("fine", fine_cases, fine, "updates of all magnitudes on networks of all magnitudes and bias dtypes"),
    Scenario("order", order_cases, order, "all ordered pairs of models and calibration sets"),
    Scenario("two", two_cases, two, "two live networks"),
], "model_checking", "state: parameters of every node and all tensor codes of a network; transition: one update or policy on a live node; trace: one sequence, after which JSON and engine results are compared with the reference network")
