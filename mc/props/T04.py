import itertools
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
import ref, netref
from props import K02, T01, T02
from props.K02 import D1, quantize, weights, windows

NETS = {
    "lstm": ["lstm"],
    "lstm-tanh": ["lstm", "tanh"],
    "stacked": ["lstm", "lstm"],
    "stacked-linear": ["lstm", "lstm", "linear"],
}
SIG, TANH = lambda x: 1 / (1 + np.exp(-x)), np.tanh
GATE_FN = [SIG, SIG, TANH, SIG]


def layers_of(kinds, family, mag=1.0):
    last = max(i for i, k in enumerate(kinds) if k == "lstm")
    scaled = lambda w: [w[0] * mag, w[1], w[2]]
    return [("lstm", scaled(weights(2, 2, family, i)), i < last) if k == "lstm" else ("dense", np.array(D1[0]) * mag, np.array(D1[1]) * mag, k) for i, k in enumerate(kinds)]


class Net:
    """Parameters of every node, and what they imply for codes, biases and tables.  The recurrent add of a gate and the
    input of the gate's table are one node of the format shown twice, and so is the cell state: they are retuned together."""

    def __init__(self, js, layers):
        g = js["graph"]
        pr = lambda n: [float(n["scale"]), int(n["zero_point"])]
        self.params, self.T, self.L, self.bias, self.ops = {"in": pr(g[0]["outputs"][0])}, {}, {}, [], []
        prev, k = "in", 1
        for i, (kind, *a) in enumerate(layers):
            op = g[k]; k += 1
            if kind == "lstm":
                W, U, b = (np.asarray(v, np.float32) for v in a[0])
                u = U.shape[0]
                n = K02.nodes(op)
                for j in range(4):
                    s_ = slice(j * u, (j + 1) * u)
                    for c, full in (("K", W), ("U", U)):
                        self.params[f"{i}{c}{j}"] = pr(n[c][j])
                        self.T[f"{i}{c}{j}"] = T01.Model(full[:, s_], *pr(n[c][j]), -128, 127)
                    self.T[f"{i}B{j}"] = T01.Model(b[s_], self.params[prev][0] * self.params[f"{i}K{j}"][0], 0, -2**31, 2**31 - 1)
                    self.bias.append((f"{i}B{j}", prev, f"{i}K{j}"))
                    self.params[f"{i}R{j}"], self.params[f"{i}G{j}"] = pr(n["GIN"][j]), pr(n["GOUT"][j])
                    self.L[f"{i}R{j}"] = (f"{i}G{j}", T02.Model(GATE_FN[j], "int8", "int8", tuple(pr(n["GIN"][j])), tuple(pr(n["GOUT"][j]))))
                self.params[f"{i}C"], self.params[f"{i}A"], self.params[f"{i}H"] = pr(n["C"]), pr(n["COUT"]), pr(n["H"])
                self.L[f"{i}C"] = (f"{i}A", T02.Model(TANH, "int8", "int8", tuple(pr(n["CIN"])), tuple(pr(n["COUT"]))))
                self.ops.append(("lstm", i, prev))
                prev = f"{i}H"
            else:
                W, B, act = np.asarray(a[0], np.float32), np.asarray(a[1], np.float32), a[2]
                kn, bn, on = f"{i}K", f"{i}B", f"{i}O"
                self.params[kn], self.params[on] = pr(op["inputs"][1]), pr(op["outputs"][0])
                self.T[kn] = T01.Model(W.T, *self.params[kn], -128, 127)
                self.T[bn] = T01.Model(B, self.params[prev][0] * self.params[kn][0], 0, -2**31, 2**31 - 1)
                self.bias.append((bn, prev, kn))
                self.ops.append(("dense", i, prev))
                prev = on
                if act == "tanh":
                    self.params[f"{i}A"] = pr(g[k]["outputs"][0])
                    self.L[on] = (f"{i}A", T02.Model(TANH, "int8", "int8", tuple(self.params[on]), tuple(self.params[f"{i}A"])))
                    self.ops.append(("table", i, on))
                    prev, k = f"{i}A", k + 1
        self.last = prev
        self.base = {n: nearest(t) for n, t in self.T.items()}

    def update(self, name, s, z, rq=True):
        self.params[name] = [s, z]
        if name in self.T:
            t = self.T[name]; t.s, t.z = s, z
            if rq:
                t.requant(); self.base[name] = nearest(t)
        for b, x, k in self.bias:
            if name in (x, k):
                t = self.T[b]; t.s = self.params[x][0] * self.params[k][0]; t.requant(); self.base[b] = nearest(t)
        for i, (o, m) in self.L.items():
            if name == i and rq:
                m.i = (s, z)
            if name == o:
                m.o = (s, z)

    def policy(self, name, pol):
        if name in self.T:
            t = self.T[name]
            t.pol = {"floor": np.zeros(t.fp.shape, int), "ceil": np.ones(t.fp.shape, int), "alt": (np.arange(t.fp.size) % 2).reshape(t.fp.shape)}[pol]
            t.requant()
            return t.pol
        self.L[name][1].pol = pol
        return T02.policy(pol, 256)

    def ambiguous(self):
        return any(t.pol is not None and (np.array_equal(nearest(t), t.pol) or np.array_equal(self.base[n], t.pol)) for n, t in self.T.items()) or \
            any(m.pol is not None and m.base_equals() for _, m in self.L.values())


def nearest(t):
    v = t.fp / t.s + t.z
    return (np.floor(v + 0.5) - np.floor(v)).astype(int)


def handles(net, m):
    """name -> live nodes that are that node of the format"""
    ops = list(net.as_operators())
    h = {"in": [ops[0].outputs[0]]}
    k = 1
    for kind, i, _ in m.ops:
        o = ops[k]; k += 1
        if kind == "lstm":
            for j in range(4):
                h[f"{i}K{j}"], h[f"{i}U{j}"], h[f"{i}B{j}"] = [o.inputs[1 + j]], [o.inputs[5 + j]], [o.inputs[9 + j]]
                h[f"{i}R{j}"], h[f"{i}G{j}"] = [o.inputs[17 + j], o.inputs[22 + 2 * j]], [o.inputs[23 + 2 * j]]
            h[f"{i}C"], h[f"{i}A"], h[f"{i}H"] = [o.inputs[21], o.inputs[30]], [o.inputs[31]], [o.outputs[0]]
        elif kind == "dense":
            h[f"{i}K"], h[f"{i}B"], h[f"{i}O"] = [o.inputs[1]], [o.inputs[2]], [o.outputs[0]]
        else:
            h[f"{i}A"] = [o.outputs[0]]
    return h


def drive(m, h, op):
    kind, name, *a = op
    if kind == "policy":
        pol = m.policy(name, a[0])
        if name in m.T:
            h[name][0].rounding_policy = pol.copy()
        else:
            h[name][-1].LUT.rounding_policy = pol.copy()
    else:
        m.update(name, a[0], a[1], kind == "update")
        for n in h[name]:
            if kind == "update":
                n.update_quant_parameters(a[0], a[1])
            else:
                n.update_quant_parameters(a[0], a[1], requantize=False)


def observe(ctx, net, m, x, after, deep=True):
    js = net.as_json(); g = js["graph"]

    def same(n, name):
        ctx.check((float(n["scale"]), int(n["zero_point"])) == (float(m.params[name][0]), int(m.params[name][1])), f"parameters of {name} after {after}", got=(n["scale"], n["zero_point"]),
                  want=m.params[name])

    def tensor(n, name):
        t = m.T[name]
        ctx.check(abs(n["scale"] - t.s) <= 1e-12 * t.s and n["zero_point"] == t.z, f"parameters of {name} after {after}", got=(n["scale"], n["zero_point"]), want=(t.s, t.z))
        ctx.equal(n["tensor"]["tensor"], t.codes, f"codes of {name} after {after}")

    def table(n, name):
        a, b = m.L[name][1].bounds()
        netref.between(ctx, n["LUT"]["LUT"], a, b, f"table of {name} after {after}")
    same(g[0]["outputs"][0], "in")
    outs = netref.prefixes(ctx, js, x) if deep else None
    for k, (kind, i, prev) in enumerate(m.ops, 1):
        op = g[k]
        same(op["inputs"][0], prev)
        if kind == "lstm":
            n = K02.nodes(op)
            for j in range(4):
                for c in "KUB":
                    tensor(n[c][j], f"{i}{c}{j}")
                same(n["RA"][j], f"{i}R{j}"); same(n["GIN"][j], f"{i}R{j}"); same(n["GOUT"][j], f"{i}G{j}"); table(n["GIN"][j], f"{i}R{j}")
            same(n["C"], f"{i}C"); same(n["CIN"], f"{i}C"); same(n["COUT"], f"{i}A"); same(n["H"], f"{i}H"); table(n["CIN"], f"{i}C")
            if deep:
                K02.explained(ctx, K02.ref_params(op), outs[k - 1], outs[k], f"LSTM {i} after {after}")
        elif kind == "dense":
            tensor(op["inputs"][1], f"{i}K"); tensor(op["inputs"][2], f"{i}B"); same(op["outputs"][0], f"{i}O")
            mult = m.params[prev][0] * m.T[f"{i}K"].s / m.params[f"{i}O"][0]
            if deep and mult >= 1e-6:        # smaller multipliers count as zero (E02)
                netref.between(ctx, outs[k], *netref.fc_bounds(op, outs[k - 1]), f"dense layer {i} after {after}")
        else:
            table(op["inputs"][0], prev); same(op["outputs"][0], f"{i}A")
            L = op["inputs"][0]["LUT"]
            if deep:
                ctx.equal(np.asarray(outs[k], dtype=np.int64), np.asarray(L["LUT"])[np.asarray(outs[k - 1]).astype(np.int64) + L["offset"]], f"activation {i} after {after}")
    same(g[-1]["inputs"][0], m.last)
    if not deep:
        return ctx.state(sorted((n, tuple(p)) for n, p in m.params.items()))
    s, z = m.params[m.last]
    ctx.close(outs[-1], (np.asarray(outs[-2], float) - z) * s, 1e-6, f"real result after {after}")
    ctx.state((sorted((n, tuple(p)) for n, p in m.params.items()), outs[-1]))


def alphabet(m, rich, gates=range(4)):
    ops = []
    for n, (s, z) in m.params.items():
        if len(n) == 3 and int(n[2]) not in gates:
            continue
        ops.append(("update", n, s * 1.3, int(np.clip(z + (3 if n[1:2] not in ("K", "U") else 1), -128, 127))))
        if rich:
            ops += [("update", n, s * 0.6, int(np.clip(z - 4, -128, 127))), ("defer", n, s * 0.8, z)]
    for n in list(m.T) + list(m.L):
        if len(n) == 3 and int(n[2]) not in gates:
            continue
        ops += [("policy", n, p) for p in (("floor", "alt") if rich else ("alt",))]
    return ops


def model(c, x):
    layers = layers_of(NETS[c["net"]], c["family"], c.get("mag", 1.0))
    net = quantize(layers, x)
    return net, Net(net.as_json(), layers)


def one_cases(tier):
    return [{"net": n, "family": f, "data": d} for n in NETS for f in K02.KINDS for d in ("mixed", "positive", "spike")[: 2 if tier == "quick" else 3]]


def one(c, ctx):
    """Every single operation on every node, then its effect together with what was done before."""
    x = windows(c["data"], 3, 2)
    net, m = model(c, x)
    h = handles(net, m)
    observe(ctx, net, m, x, "construction")
    for op in alphabet(m, True):
        drive(m, h, op)
        ctx.op()
        if m.ambiguous():      # an explicit policy that happens to be the nearest one
            net, m = model(c, x); h = handles(net, m)
            continue
        observe(ctx, net, m, x, op)
    ctx.trace()


def seq_cases(tier):
    x = windows("mixed", 3, 2)
    out = []
    for net in NETS:
        m = model({"net": net, "family": "pat"}, x)[1]
        n = len(alphabet(m, False, (0, 2)))
        out += [{"net": net, "family": "pat", "first": i, "n": 2, "gates": [0, 2]} for i in range(n)]
        if tier == "thorough":
            out += [{"net": net, "family": f, "first": i, "n": 2, "gates": [0, 1, 2, 3]} for f in ("pat", "gates") for i in range(len(alphabet(m, False)))]
            if net in ("lstm", "lstm-tanh"):
                out += [{"net": net, "family": "pat", "first": i, "n": 3, "gates": [1]} for i in range(len(alphabet(m, False, (1,))))]
    return out


def sequences(c, ctx):
    x = windows("mixed", 3, 2)
    base = alphabet(model(c, x)[1], False, c["gates"])
    for rest in itertools.product(base, repeat=c["n"] - 1):
        seq = (base[c["first"]],) + rest
        net, m = model(c, x)
        h = handles(net, m)
        for op in seq:
            drive(m, h, op)
            ctx.op()
        if not m.ambiguous():
            observe(ctx, net, m, x, seq)
        ctx.trace()


def fine_cases(tier):
    mags = ((1.0, 1.0), (1e-3, 1.0), (1.0, 1e-3), (1e-4, 1e-4), (30.0, 1.0)) if tier == "quick" else tuple(itertools.product((1e-6, 1e-3, 1.0, 30.0), repeat=2))
    return [{"net": n, "family": "pat", "x": a, "mag": b} for n in NETS for a, b in mags]


def fine(c, ctx):
    """Updates of every node by all magnitudes, in networks of all magnitudes: whatever depends on the node follows it."""
    x = windows("mixed", 3, 2) * c["x"]
    net, m = model(c, x)
    h = handles(net, m)
    rels = [s * 10.0 ** -e for e in range(1, 8) for s in (1, -1)] + [0.0, 5.0]
    for name in list(m.params):
        for rel in rels:
            for kind in ("update", "defer") if rel in (0.1, -1e-3) else ("update",):
                s, z = m.params[name]
                op = (kind, name, s * (1 + rel), z)
                drive(m, h, op)
                ctx.op()
                if m.ambiguous():
                    net, m = model(c, x); h = handles(net, m)
                    continue
                observe(ctx, net, m, x, op, deep=False)
                if kind == "defer":
                    op = ("update", name, s * (1 + rel), z)
                    drive(m, h, op)
                    observe(ctx, net, m, x, op, deep=False)
    observe(ctx, net, m, x, "all updates")
    ctx.trace()


def two_cases(tier):
    return [{"a": a, "b": b} for a in NETS for b in NETS]


def two(c, ctx):
    """Two live networks: every operation on one leaves the other alone, the later built one as well as the earlier."""
    x = windows("mixed", 3, 2)
    A = {"net": c["a"], "family": "pat"}; B = {"net": c["b"], "family": "gates"}
    nets = []
    for d in (A, B):
        net, m = model(d, x)
        nets.append((net, m, handles(net, m)))
    ops = [alphabet(m, False, (0, 3)) for _, m, _ in nets]
    for k in range(max(map(len, ops))):
        for i in (0, 1):
            net, m, h = nets[i]
            op = ops[i][(k * 5 + i) % len(ops[i])]
            if op[0] == "policy":
                continue
            drive(m, h, op)
            ctx.op()
            for n_, m_, _ in nets:
                observe(ctx, n_, m_, x, (i, op), deep=False)
    for n_, m_, _ in nets:
        observe(ctx, n_, m_, x, "both retuned")
    ctx.trace()


PROP = Property("T04", [
    Scenario("one", one_cases, one, "every operation on every node of a network, one after the other"),
    Scenario("fine", fine_cases, fine, "updates of all magnitudes on networks of all magnitudes"),
    Scenario("two", two_cases, two, "two live networks"),
    Scenario("sequences", seq_cases, sequences, "all sequences of updates and policies"),
], "model_checking", "state: parameters of every node and the inference result; transition: one update or policy on a live node; trace: one sequence, after which parameters, codes, tables and engine results are compared with the reference network",
    ["the two nodes that show the recurrent add of a gate (and the cell state) are retuned together", "the scale shown for the intermediate bias add is not covered: inference does not use it"])
