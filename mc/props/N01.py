import itertools, json, os
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from props import K01, K02
from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_quantizer.util.network import Network

ACTS = K01.ACTS


def strict(text):
    def bad(v):
        raise ValueError(f"{v} is not JSON")
    return json.loads(text, parse_constant=bad)


def build(spec):
    """spec: list of layer kinds ("lstm", "sequence": an LSTM that returns every step, or an activation), data name -> (network, exported file, data)"""
    kinds, d = spec
    if "lstm" in kinds or "sequence" in kinds:
        last = max(i for i, k in enumerate(kinds) if k in ("lstm", "sequence"))
        layers = [("lstm", K02.weights(2, 2, "pat", i), i < last or k == "sequence") if k in ("lstm", "sequence") else ("dense", *K02.D1, k) for i, k in enumerate(kinds)]
        x = K02.windows(d, 3, 2)
        net = K02.quantize(layers, x)
    else:
        x = K01.data(d, 2)
        net = K01.quantize([(w, b, a) for (w, b), a in zip(K01.STACK, kinds)], x)
    with open(f"out{os.getpid()}.json") as f:
        return net, f.read(), x


def size(kinds):
    """(input shape, output shape) of one sample"""
    if "sequence" in kinds:
        return [3, 2], [3, 2]
    if "lstm" in kinds:
        return [3, 2], [2]
    return [2], [np.shape(K01.STACK[len(kinds) - 1][0])[1]]


def chains(n):
    out = [list(c) for k in range(1, n + 1) for c in itertools.product(ACTS, repeat=k)]
    ks = ["lstm", "tanh", "linear"]
    out += [list(c) for k in range(1, n + 1) for c in itertools.product(ks, repeat=k)
            if "lstm" in c and all(v == "lstm" for v in c[:max(i for i, v in enumerate(c) if v == "lstm") + 1])]
    return out + [["lstm"] * k + ["sequence"] for k in range(n)]


def export_cases(tier):
    return [{"kinds": k} for k in chains(2 if tier == "quick" else 4)]


def key(n):
    t = n["tensor"]
    return n["scale"], n["zero_point"], t["dtype"], list(t["shape"])


def edges(ctx, net, g, after=()):
    """Every operator reads what the previous one writes, and both show the node they share as it is now."""
    ops = net.as_operators()
    for i, (a, b) in enumerate(zip(ops, ops[1:]), 1):
        if not a.outputs or "LSTM" in g[i - 1]["op_type"].upper():
            continue
        w, r = g[i - 1]["outputs"][-1], g[i]["inputs"][0]
        ctx.check(key(w) == key(r), f"operator {i} does not read what operator {i - 1} writes", writes=key(w), reads=key(r), after=after)
        ctx.check(a.outputs[-1] is b.inputs[0], "operators do not share the node between them")
        ctx.op()
    for o, j in zip(ops, g):
        ctx.check(len(j["inputs"]) == len(o.inputs) and len(j["outputs"]) == len(o.outputs), f"operator {o.name} exported with fewer nodes", got=(len(j["inputs"]), len(j["outputs"])), want=(len(o.inputs), len(o.outputs)))
        for n, v in list(zip(o.inputs, j["inputs"])) + list(zip(o.outputs, j["outputs"])):
            if n is not None and v is not None and v["scale"] is not None:
                ctx.check((v["scale"], v["zero_point"]) == (n.scale, n.zero_point), f"parameters of {n.name} in the exported network", got=(v["scale"], v["zero_point"]),
                          want=(n.scale, n.zero_point), after=after)


def exports(c, ctx):
    kinds = c["kinds"]
    names = ("mixed", "positive", "negative", "zero", "one", "spike") if "lstm" in kinds or "sequence" in kinds else ("mixed", "positive", "negative", "single", "dead", "wide")
    for d in names:
        net, text, x = build((kinds, d))
        js = strict(json.dumps(net.as_json()))
        fj = strict(text)
        for j in (js, fj):
            ctx.check(isinstance(j.pop("generated_at"), str), "generated_at")
        ctx.check(js == fj, "the file differs from the network returned")
        g = js["graph"]
        ctx.check(js["operators"] == len(g), "number of operators", got=js["operators"], want=len(g))
        # objects
        res, ops = net.as_quant_results(), net.as_operators()
        flat = [o for r in res for o in (r.operators or []) if o is not None]
        ctx.check(len(flat) == len(ops) and all(a is b for a, b in zip(flat, ops)), "operators are not those of the quantization results, in order")
        ctx.check([strict(json.dumps(o.as_json())) for o in ops] == g, "graph differs from the operators")
        edges(ctx, net, g)
        # what the network declares
        i, o = size(kinds)
        got = (js["input"][0]["tensor"]["shape"], js["output"][0]["tensor"]["shape"])
        ctx.check(got == ([1] + i, [1] + o), "declared input and output shapes", got=got, want=([1] + i, [1] + o))
        # the same network, through the file, the dictionary and the object
        a = net.as_sequential_network()
        b = SequentialNetwork.from_json_file(f"out{os.getpid()}.json")
        e = SequentialNetwork(net.as_json())
        for v in (x, x[:1], x[::-1], x * 3):
            r = np.asarray(a.infer(v))
            ctx.equal(b.infer(v), r, "inference on the file"); ctx.equal(e.infer(v), r, "inference on the dictionary")
            ctx.equal(a.infer(v), r, "second inference")
            ctx.check(len(r) == len(v) and list(r.shape[1:]) == o, "shape of the result", got=r.shape)
            ctx.state(r)
        ctx.trace()


# ---- deep and wide networks
def deep_cases(tier):
    ks = ACTS + ["lstm"]
    out = [{"kinds": [k] * n, "w": w} for k in ks for n in ((1, 2, 3, 5, 8, 9, 10, 11, 16, 17, 33) if k != "lstm" else (1, 2, 3, 4, 5)) for w in (1, 2, 5)]
    out += [{"kinds": ["lstm"] * a + ["tanh", "linear"] * b, "w": w} for a in (0, 1, 3) for b in (1, 4, 9) for w in (1, 3)]
    out += [{"kinds": ["tanh"], "w": w} for w in (8, 9, 16, 17, 31, 32, 33, 64, 65)] + [{"kinds": ["lstm"], "w": w} for w in (8, 9, 16, 17)]
    return out


def deep(c, ctx):
    """Networks of many and of wide layers, with equal layers and with equal names: nothing is shared, cut or left out."""
    kinds, w = c["kinds"], c["w"]
    for same_weights in (True, False):
        layers, f = [], 2
        last = max((i for i, k in enumerate(kinds) if k == "lstm"), default=-1)
        for i, k in enumerate(kinds):
            z = 1 if same_weights else i + 1
            if k == "lstm":
                layers.append(("lstm", K02.weights(f, w, "pat", z % 4), i < last))
            else:
                W = np.round(np.sin(np.arange(f * w) * 1.3 + z).reshape(f, w) * 1.4, 3)
                layers.append(("dense", W, np.round(np.cos(np.arange(w) + z) * 0.3, 3), k))
            f = w
        x = K02.windows("mixed", 3, 2) if last >= 0 else K01.data("mixed", 2)
        net = K02.quantize(layers, x)
        with open(f"out{os.getpid()}.json") as fh:
            text = fh.read()
        js, fj = strict(json.dumps(net.as_json())), strict(text)
        js.pop("generated_at"), fj.pop("generated_at")
        ctx.check(js == fj, "the file differs from the network returned")
        g = js["graph"]
        want = sum({"tanh": 2, "sigmoid": 2}.get(k, 1) for k in kinds) + 2
        ctx.check(js["operators"] == len(g) == want, "number of operators", got=(js["operators"], len(g)), want=want)
        ops = net.as_operators()
        ctx.check([strict(json.dumps(o.as_json())) for o in ops] == g, "graph differs from the operators")
        edges(ctx, net, g)
        for i, o in enumerate(ops):
            for p in ops[:i]:
                ctx.check(o is not p, "an operator appears twice")
        got = (js["input"][0]["tensor"]["shape"], js["output"][0]["tensor"]["shape"])
        ctx.check(got == ([1] + ([3, 2] if last >= 0 else [2]), [1, w]), "declared input and output shapes", got=got)
        a = net.as_sequential_network()
        b = SequentialNetwork.from_json_file(f"out{os.getpid()}.json")
        e = SequentialNetwork(net.as_json())
        for v in (x, x[:1], x[::-1]):
            r = np.asarray(a.infer(v))
            ctx.equal(b.infer(v), r, "inference on the file"); ctx.equal(e.infer(v), r, "inference on the dictionary")
            ctx.check(r.shape == (len(v), w), "shape of the result", got=r.shape)
            ctx.state(r)
        ctx.op(len(g)); ctx.trace()


# ---- everything handed out is a snapshot
SNAP = [["tanh", "linear"], ["relu", "sigmoid"], ["lstm"], ["sequence"], ["lstm", "tanh"], ["softmax"]]


def nodes_of(net):
    out = []
    for o in net.as_operators():
        for n in list(o.inputs) + list(o.outputs):
            if n is not None and not any(n is m for m in out):
                out.append(n)
    return out


def alphabet(net):
    ops = []
    for i, n in enumerate(nodes_of(net)):
        ops.append(("update", i))
        t = n.as_json().get("tensor")
        if t and t.get("tensor") is not None:
            ops.append(("policy", i))
    return ops


def snap_cases(tier):
    out = []
    for k in SNAP:
        n = len(alphabet(build((k, "mixed"))[0]))
        out += [{"kinds": k, "first": i, "n": (3 if n < 16 else 2) if tier == "quick" else (4 if n < 10 else 3 if n < 20 else 2)} for i in range(n)]
    return out


def apply(net, op):
    n = nodes_of(net)[op[1]]
    if op[0] == "update":
        j = n.as_json()
        n.update_quant_parameters(float(n.scale) * 1.5, int(n.zero_point) if j["tensor"]["dtype"] == "int32" or j["tensor"].get("tensor") is not None else int(n.zero_point) // 2 + 1)
    else:
        n.rounding_policy = 1 - np.asarray(n.rounding_policy)


def same(a, b):
    a, b = dict(a), dict(b)
    a.pop("generated_at"), b.pop("generated_at")
    return a == b


def snapshots(c, ctx):
    net, text, x = build((c["kinds"], "mixed"))
    base = alphabet(net)
    for rest in itertools.product(base, repeat=c["n"] - 1):
        seq = (base[c["first"]],) + rest
        net, text, x = build((c["kinds"], "mixed"))
        path = f"out{os.getpid()}.json"
        taken = []

        def take():
            js = net.as_json()
            edges(ctx, net, js["graph"], seq)
            s = net.as_sequential_network()
            taken.append((js, json.dumps(js), s, np.asarray(s.infer(x))))
        take()
        for op in seq:
            apply(net, op)
            ctx.op()
            take()
        for i, (js, t, s, r) in enumerate(taken):
            ctx.check(json.dumps(js) == t, f"a network exported before {seq[i:]} changed with it")
            ctx.equal(s.infer(x), r, f"a network built before {seq[i:]} computes something else after it")
            ctx.equal(SequentialNetwork(json.loads(t)).infer(x), r, f"inference on the network exported after {seq[:i]}")
        with open(path) as f:
            ctx.check(f.read() == text, "the exported file was rewritten")
        ctx.check(same(strict(text), strict(taken[0][1])), "the file is not the first state")
        # another view of the same results
        other = Network(net.as_quant_results())
        ctx.check(same(strict(json.dumps(other.as_json())), strict(taken[-1][1])), "a network over the same results differs")
        ctx.state([t for t in taken[-1][3].tolist()]); ctx.trace()


PROP = Property("N01", [
    Scenario("exports", export_cases, exports, "all layer chains up to 2 (4) x calibration data: file, dictionary, objects and inference agree"),
    Scenario("deep", deep_cases, deep, "networks of up to 33 layers, up to 65 units, with equal and different weights"),
    Scenario("snapshots", snap_cases, snapshots, "all histories of node updates and policies with a snapshot after each"),
], "model_checking", "state: results of an exported network; transition: operator compared or node changed; trace: one exported network or one history")
