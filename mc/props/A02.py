import itertools, os, json
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from choose import explore, controlled, Landscape
import ref, netref
from itcl_quantization import Quantization
import itcl_quantizer.equalizers.param_equalizer.abstract_param_optimizer as apo_mod
import itcl_quantizer.equalizers.adaround.annealer as annealer_mod
from itcl_quantizer.equalizers.param_equalizer.annealer import ParamEqAnnealer
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
from itcl_quantizer.equalizers.param_equalizer.param_equalizer import ParamEqualizerNet, ParamEqualizerFullNet
from itcl_quantizer.equalizers.adaround.adaround import AdaroundNet
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.config.models.keras import QuantizerCfg, ParamEqualizerCfg, RoundingMinimaCfg
from props import K01, T03
from props.A01 import VALUES, SCALES, DEEP, accepting, set_accept, simanneal_reject, jkey, make, NETS

MODS = [apo_mod, annealer_mod]
TWO = [0.25, 0.75]
FP = np.array([[0.3, -0.6], [1.1, 0.27]])


def mk(kind, retries):
    return BFSEqualizer(retries) if kind == "bfs" else ParamEqAnnealer(steps=retries + 1)


def nodes(kind, z):
    a = NodeTensorBase(0.01, 0, "kernel", Quantization("int8")).with_tensor(FP)
    b = NodeTensorBase(0.5, z, "bias_add", Quantization("int8"))
    c = NodeTensorBase(0.02, z, "act", Quantization("int4")).with_lut(np.tanh, 0.1, 0)
    return {"one": [a], "edge": [b], "two": [a, b], "lut": [c], "three": [a, b, c]}[kind]


def nkey(ns):
    return tuple((n.scale, n.zero_point, n.quantized.tobytes() if hasattr(n, "quantized") else b"", tuple(n.LUT[i] for i in range(len(n.LUT))) if n.LUT else ()) for n in ns)


def opt_cases(tier):
    d = {"rnd": 3, "cost": 4, "acc": 2} if tier == "quick" else {"rnd": 8, "cost": 6, "acc": 4}
    return [{"opt": o, "nodes": n, "zp": z, "retries": r, "depth": d} for o in ("bfs", "annealer") for n in ("one", "edge", "two", "lut", "three")
            for z in ((0,) if n in ("one", "two") else (0, -128, 127) if n == "edge" else (0, -8, 7) if n == "lut" else (-8,)) for r in (0, 1, 2)]


def optimizer(c, ctx):
    for ch in explore(c["depth"]):
        live = nodes(c["nodes"], c["zp"])
        start = nkey(live)
        cost = Landscape(ch, SCALES[c["values"]] if "values" in c else VALUES)

        def fn():
            k = nkey(live)
            for n in live:
                lo, hi = n.quant.min_value(), n.quant.max_value()
                ctx.check(n.scale > 0 and lo <= n.zero_point <= hi, "an evaluated node has invalid parameters", scale=n.scale, zp=n.zero_point)
                if hasattr(n, "quantized"):
                    a, b = ref.quantize_bounds(n.fp_tensor, n.zero_point, n.scale, lo, hi)
                    netref.between(ctx, n.quantized, a, b, "the cost was evaluated with stale codes")
            return cost(k)
        set_accept(accepting(ch))
        with controlled(ch, MODS, unit=TWO):
            o = mk(c["opt"], c["retries"])
            ctx.check(o.set_cost_fn(fn) is o and o.set_initial_neigh(live) is o, "setters return the optimizer")
            out, val = o.optimize()
        ctx.op(len(cost.order)); ctx.state(tuple(hash(k) for k in cost.order)); ctx.trace()
        end = nkey(live)
        ctx.check(list(out) == live, "the optimizer returns the nodes it was given")
        ctx.check(cost.order[0] == start, "the first evaluated parameters are not the current ones")
        ctx.check(len(cost.memo) > 1, "the optimizer tried nothing")
        ctx.check(end in cost.memo, "the parameters left behind were never evaluated", end=end)
        ctx.check(val == cost.memo[end], "the returned cost is not the cost of the parameters left behind", got=val, want=cost.memo[end])
        ctx.check(val == cost.best() <= cost.memo[start], "the nodes are not left with the best parameters visited", got=val, best=cost.best())
        if c["opt"] == "bfs":
            first = min(i for i, k in enumerate(cost.order) if cost.memo[k] == val)
            ctx.check(len(set(cost.order[first + 1:])) >= 1, "the search stops right after an improvement")


def cost_cases(tier):
    d = {"rnd": 2, "cost": 4, "acc": 1} if tier == "quick" else {"rnd": 5, "cost": 5, "acc": 2}
    return [{"opt": o, "nodes": n, "zp": 0, "retries": r, "depth": d, "values": v} for o in ("bfs", "annealer") for n in ("one", "two") for r in (1, 2) for v in SCALES]


def retry_cases(tier):
    return [{"retries": r} for r in [*range(0, 21), 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 201, 256, 300] + ([500, 1000, 1024] if tier == "thorough" else [])]


def retries(c, ctx):
    """The only improvement is the k-th consecutive try, for every k up to the limit; and the search ends."""
    R = c["retries"]
    for k in sorted(set(range(1, min(R, 6) + 1)) | {R // 2, R - 1, R} - {0, -1}) + [None]:
        live = nodes("three", 0)
        order = []

        def fn():
            key = nkey(live)
            if not order or order[-1] != key:
                order.append(key)
            ctx.check(len(order) <= 3 * R + 50, "the search does not stop")
            return 1.0 if k is None or len(order) <= k else 0.5 if len(order) == k + 1 else 2.0
        n = [0]

        class Ch:
            def pick(self, m, kind=None):
                n[0] += 1
                return (n[0] * 2654435761 >> 9) % m
        with controlled(Ch(), MODS, unit=[0.05, 0.3, 0.6, 0.9, 0.45, 0.75]):
            out, val = BFSEqualizer(R).set_cost_fn(fn).set_initial_neigh(live).optimize()
        ctx.op(len(order)); ctx.state((R, k)); ctx.trace()
        if k is not None:
            ctx.check(val == 0.5 and nkey(live) == order[k], "an improvement within the allowed retries was not kept", at=k, got=val)
            ctx.check(len(order) - k - 1 >= R, "the search gave up early after an improvement", at=k, evaluations=len(order))
        else:
            ctx.check(len(order) > R and nkey(live) == order[0], "the search gave up early, or left something else than the start", evaluations=len(order))


def needle_cases(tier):
    out = []
    for a, d in DEEP:
        for how in ("full", "layers"):
            top = 8 if how == "full" else d * (4 if a in ("tanh", "sigmoid") else 2)
            out += [{"act": a, "depth": d, "how": how, "k": k, "opt": o} for k in range(0, top, 1 if tier == "thorough" or how == "full" else 3) for o in (("bfs", "annealer") if k < 4 or tier == "thorough" else ("bfs",))]
    mix = [{"act": "mix", "depth": 5, "how": h, "k": k, "opt": o, "cfg": n} for n in CFGS for h in ("full", "layers") for o in ("bfs", "annealer") for k in (range(0, 3) if tier == "quick" else range(0, 8))]
    return out + mix


CFGS = {"default": {}, "symmetric": dict(kernel_symmetric=True), "int4": dict(kernel_dtype="int4", bias_add_dtype="int4", activation_dtype="int4"), "narrow table": dict(activation_dtype="int2", bias_add_dtype="int6", kernel_symmetric=True)}


def needle(c, ctx):
    """Deep networks: exactly one evaluation of the whole run is the best (by very little), and it is what the network keeps."""
    layers = [([[0.9, -0.31], [0.23, 0.77]], [0.11, -0.2], c["act"])] * c["depth"]
    if c["act"] == "mix":
        layers = [(w, b, a) for (w, b, _), a in zip(layers, ("tanh", "linear", "relu", "sigmoid", "relu6"))]
    x = K01.data("mixed", 2)
    net = K01.quantize(layers, x, K01.QuantizerCfg(dense=K01.KerasDenseCfg(**dict(K01.DCFG, **CFGS[c["cfg"]]))) if "cfg" in c else None)
    js = []

    def loss(n):
        j = jkey(n.schema)
        if j not in js:
            js.append(j)
        return 1e-3 if js.index(j) == c["k"] else 1e-3 + 1e-9
    n = [0]

    class Ch:
        def pick(self, m, kind=None):
            n[0] += 1
            return (n[0] * 2654435761 >> 9) % m
    with controlled(Ch(), MODS, unit=[0.05, 0.3, 0.6, 0.9, 0.45, 0.75]):
        simanneal_reject()
        (ParamEqualizerFullNet if c["how"] == "full" else ParamEqualizerNet)(net, loss, lambda: mk(c["opt"], 6 if c["how"] == "full" else 1)).equalize()
    ctx.op(len(js)); ctx.state(tuple(map(hash, js))); ctx.trace()
    end = jkey(net.as_json())
    ctx.check(len(js) > 1, "nothing was tried")
    if len(js) > c["k"]:
        ctx.check(end == js[c["k"]], "the network is not left with the best parameters evaluated", at=c["k"], is_now=js.index(end) if end in js else None)
    else:
        ctx.check(end in js, "the network left behind was never evaluated")
    if c.get("cfg") in (None, "default", "symmetric"):
        consistent(ctx, net, layers, x)
    if c["k"] == 0:     # every layer's kernel and output was tried
        first, vary = json.loads(js[0]), set()
        for j in js[1:]:
            for g, (a, b) in enumerate(zip(first["graph"], json.loads(j)["graph"])):
                for s in ("inputs", "outputs"):
                    vary |= {(g, s, i) for i, (p, q) in enumerate(zip(a[s], b[s])) if (p["scale"], p["zero_point"]) != (q["scale"], q["zero_point"])}
        for g, o in enumerate(first["graph"]):
            if len(o["inputs"]) == 3:
                ctx.check((g, "inputs", 1) in vary and (g, "outputs", 0) in vary, "a layer whose parameters were never tried", operator=g)
            elif len(o["inputs"]) == 1 and o["inputs"][0].get("LUT"):
                ctx.check((g, "outputs", 0) in vary, "an activation whose output parameters were never tried", operator=g)


def order_cases(tier):
    return [{"a": a, "b": b, "how": h, "opt": o} for a in NETS for b in NETS for h in ("full", "layers") for o in ("bfs", "annealer")]


def order(c, ctx):
    """Networks equalized one after the other: an equalization touches the network it was given and no other."""
    (A, xa), (B, xb) = make(c["a"]), make(c["b"])
    n = [0]

    class Ch:
        def pick(self, m, kind=None):
            n[0] += 1
            return (n[0] * 2654435761 >> 9) % m
    with controlled(Ch(), MODS, unit=[0.05, 0.3, 0.6, 0.9, 0.45, 0.75]):
        simanneal_reject()
        for net, other in ((A, B), (B, A), (A, B)):
            before, memo = jkey(other.as_json()), {}

            def loss(s):
                k = jkey(s.schema)
                memo.setdefault(k, 10.0 - len(memo) if len(memo) < 4 else 20.0)
                ctx.check(jkey(other.as_json()) == before, "another network changed during an equalization")
                ctx.op()
                return memo[k]
            (ParamEqualizerFullNet if c["how"] == "full" else ParamEqualizerNet)(net, loss, lambda: mk(c["opt"], 2)).equalize()
            ctx.check(jkey(other.as_json()) == before, "another network changed during an equalization")
            ctx.check(memo and memo.get(jkey(net.as_json())) == min(memo.values()), "the network is not left with its best parameters")
    ctx.state((jkey(A.as_json()), jkey(B.as_json()))); ctx.trace()


def tweak_cases(tier):
    return [{"s": s, "z": z, "dt": d} for s in (1e-7, 0.00099, 0.001, 0.01, 0.1, 0.5, 0.999, 1.0, 1.5, 7.3, 10.0, 123.0) for d in ("int8", "int4", "uint8", "int32") for z in ("lo", "mid", "hi")]


def tweaks(c, ctx):
    """A single step moves the scale by at most a tenth and the zero point by one, inside the dtype."""
    q = Quantization(c["dt"])
    lo, hi = q.min_value(), q.max_value()
    z = {"lo": lo, "mid": 3, "hi": hi}[c["z"]]
    up = down = zu = zd = 0
    for ch in explore(3):
        n = NodeTensorBase(c["s"], z, "n", q)
        seen = []
        with controlled(ch, MODS, unit=[0.0, 0.2, 0.5, 0.51, 0.8, 0.999999999]):
            o = BFSEqualizer(0).set_cost_fn(lambda: 0.0).set_initial_neigh([n])
            o.move()
        ctx.op(); ctx.state((n.scale, n.zero_point))
        ctx.check(n.scale > 0 and abs(n.scale - c["s"]) <= 0.1 * c["s"] * (1 + 1e-9), "scale step", got=n.scale, frm=c["s"])
        ctx.check(lo <= n.zero_point <= hi and abs(n.zero_point - z) == 1 and n.zero_point == int(n.zero_point), "zero point step", got=n.zero_point, frm=z)
        up += n.scale > c["s"]; down += n.scale < c["s"]; zu += n.zero_point > z; zd += n.zero_point < z
    ctx.trace()
    ctx.check(up and down, "the scale only moves one way", up=up, down=down)
    ctx.check((zu or z == hi) and (zd or z == lo), "the zero point only moves one way", up=zu, down=zd)


def consistent(ctx, net, layers, x):
    """The exported network is the one its parameters describe (kernels, biases, tables, codes)."""
    m = T03.NetModel(net.as_json(), layers)
    T03.observe(ctx, net, m, x, "equalization")


def net_cases(tier):
    d = {"rnd": 2, "cost": 3, "acc": 1} if tier == "quick" else {"rnd": 5, "cost": 5, "acc": 3}
    return [{"net": n, "opt": o, "how": h, "retries": r, "depth": d if r == 0 or tier == "thorough" else dict(d, cost=2)} for n in NETS for o in ("bfs", "annealer") for h in ("layers", "full", "both", "adaround") for r in (0, 1) if r == 0 or o == "bfs" or tier == "thorough"]


def network(c, ctx):
    for ch in explore(c["depth"]):
        net, x = make(c["net"])
        start = jkey(net.as_json())
        cost = Landscape(ch, VALUES)
        loss = lambda n: cost(jkey(n.schema))
        fac = lambda: mk(c["opt"], c["retries"])
        set_accept(accepting(ch))
        with controlled(ch, MODS, unit=TWO, spread=lambda n: range(n) if n <= 2 else (0, n - 1)):
            if c["how"] in ("layers", "both"):
                ParamEqualizerNet(net, loss, fac).equalize()
            if c["how"] in ("full", "both", "adaround"):
                ParamEqualizerFullNet(net, loss, fac).equalize()
            if c["how"] == "adaround":
                if NETS[c["net"]]:
                    consistent(ctx, net, NETS[c["net"]], x)
                AdaroundNet(net, loss, lambda: RoundingAnnealer(steps=0, max_retries=0)).round()
        ctx.op(len(cost.order)); ctx.state(tuple(hash(k) for k in cost.order)); ctx.trace()
        end = jkey(net.as_json())
        ctx.check(cost.order[0] == start, "the first evaluated network is not the given one")
        ctx.check(len(cost.memo) > 1, "nothing was tried")
        ctx.check(end in cost.memo, "the network left behind was never evaluated")
        ctx.check(cost.memo[end] == cost.best(), "the network is not left with the best parameters visited", got=cost.memo[end], best=cost.best(), start=cost.memo[start])
        if NETS[c["net"]] and c["how"] != "adaround":
            consistent(ctx, net, NETS[c["net"]], x)


def real_cases(tier):
    return [{"net": n, "draws": d, "ada": a} for n in NETS if n != "lstm" for d in range(4 if tier == "quick" else 16) for a in (False, True)]


def real(c, ctx):
    """The configured equalizer with a real loss, through the builder."""
    net, x = make(c["net"])
    base = net.as_sequential_network().infer(x)
    target = base + 0.02 * (base.max() - base.min()) * np.sin(np.arange(base.size) + c["draws"]).reshape(base.shape)
    visited = []

    def fn(n):
        v = float(np.mean((n.infer(x) - target) ** 2)); visited.append(v); return v
    start = fn(net.as_sequential_network()); visited.clear()
    ks = iter(range(c["draws"] * 1000, 10 ** 9))

    class Ch:
        def pick(self, n, kind=None):
            return (next(ks) * 2654435761 >> 7) % n
    cfg = QuantizerCfg(param_equalizer=ParamEqualizerCfg(max_retries=15), ada_round_net=RoundingMinimaCfg(max_retries=5) if c["ada"] else None)
    ch = Ch()
    set_accept(accepting(ch))
    with controlled(ch, MODS, unit=[0.05, 0.3, 0.6, 0.9, 0.45, 0.75]):
        net = K01.keras_builder.build("m", f"out{os.getpid()}.json", x, fn, cfg)
    end = float(np.mean((net.as_sequential_network().infer(x) - target) ** 2))
    ctx.op(len(visited)); ctx.state((end, len(visited))); ctx.trace()
    ctx.check(len(visited) > 15, "the equalizer did not run", n=len(visited))
    ctx.check(end <= start and end == min(visited), "the network is worse than the best one evaluated", start=start, end=end, best=min(visited))
    ctx.check(jkey(json.load(open(f"out{os.getpid()}.json"))) == jkey(net.as_json()), "the file written is not the optimized network")


PROP = Property("A02", [
    Scenario("optimizer", opt_cases, optimizer, "all cost landscapes and random tweaks of the parameter optimizers"),
    Scenario("costs", cost_cases, optimizer, "cost values of all magnitudes and arbitrarily small differences"),
    Scenario("retries", retry_cases, retries, "retry limits x position of the only improvement"),
    Scenario("needle", needle_cases, needle, "deep networks x position of the best evaluation"),
    Scenario("order", order_cases, order, "all pairs of networks one after the other"),
    Scenario("tweaks", tweak_cases, tweaks, "single steps at every kind of scale and zero point"),
    Scenario("network", net_cases, network, "layer-wise and full-network equalization of whole networks"),
    Scenario("real", real_cases, real, "configured equalizer with a real loss"),
], "model_checking", "state: sequence of evaluated parameter vectors with their costs; transition: one cost evaluation; trace: one complete optimization run under one resolution of all random choices and one cost landscape")
