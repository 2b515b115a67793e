import itertools, os, json
import numpy as np
import stubs; stubs.install()
import simanneal
from kit import Property, Scenario
from choose import explore, controlled, Landscape
from itcl_quantization import Quantization
import itcl_quantizer.equalizers.adaround.annealer as annealer_mod
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
from itcl_quantizer.equalizers.adaround.adaround import AdaRound, AdaroundNet
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.config.models.keras import QuantizerCfg, RoundingAnnealerCfg, RoundingMinimaCfg, ParamEqualizerCfg
from props import K01, K02
from props.K01 import data, W1, B1, W2, B2

MODS = [annealer_mod]
VALUES = [0.0, 1.0, 2.0]


def accepting(ch):
    """simanneal accepts improvements; a worse state is accepted or not (Metropolis): both are explored."""
    return staticmethod(lambda dE, T: True if dE <= 0 else bool(ch.pick(2, "acc")))


def set_accept(f):
    if getattr(simanneal.Annealer, "accept", None) is not None:
        simanneal.Annealer.accept = f


def pkey(policies):
    return tuple(np.asarray(p).astype(int).tobytes() + bytes(np.shape(p)) for p in policies)


def opt_cases(tier):
    out = []
    shapes = [[(3,)], [(2, 2)], [(2,), (3,)], [(1,), (2, 1)], [(1,)], [(1, 2, 2)], [(2, 1, 2), (1, 1)]]
    for sh in shapes:
        for steps, retries in ((0, 0), (0, 1), (0, 2), (1, 0), (2, 0), (1, 1), (3, 0)):
            for start in (0, 1):
                out.append({"shapes": sh, "steps": steps, "retries": retries, "start": start, "depth": (9 if len(sh[0]) < 3 else 7) if tier == "quick" else 12})
    return out


def optimizer(c, ctx):
    """Every cost landscape, every random move, every acceptance decision of the rounding search."""
    flips = [set() for _ in c["shapes"]]
    for ch in explore(c["depth"]):
        init = [np.full(s, 0) if c["start"] == 0 else (np.arange(int(np.prod(s))) % 2).reshape(s) for s in map(tuple, c["shapes"])]
        keep = [p.copy() for p in init]
        cost = Landscape(ch, SCALES[c["values"]] if "values" in c else VALUES)
        seen = []

        def fn(neigh):
            seen.append([np.array(n) for n in neigh])
            return cost(pkey(neigh))
        set_accept(accepting(ch))
        with controlled(ch, MODS):
            o = RoundingAnnealer(steps=c["steps"], max_retries=c["retries"])
            ctx.check(o.set_cost_fn(fn) is o and o.set_initial_neigh(init) is o, "setters return the optimizer")
            best, val = o.optimize()
        ctx.op(len(seen)); ctx.state(tuple(cost.order)); ctx.trace()
        ctx.check(all(np.array_equal(a, b) for a, b in zip(init, keep)), "the initial policies were modified")
        ctx.check(len(best) == len(init) and all(np.shape(b) == np.shape(i) and set(np.unique(b)) <= {0, 1} for b, i in zip(best, init)), "shape of the result", got=best)
        ctx.check(pkey(best) in cost.memo, "the returned rounding was never evaluated", got=best)
        ctx.check(val == cost.memo[pkey(best)], "the returned cost is not the cost of the returned rounding", got=val, want=cost.memo[pkey(best)])
        ctx.check(pkey(seen[0]) == pkey(keep), "the search does not start from the initial rounding")
        ctx.check(val == cost.best(), "a better rounding was visited than the one returned", got=val, best=cost.best())
        # local search: gives up only after more than `retries` consecutive failures
        last = min(i for i, k in enumerate(cost.order) if cost.memo[k] == val)
        ctx.check(len(cost.order) - 1 - last >= c["retries"], "the local search gave up early", after=len(cost.order) - 1 - last)
        for a, b in zip(seen, seen[1:]):
            for t, (p, q) in enumerate(zip(a, b)):
                flips[t] |= set(np.flatnonzero(p.ravel() != q.ravel()).tolist())
        for i, a in enumerate(seen[1:], 1):
            ctx.check(any(all(np.count_nonzero(p != q) <= 1 for p, q in zip(a, b)) for b in seen[:i]), "a rounding that is not one flip per tensor away from a visited one", at=i)
    for t, s in enumerate(c["shapes"] if "values" not in c else []):
        ctx.check(flips[t] == set(range(int(np.prod(s)))), "not every element of a tensor can be flipped", tensor=t, flipped=sorted(flips[t]))


SCALES = {      # cost values whose order must survive any amount of processing
    "close": [1.0, 1.0 + 1e-9, 1.0 - 1e-9], "ulp": [0.3, 0.1 + 0.2, 0.1 + 0.2 - 2e-16], "tiny": [1e-12, 3e-13, 1e-300], "huge": [1e20, 1e20 * (1 + 1e-12), 3e19],
    "negative": [-1.0, -1.5, 0.0], "ints": [3, 2, -1], "mixed": [1e20, -1e-9, 1e-9],
}


def cost_cases(tier):
    return [{"shapes": s, "steps": k, "retries": r, "start": 1, "depth": 6 if tier == "quick" else 9, "values": v}
            for s in ([(3,)], [(2,), (1, 2)]) for k, r in ((0, 2), (2, 0), (1, 1)) for v in SCALES]


def retry_cases(tier):
    return [{"retries": r, "steps": s} for r in [*range(0, 21), 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 256, 300, 500] + ([1000, 1024, 5000] if tier == "thorough" else []) for s in (0, 3)]


def retries(c, ctx):
    """The only improvement is the k-th consecutive try, for every k up to the limit; and the search ends."""
    R = c["retries"]
    for k in sorted(set(range(1, min(R, 12) + 1)) | {R // 2, R - 1, R} - {0, -1}) + [None]:
        n = [0]
        t0 = c["steps"] + 1      # evaluations before the local search (the annealing)
        vals = []

        def fn(neigh):
            n[0] += 1
            if n[0] > t0 + 4 * R + 50:
                raise RuntimeError("the search does not stop")
            vals.append(1.0 if k is None or len(vals) < t0 + k - 1 else (0.5 if len(vals) == t0 + k - 1 else 2.0))
            return vals[-1]

        class Ch:
            def pick(self, m, kind=None):
                return n[0] * 7 % m
        with controlled(Ch(), MODS):
            simanneal_reject()
            o = RoundingAnnealer(steps=c["steps"], max_retries=R)
            o.set_cost_fn(fn); o.set_initial_neigh([np.zeros(5, dtype=int), np.ones((3, 2), dtype=int)])
            best, val = o.optimize()
        ctx.op(n[0]); ctx.state((R, k)); ctx.trace()
        if k is None:
            ctx.check(n[0] - t0 >= R, "the local search gave up before its retries", evaluations=n[0], annealing=t0)
        else:
            ctx.check(val == 0.5, "an improvement within the allowed retries was not found", at=k, got=val)
            ctx.check(n[0] - t0 - k >= R, "the local search gave up early after an improvement", at=k, evaluations=n[0])


def simanneal_reject():
    set_accept(staticmethod(lambda dE, T: dE <= 0))


def size_cases(tier):
    ns = [*range(1, 71), 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 5000] + ([10000, 65535, 65537, 100003] if tier == "thorough" else [])
    return [{"n": n, "steps": s} for n in ns for s in (0, 2)]


def sizes(c, ctx):
    """Tensors of every size: the first, middle and last element can all be flipped, one element per tensor at a time, and the needle is kept."""
    n = c["n"]
    shapes = [(n,), (n, 2), (2,)]
    hit = [set() for _ in shapes]
    want = [{0, s // 2, s - 1} for s in (n, 2 * n, 2)]
    for needle in range(0, 6):
        for where in (0, 1, 2):
            seen = []

            class Ch:
                def pick(self, m, kind=None):
                    return (0, m // 2, m - 1)[(where + len(seen)) % 3]

            def fn(neigh):
                seen.append([np.array(p) for p in neigh])
                return 0.5 if len(seen) - 1 == needle else 1.0
            init = [np.arange(int(np.prod(s))).reshape(s) % 2 for s in shapes]
            with controlled(Ch(), MODS):
                simanneal_reject()
                o = RoundingAnnealer(steps=c["steps"], max_retries=8)
                o.set_cost_fn(fn); o.set_initial_neigh(init)
                best, val = o.optimize()
            for a, b in zip(seen, seen[1:]):
                for t, (p, q) in enumerate(zip(a, b)):
                    hit[t] |= set(np.flatnonzero(p.ravel() != q.ravel()).tolist())
            ctx.op(len(seen)); ctx.state((needle, where, len(seen))); ctx.trace()
            if len(seen) > needle:
                ctx.check(val == 0.5 and all(np.array_equal(x, y) for x, y in zip(best, seen[needle])), "the best rounding visited was not returned", needle=needle, got=val)
            ctx.check(all(np.array_equal(i, np.arange(i.size).reshape(i.shape) % 2) for i in init), "the initial policies were modified")
    for t, w in enumerate(want):
        ctx.check(w <= hit[t], "elements that can never be flipped", tensor=shapes[t], missing=sorted(w - hit[t]))


def reuse_cases(tier):
    return [{"a": a, "b": b, "depth": 5 if tier == "quick" else 8} for a in range(4) for b in range(4)]


def reuse(c, ctx):
    """Problems solved one after the other, each with its own optimizer, and one optimizer used for two problems."""
    S = [[(3,)], [(2, 2)], [(2,), (3,)], [(1,)]]
    for ch in explore(c["depth"]):
        one = RoundingAnnealer(steps=0, max_retries=1)
        for same in (False, True):
            for sh in (S[c["a"]], S[c["b"]]):
                init = [np.zeros(s, dtype=int) for s in sh]
                cost, order = Landscape(ch, VALUES), []
                set_accept(accepting(ch))
                with controlled(ch, MODS):
                    o = one if same else RoundingAnnealer(steps=0, max_retries=1)
                    o.set_cost_fn(lambda p: cost(pkey(p))); o.set_initial_neigh(init)
                    best, val = o.optimize()
                ctx.op(len(cost.order))
                ctx.check(cost.order[0] == pkey(init), "the search does not start from the initial rounding of this problem")
                ctx.check(val == cost.best() == cost.memo.get(pkey(best)), "the best rounding of this problem was not returned", got=val, best=cost.best())
        ctx.trace(); ctx.state((c["a"], c["b"], tuple(ch.taken)))


def node_cases(tier):
    return [{"lut": l, "steps": s, "retries": r, "depth": 6 if tier == "quick" else 9} for l in (False, True) for s in (0, 2) for r in (0, 1)]


def nodes(c, ctx):
    """AdaRound over live nodes: the rounding it reports is the one left in the tensors and tables."""
    for ch in explore(c["depth"]):
        a = NodeTensorBase(0.5, 1, "a", Quantization("int8")).with_tensor(np.array([[0.3, -0.6], [1.1, 0.2]]))
        b = NodeTensorBase(0.1, 0, "b", Quantization("int8")).with_tensor(np.array([0.33, -0.57, 0.02]))
        l = NodeTensorBase(0.5, 0, "l", Quantization("int3")).with_lut(np.tanh, 0.3, 0).LUT
        live = [a, b] + ([l] if c["lut"] else [])
        codes = lambda: (a.quantized.tobytes(), b.quantized.tobytes(), tuple(l[i] for i in range(len(l))))
        start = codes()
        cost = Landscape(ch, VALUES)
        evals = [0]

        def fn():
            evals[0] += 1
            return cost(codes())
        set_accept(accepting(ch))
        with controlled(ch, MODS):
            r = AdaRound(RoundingAnnealer(steps=c["steps"], max_retries=c["retries"]), fn, None, None, None).round(live)
        ctx.op(evals[0]); ctx.state(tuple(cost.order)); ctx.trace()
        ctx.check(list(r) == live, "AdaRound returns the tensors it was given")
        ctx.check(cost.order[0] == start, "the first evaluated rounding is not the current one")
        ctx.check(codes() in cost.memo and cost.memo[codes()] == cost.best(), "the tensors are not left with the best rounding visited", got=cost.memo.get(codes()), best=cost.best())
        ctx.check(cost.memo[codes()] <= cost.memo[start], "AdaRound made the tensors worse")
        for n, f, z, s in ((a, a.fp_tensor, 1, 0.5), (b, b.fp_tensor, 0, 0.1)):
            fl = np.floor(f / s + z)
            ctx.check(np.all((n.quantized == fl) | (n.quantized == fl + 1)), "a code is neither floor nor ceil")


def jkey(js):
    """What a network computes: the JSON without its time stamp."""
    return json.dumps({k: v for k, v in js.items() if k != "generated_at"}, sort_keys=True, default=str)


NETS = {
    "linear": [(W1, B1, "linear")],
    "tanh": [(W1, B1, "tanh")],
    "relu-sigmoid": [(W1, B1, "relu"), (W2, B2, "sigmoid")],
    "lstm": None,
}


def make(name, cfg=None, loss=None):
    if name == "lstm":
        layers = [("lstm", K02.weights(1, 1), False), ("dense", [[0.7, -0.4]], [0.1, 0.2], "tanh")]
        x = K02.windows("mixed", 2, 1)
        return K02.quantize(layers, x), x
    x = data("mixed", 2)
    return K01.quantize(NETS[name], x), x


def spread(n):
    return range(n) if n <= 6 else sorted({0, 1, n // 2, n - 1})


def net_cases(tier):
    return [{"net": n, "steps": s, "retries": r, "depth": {"rnd": 2, "cost": 3, "acc": 1} if tier == "quick" else {"rnd": 4, "cost": 5, "acc": 3}} for n in NETS for s, r in ((0, 0), (0, 1), (2, 0))]


def network(c, ctx):
    """Network aware AdaRound: the network is left with the best of all visited roundings, layer after layer."""
    for ch in explore(c["depth"]):
        net, x = make(c["net"])
        start = jkey(net.as_json())
        cost = Landscape(ch, VALUES)

        def loss(n):
            return cost(jkey(n.schema))
        set_accept(accepting(ch))
        with controlled(ch, MODS, spread=spread):
            AdaroundNet(net, loss, lambda: RoundingAnnealer(steps=c["steps"], max_retries=c["retries"])).round()
        ctx.op(len(cost.order)); ctx.state(tuple(hash(k) for k in cost.order)); ctx.trace()
        end = jkey(net.as_json())
        ctx.check(cost.order[0] == start, "the first evaluated network is not the given one")
        ctx.check(end in cost.memo, "the network left behind was never evaluated")
        ctx.check(cost.memo[end] == cost.best(), "the network is not left with the best rounding visited", got=cost.memo[end], best=cost.best(), start=cost.memo[start])


DEEP = [("linear", 9), ("tanh", 9), ("relu", 12), ("sigmoid", 17)]


def needle_cases(tier):
    out = [{"act": a, "depth": d, "k": k, "r": r} for a, d in DEEP for k, r in [(k, 0) for k in range(0, 2 * d)] + ([(k, 1) for k in range(0, 3 * d)] if tier == "thorough" else [])]
    return out + [{"wide": list(w), "k": k, "r": 1} for w in ((65, 65), (1, 300), (300, 1), (130, 40)) for k in range(0, 3)]


def needle(c, ctx):
    """Deep and wide networks: exactly one evaluation of the whole run is the best, and it is what the network keeps."""
    if "wide" in c:
        n, m = c["wide"]
        layers = [(np.sin(np.arange(n * m) * 1.3).reshape(n, m), np.cos(np.arange(m)), "tanh")]
        x = np.sin(np.arange(3 * n) * 0.7).reshape(3, n)
    else:
        layers = [([[0.9, -0.31], [0.23, 0.77]], [0.11, -0.2], c["act"])] * c["depth"]
        x = data("mixed", 2)
    net = K01.quantize(layers, x)
    js = []
    best = 1e-3

    def loss(n):
        js.append(jkey(n.schema))
        return best if len(js) - 1 == c["k"] else best + 1e-9

    class Ch:
        def pick(self, m, kind=None):
            return (0, m // 2, m - 1)[len(js) % 3]
    with controlled(Ch(), MODS):
        simanneal_reject()
        AdaroundNet(net, loss, lambda: RoundingAnnealer(steps=0, max_retries=c["r"])).round()
    ctx.op(len(js)); ctx.state(tuple(map(hash, js))); ctx.trace()
    ctx.check("wide" in c or len(js) >= 2 * c["depth"], "not every layer was optimized", evaluations=len(js))
    ctx.check(len(js) > c["k"] and jkey(net.as_json()) == js[c["k"]], "the network is not left with the best rounding evaluated", at=c["k"])
    # every kernel and bias was tried
    if c["k"] == 0 and "wide" not in c:
        first, vary = json.loads(js[0]), set()
        for j in js[1:]:
            for g, (a, b) in enumerate(zip(first["graph"], json.loads(j)["graph"])):
                for i, (p, q) in enumerate(zip(a["inputs"], b["inputs"])):
                    if p["tensor"]["tensor"] != q["tensor"]["tensor"]:
                        vary.add((g, i))
        fc = [g for g, o in enumerate(first["graph"]) if len(o["inputs"]) == 3]
        ctx.check(len(fc) == c["depth"] and all((g, 1) in vary or (g, 2) in vary for g in fc), "layers whose rounding was never tried", tried=sorted(vary))


def cover_cases(tier):
    out = [{"net": n, "steps": s} for n in ("dense", "table", "two", "lstm") for s in ((0, 3) if n == "dense" or tier == "thorough" else (0,))]
    return out + [{"net": n, "steps": 0, "cfg": k} for n in ("dense", "table", "two", "curve") for k in CFGS] + [{"net": f"single{i}", "steps": 0} for i in range(4)]


CFGS = {"symmetric": dict(kernel_symmetric=True), "int4": dict(kernel_dtype="int4", bias_add_dtype="int4", activation_dtype="int4"), "wide kernel": dict(kernel_dtype="int16", kernel_symmetric=True),
        "narrow table": dict(activation_dtype="int2", bias_add_dtype="int6", kernel_symmetric=True)}


def cover(c, ctx):
    """Every element of every kernel, recurrent kernel, bias and activation table is within the optimizer's reach."""
    if c["net"] == "lstm":
        x = K02.windows("mixed", 3, 2)
        net = K02.quantize([("lstm", K02.weights(2, 2), True), ("lstm", K02.weights(2, 2, seed=3), False)], x)
    else:
        x = data("mixed", 2)
        S = {f"single{i}": [([[0.9, -0.4], [0.23, 0.7]], None, "tanh"), ([[w], [-0.31]], [b], "linear")] for i, (w, b) in enumerate(((0.9, 0.104), (0.7, -0.3), (1.1, 0.009), (0.8, 0.77)))}
        W, B = [[0.9, -0.31, 0.4], [0.23, 0.77, -0.15]], [0.1, -0.2, 0.33]
        cfg = QuantizerCfg(dense=K01.KerasDenseCfg(**dict(K01.DCFG, **CFGS[c["cfg"]]))) if "cfg" in c else None
        net = K01.quantize({**S, "curve": [(W, B, "relu6"), ([[0.3, -0.8], [0.6, 0.2], [-0.5, 0.45]], [0.2, -0.4], "tanh")], "dense": [(W, B, "linear")], "table": [(W, B, "tanh")], "two": [(W, B, "relu"), ([[0.3, -0.8], [0.6, 0.2], [-0.5, 0.45]], [0.2, -0.4], "sigmoid")]}[c["net"]], x, cfg)
    start = jkey(net.as_json())
    first, vary = json.loads(start), {}

    def flat(v):
        return np.asarray(v, dtype=object).ravel().tolist()

    def views(js):
        for g, o in enumerate(js["graph"]):
            for i, n in enumerate(o["inputs"]):
                for kind, v in (("tensor", (n["tensor"] or {}).get("tensor")), ("LUT", n.get("LUT"))):
                    if v is not None:
                        yield (g, i, kind), flat(v["LUT"] if kind == "LUT" else v)
    base = dict(views(first))
    for k in range(max(len(v) for v in base.values())):
        def loss(n):
            js = json.loads(jkey(n.schema))
            for key, v in views(js):
                for e, (p, q) in enumerate(zip(base[key], v)):
                    if p != q:
                        vary.setdefault(key, set()).add(e)
            ctx.op()
            return 1.0 if jkey(n.schema) == start else 2.0

        class Ch:
            def pick(self, m, kind=None):
                return k % m
        with controlled(Ch(), MODS):
            simanneal_reject()
            AdaroundNet(net, loss, lambda: RoundingAnnealer(steps=c["steps"], max_retries=0)).round()
        ctx.check(jkey(net.as_json()) == start, "a worse network was kept")
        ctx.trace()
    ctx.state(tuple(sorted((k, len(v)) for k, v in vary.items())))
    for g, o in enumerate(first["graph"]):
        lstm = o["op_type"].upper() == "LSTM"
        want = [(g, i, "tensor") for i in (range(1, 13) if lstm else (1, 2))] if lstm or len(o["inputs"]) == 3 else \
               [(g, 0, "LUT")] if (g, 0, "LUT") in base else []
        for key in want:        # extremes of a range have both roundings on the same code
            ctx.check(key in vary, "a tensor or table whose rounding was never tried", tensor=key, name=o["inputs"][key[1]]["tensor"]["name"])
            t, lo, hi = base[key], min(base[key]), max(base[key])
            if True:
                ctx.check(all(e in vary[key] for e, v in enumerate(t) if lo < v < hi), "an element whose rounding was never tried", tensor=key, tried=sorted(vary[key]))


def real_cases(tier):
    return [{"net": n, "opt": o, "draws": d} for n in NETS for o in ("minima", "annealer") for d in range(4 if tier == "quick" else 12)]


def real(c, ctx):
    """The configured optimizers with a real loss (mean squared error against the float outputs), through the builder."""
    name = c["net"]
    net, x = make(name)
    base = net.as_sequential_network().infer(x)
    target = base + 0.37 * (base.max() - base.min()) * np.sin(np.arange(base.size) + c["draws"]).reshape(base.shape) * 0.05
    loss = lambda n: float(np.mean((n.infer(x) - target) ** 2))
    cfg = RoundingMinimaCfg(max_retries=6) if c["opt"] == "minima" else RoundingAnnealerCfg(steps=25, max_retries=6)
    start = loss(net.as_sequential_network())
    visited = []

    def fn(n):
        v = loss(n); visited.append((v, jkey(n.schema))); return v
    ks = iter(range(c["draws"], 10 ** 9))

    class Ch:
        def pick(self, n, kind=None):
            return (next(ks) * 2654435761 >> 7) % n
    ch = Ch()
    set_accept(accepting(ch))
    with controlled(ch, MODS):
        if name == "lstm":
            AdaroundNet(net, fn, cfg.build).round()
        else:
            net = K01.keras_builder.build("m", f"out{os.getpid()}.json", x, fn, QuantizerCfg(ada_round_net=cfg))
    end = loss(net.as_sequential_network())
    ctx.op(len(visited)); ctx.state((end, len(visited))); ctx.trace()
    ctx.check(len(visited) > 7, "the optimizer did not run")
    ctx.check(end <= start and end == min(v for v, _ in visited), "AdaRound left a worse network than the best one it evaluated", start=start, end=end, best=min(v for v, _ in visited))
    if name != "lstm":
        ctx.check(jkey(json.load(open(f"out{os.getpid()}.json"))) == jkey(net.as_json()), "the file written is not the optimized network")


PROP = Property("A01", [
    Scenario("optimizer", opt_cases, optimizer, "all cost landscapes, moves and acceptances of the rounding search"),
    Scenario("costs", cost_cases, optimizer, "cost values of all magnitudes and arbitrarily small differences"),
    Scenario("retries", retry_cases, retries, "retry limits x position of the only improvement"),
    Scenario("sizes", size_cases, sizes, "tensor sizes x position of the best evaluation"),
    Scenario("reuse", reuse_cases, reuse, "problems one after the other"),
    Scenario("needle", needle_cases, needle, "deep and wide networks x position of the best evaluation"),
    Scenario("cover", cover_cases, cover, "every element of every tensor and table"),
    Scenario("nodes", node_cases, nodes, "AdaRound on live tensors and tables"),
    Scenario("network", net_cases, network, "AdaRound on whole networks"),
    Scenario("real", real_cases, real, "configured optimizers with a real loss"),
], "model_checking", "state: sequence of evaluated roundings with their costs; transition: one cost evaluation; trace: one complete optimization run under one resolution of all random choices and one cost landscape")
