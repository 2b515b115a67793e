import itertools
import numpy as np
import stubs; stubs.install()
import robust
from kit import Property, Scenario
import ref, netref
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
from itcl_quantizer.quantizer.metrics.noise import cross_entropy, kl_divergence, mse
import itcl_quantizer.optimizers.scipy_optimizer as so_mod
import scipy.optimize as opt_mod
from scipy.optimize import OptimizeResult
from itcl_quantizer.optimizers import MinMaxOptimizer, FixedPercentOptimizer, ScipyOptimizer
from itcl_quantizer.optimizers.kl_div_optimizer import KLDivergenceOptimizer
from itcl_quantizer.tensor_extractor.keras.layers.keras_dense import KerasDense
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from stubs import Dense

AL = [-40.0, -1.0, -0.25, 0.0, 0.5, 1.0, 3.0, 100.0]
FAMS = {
    "ramp": np.linspace(-2.0, 5.0, 101),
    "tails": np.concatenate([np.linspace(-1, 1, 97), [-30.0, 25.0, 40.0, -31.0]]),
    "positive": np.linspace(0.0, 9.0, 61) ** 2,
    "narrow": np.linspace(-0.2, 0.3, 77),
    "twins": np.repeat([-3.0, -0.5, 0.0, 0.5, 6.0], 9),
    "outlier": np.concatenate([np.linspace(-1, 1, 60), [55.0]]),
}
PS = [0.0, 0.001, 0.005, 0.0099, 0.01, 0.1, 0.5, 1.0, 5.0, 10.0, 25.0, 49.0]


def percent_cases(tier):
    return [{"p": p, "bins": b, "data": d} for p in PS for b in (512, 16, 1, 3, 700, 2048) for d in ["all"] + list(FAMS)]


def percent(c, ctx):
    """The percentile optimizer clips p percent of the elements at each end and nothing else."""
    sets = itertools.combinations(AL, 4) if c["data"] == "all" else [FAMS[c["data"]]]
    for data in sets:
        data = np.array(data, dtype=float); keep = data.copy()
        d = Distribution(data, bins=c["bins"])
        before = (list(d.get_histogram()), list(d.get_bin_edges()))
        t = FixedPercentOptimizer(c["p"]).trim(d)
        ctx.op()
        lo, hi = np.percentile(keep, c["p"]), np.percentile(keep, 100 - c["p"])
        if lo == hi:
            continue
        want = np.sort(keep.clip(lo, hi))
        ctx.close([t.get_min(), t.get_max()], [lo, hi], 1e-9 * (1 + np.abs([lo, hi])), "range kept by the percentile optimizer", data=data, p=c["p"])
        ctx.check(sum(t.get_histogram()) == len(keep), "elements were dropped")
        ctx.check(len(t) == len(d) == c["bins"], "number of bins of the trimmed distribution", got=len(t), want=c["bins"])
        e = t.get_bin_edges()
        for i, h in enumerate(t.get_histogram()):
            n = np.sum((want >= e[i]) & ((want <= e[i + 1]) if i == len(e) - 2 else (want < e[i + 1])))
            ctx.check(h == n, "trimmed histogram", bin=i, got=h, want=n)
        q = Quantization("int8")
        s, z = t.quantize(q)
        span = max(hi, 0) - min(lo, 0)
        ctx.check(span / 255 * (1 - 1e-9) <= s <= span / 255 * (1 + 1e-9), "scale of the trimmed range", got=s, want=span / 255)
        ctx.check((list(d.get_histogram()), list(d.get_bin_edges())) == before, "the original distribution changed")
        ctx.state((c["p"], s, z))
    ctx.trace()


def psize_cases(tier):
    return [{"p": p} for p in (0.001, 0.05, 1.0, 12.5, 33.3)]


def psizes(c, ctx):
    """Data sets of every size: the percentiles are those of all the elements."""
    for n in robust.sizes(ctx.tier, 60) + [10001, 20000, 65537, 100003]:
        v = np.sin(np.arange(n) * 1.7 + 0.1) ** 3 * (1 + np.arange(n) % 7)
        keep = v.copy()
        d = Distribution(v, bins=32)
        t = FixedPercentOptimizer(c["p"]).trim(d); ctx.op()
        lo, hi = np.percentile(keep, c["p"]), np.percentile(keep, 100 - c["p"])
        ctx.check(np.array_equal(keep, v), "the data changed")
        if hi - lo < 1e-9:
            continue
        ctx.close([t.get_min(), t.get_max()], [lo, hi], 1e-9 * (1 + np.abs([lo, hi])), f"range kept of {n} elements", p=c["p"])
        ctx.check(sum(t.get_histogram()) == n, f"elements kept of {n}", got=sum(t.get_histogram()))
        w = np.sort(keep.clip(lo, hi))
        e = np.array(t.get_bin_edges())
        ctx.close(np.array(t.get_histogram(), float), np.histogram(w, bins=e)[0].astype(float), 2, f"histogram of {n} elements")
        ctx.state((n, c["p"]))
    ctx.trace()


def noise(d, trimmed, data, q, metric):
    """Distance between the histograms of the data and of its round trip through the trimmed parameters."""
    s, z = trimmed.quantize(q)
    back = q.dequantize(q.quantize(np.sort(data), z, s), z, s)
    return d.compare(Distribution(back, bins=d.get_bin_edges()), metric)


METHODS = ["Nelder-Mead", "Powell", "COBYLA", "L-BFGS-B", "TNC", "SLSQP"]


def scipy_cases(tier):
    return [{"q": q, "metric": m, "data": d, "bins": b} for q in ("int8", "int4", "uint8", "int6", "uint4", "int3") for m in ("kl", "mse") for d in FAMS for b in (64, 512)]


def inside(ctx, d, t):
    ctx.check(d.get_min() - 1e-9 <= t.get_min() <= t.get_max() <= d.get_max() + 1e-9, "the trimmed range leaves the original one", got=(t.get_min(), t.get_max()))


def scipy(c, ctx):
    """Noise-minimizing trimming: the kept range lies inside the original one, its noise never exceeds that of the
    untrimmed range for the dtype asked for.  With an exhaustive minimizer in place of scipy's, the least noisy of all
    ranges of a grid is kept."""
    data = FAMS[c["data"]]
    m = {"kl": kl_divergence, "mse": mse}[c["metric"]]
    q = Quantization(c["q"])
    d = Distribution(data, bins=c["bins"])
    full = noise(d, d, data, q, m)
    for meth in METHODS:
        if meth == "Powell" and not ctx.thorough and c["bins"] == 512:
            continue
        t = ScipyOptimizer(q, m, meth).trim(d)
        ctx.op(); inside(ctx, d, t)
        a = noise(d, t, data, q, m)
        ctx.check(a <= full * (1 + 1e-9) + 1e-12, f"{meth}: trimming made the quantization noisier", trimmed=a, untrimmed=full, range=(t.get_min(), t.get_max()))
        ctx.state((t.get_min(), t.get_max()))
    lo, hi = d.get_bin_edges()[0], d.get_bin_edges()[-1]
    n = 9 if ctx.tier == "quick" else 17
    grid = [(a, b) for a in np.linspace(lo, hi, n) for b in np.linspace(lo, hi, n) if b - a >= 1.0 + 1e-9]
    if not grid:
        return
    calls = []

    def exhaustive(fun, x0, *_, **kw):
        vals = [(float(fun(np.array(x))), x) for x in grid]
        calls.append(len(vals))
        v, x = min(vals, key=lambda p: p[0])
        return OptimizeResult(x=np.array(x), fun=v, success=True)
    saved = so_mod.minimize, opt_mod.minimize
    so_mod.minimize = opt_mod.minimize = exhaustive
    try:
        t = ScipyOptimizer(q, m, "exhaustive").trim(d)
    finally:
        so_mod.minimize, opt_mod.minimize = saved
    ctx.op(len(grid)); inside(ctx, d, t)
    want = min(noise(d, d[a:b], data, q, m) for a, b in grid)
    got = noise(d, t, data, q, m)
    ctx.check(got <= min(want, full) * (1 + 1e-9) + 1e-12, "a noisier range than the best of the grid is kept", got=got, best=want, range=(t.get_min(), t.get_max()))
    ctx.state((t.get_min(), t.get_max())); ctx.trace()


def metric_cases(tier):
    return [{"n": n} for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5))]


def metrics(c, ctx):
    """The noise metrics are what their names say: mean squared difference, Kullback-Leibler divergence of two histograms
    (an empty bin counts as 1e-10), the cross entropy; zero for equal arguments."""
    A = (0.0, 0.25, 0.5, 0.125)
    for p in itertools.product(A, repeat=c["n"]):
        for r in itertools.product(A, repeat=c["n"]):
            P, R = np.array(p), np.array(r)
            ctx.close(mse(P.copy(), R.copy()), sum((a - b) ** 2 for a, b in zip(p, r)) / c["n"], 1e-12, "mse", p=p, q=r)
            e = lambda v: v or 1e-10
            want = sum(e(a) * np.log(e(a) / e(b)) - e(a) + e(b) for a, b in zip(p, r))
            ctx.close(kl_divergence(P.copy(), R.copy()), want, 1e-12, "kl divergence", p=p, q=r)
            if all(r):
                ctx.close(cross_entropy(P.copy(), R.copy()), -sum(a * np.log(b) for a, b in zip(p, r)), 1e-12, "cross entropy", p=p, q=r)
            ctx.op(3); ctx.state((p, r))
    ctx.trace()


W = [[0.9, -1.1, 8.0], [-0.4, 0.6, 0.05], [0.3, -6.0, 0.2]]


class Half:
    """Optimizer that keeps a fixed range."""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def trim(self, d):
        return Distribution(np.clip(np.asarray(W).ravel(), self.lo, self.hi))


def layer_cases(tier):
    return [{"opt": o, "dtype": t, "sym": s} for o in ("minmax", "p10", "p25", "fixed") for t in ("int8", "int4", "int16") for s in (True, False)]


def layers(c, ctx):
    """A dense layer quantized with a kernel optimizer: codes are the trimmed kernel, parameters those of the kept range."""
    opt = {"minmax": MinMaxOptimizer(), "p10": FixedPercentOptimizer(10), "p25": FixedPercentOptimizer(25), "fixed": Half(-1.0, 2.0)}[c["opt"]]
    w = np.array(W, dtype=float)
    lo, hi = {"minmax": (w.min(), w.max()), "p10": (np.percentile(w, 10), np.percentile(w, 90)), "p25": (np.percentile(w, 25), np.percentile(w, 75)), "fixed": (-1.0, 2.0)}[c["opt"]]
    layer = Dense(3, "linear", weights=[w, np.array([0.1, -0.2, 0.0])], name="L")
    x = np.array([[0.5, -1.0, 2.0], [1.5, 0.3, -0.7]])
    k = KerasDense(layer, kernel_optimizer=opt, kernel_dtype=c["dtype"], kernel_symmetric=c["sym"])
    ctx.op()
    node = NodeTensorBase(2.0 / 255, -10, "in", Quantization("int8"))
    kn = k.quantize(QuantizationResult(x, None, node, None)).operators[0].as_json()["inputs"][1]
    q = Quantization(c["dtype"])
    s = max(-lo, hi) / (q.max_value() if c["sym"] else -q.min_value())
    ctx.check(abs(kn["scale"] - s) <= 1e-6 * s and kn["zero_point"] == 0, "scale of the trimmed kernel", got=kn["scale"], want=s)
    a, b = ref.quantize_bounds(np.float32(w.T).clip(lo, hi), 0, kn["scale"], q.min_value(), q.max_value())
    netref.between(ctx, kn["tensor"]["tensor"], a, b, "codes of the trimmed kernel")
    ctx.state(np.asarray(kn["tensor"]["tensor"])); ctx.trace()


def place_cases(tier):
    rng = ((-1.0, 2.0), (-0.3, 0.2), (0.1, 0.4), (-3.0, -0.5), (-8.0, 8.0)) + (((-1e-3, 5e-4), (0.0, 0.75), (-120.0, 300.0)) if tier == "thorough" else ())
    return [{"act": a, "on": on, "how": h, "dtype": t} for a in ("linear", "tanh", "sigmoid", "relu", "elu") for t in ("int8", "int16")
            for on in (("kernel",), ("bias_add",), ("activation",), ("bias_add", "activation"), ("kernel", "bias_add", "activation")) for h in [*map(list, rng), "p5", "p20"]]


class Kept:
    """Optimizer that keeps a given range and remembers what it was asked to trim."""
    def __init__(self, how):
        self.how, self.seen = how, []

    def trim(self, d):
        self.seen.append((d.get_min(), d.get_max()))
        return FixedPercentOptimizer(float(self.how[1:])).trim(d) if isinstance(self.how, str) else Distribution(np.linspace(self.how[0], self.how[1], 9))


def places(c, ctx):
    """The optimizer given for a kernel, a layer output or an activation output trims that range, and only that one."""
    w, b = np.array(W, dtype=float), np.array([0.1, -0.2, 0.0])
    x = np.array([[0.5, -1.0, 2.0], [1.5, 0.3, -0.7], [-0.2, 0.9, 0.4], [0.05, 0.1, -0.15]])
    layer = Dense(3, c["act"], weights=[w, b], name="L")
    opts = {n: Kept(c["how"]) for n in c["on"]}
    k = KerasDense(layer, **{f"{n}_optimizer": o for n, o in opts.items()}, kernel_symmetric=False, bias_add_dtype=c["dtype"], activation_dtype=c["dtype"])
    node = NodeTensorBase(2.0 / 255, -10, "in", Quantization("int8"))
    ops = [o.as_json() for o in k.quantize(QuantizationResult(x, None, node, None)).operators]
    ctx.op()
    pre = np.float32(x) @ np.float32(w) + np.float32(b)
    post = {"linear": lambda v: v, "relu": lambda v: np.maximum(v, 0), "tanh": np.tanh, "sigmoid": lambda v: 1 / (1 + np.exp(-v)), "elu": lambda v: np.where(v > 0, v, np.expm1(v))}[c["act"]](pre.astype(float))
    parts = {"kernel": (w, ops[0]["inputs"][1], "int8"), "bias_add": (pre, ops[0]["outputs"][0], c["dtype"])}
    if len(ops) > 1:
        parts["activation"] = (post, ops[1]["outputs"][0], c["dtype"])
    ctx.check(len(ops) == (2 if c["act"] in ("tanh", "sigmoid", "elu") else 1), "operators of a layer", got=len(ops))
    for name, (v, n, dt) in parts.items():
        lo, hi = float(np.min(v)), float(np.max(v))
        if name == "bias_add" and c["act"] == "relu":       # the fused activation decides the range
            lo, hi = max(lo, 0.0), max(hi, 0.0)
        elif name in opts:
            ctx.check(len(opts[name].seen) >= 1, "an optimizer that was given is not used", which=name)
            ctx.close(opts[name].seen[0], [lo, hi], 1e-5 * (1 + max(-lo, hi)), "range handed to the optimizer", which=name)
            lo, hi = np.percentile(v, [float(c["how"][1:]), 100 - float(c["how"][1:])]) if isinstance(c["how"], str) else c["how"]
        q = Quantization(dt)
        if name == "kernel":
            s, z = max(-lo, hi) / -q.min_value(), [0]
        else:
            lo, hi = min(lo, 0.0), max(hi, 0.0)
            s = (hi - lo) / (q.max_value() - q.min_value())
            t = q.min_value() - lo / s
            z = {round(t - 1e-3 * (dt == "int8") - 0.3 * (dt == "int16")), round(t), round(t + 1e-3 * (dt == "int8") + 0.3 * (dt == "int16"))}
        ctx.check(abs(n["scale"] - s) <= 1e-5 * s, "scale of a trimmed range", which=name, got=n["scale"], want=s)
        ctx.check(n["zero_point"] in z, "zero point of a trimmed range", which=name, got=n["zero_point"], want=sorted(z))
        ctx.state((name, round(s, 9)))
    ctx.trace()


def reduce_cases(tier):
    return [{"n": n, "target": t, "first": f} for n, t in ((4, 2), (6, 3), (6, 2), (8, 2), (8, 4)) + (((9, 3), (10, 5)) if tier != "quick" else ()) for f in (0, 1, 5)]


def reduces(c, ctx):
    """Reduced histograms keep the count of every group of bins, spread evenly over its occupied bins."""
    n, g = c["n"], c["n"] // c["target"]
    for rest in itertools.product((0, 1, 5), repeat=n - 1):
        h = [c["first"], *rest]
        got = KLDivergenceOptimizer(n, c["target"]).reduce(list(h))
        ctx.op()
        want = []
        for i in range(0, n, g):
            part = h[i:i + g]
            occ = sum(v > 0 for v in part)
            want += [sum(part) / occ if v else 0 for v in part]
        ctx.close(got, want, 1e-9, "reduced histogram", histogram=h)
        ctx.state(tuple(got))
    ctx.trace()


PROP = Property("O01", [
    Scenario("percentile", percent_cases, percent, "all data sets over an alphabet and distribution families x percentages"),
    Scenario("percentile-sizes", psize_cases, psizes, "data set sizes x percentages"),
    Scenario("scipy", scipy_cases, scipy, "distribution families x dtypes x metrics"),
    Scenario("metrics", metric_cases, metrics, "all small vectors over an alphabet"),
    Scenario("places", place_cases, places, "which range of a layer is trimmed by which optimizer"),
    Scenario("reduce", reduce_cases, reduces, "all histograms over an alphabet x reductions"),
    Scenario("layers", layer_cases, layers, "dense layers with every kernel optimizer"),
], "model_checking", "state: trimmed range of one data set; transition: one trimming; trace: one family of data sets or one layer checked against the definition")
