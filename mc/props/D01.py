import itertools
import numpy as np
import stubs; stubs.install()
import robust
from kit import Property, Scenario
import ref
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
from itcl_quantizer.quantizer.metrics.noise import kl_divergence, mse, cross_entropy

AL = [-1000.0, -2.5, -1.0, -0.3, -1e-3, 0.0, 1e-3, 0.3, 1.0, 2.5, 127.0, 1e6]
QS = ["int8", "uint8", "int4", "int16", "int2", "uint4", "int32"]
MODES = ["affine", "symmetric", "symmetric0", "zp0", "scale", "both", "zero"]


def multisets(al, n):
    for k in range(1, n + 1):
        yield from itertools.combinations_with_replacement(al, k)


def range_cases(tier):
    return [{"q": q, "mode": m, "bins": b, "type": t, "n": 3 if tier == "quick" else 4} for q in QS for m in MODES for b in (512, 1, 2, 7)
            for t in ("float64", "float32", "list", "2d") if not (q.startswith("u") and m in ("symmetric0", "symmetric"))]


def carrier(data, t):
    if t == "list":
        return list(data)
    if t == "2d":
        return np.array([data[::-1]] * 2)
    return np.array(data, dtype=t)[::-1]


def ranges(c, ctx):
    """Scale and zero point cover the data (and zero) tightly: round trips cost at most half a step."""
    q = Quantization(c["q"])
    qlo, qhi = q.min_value(), q.max_value()
    m = c["mode"]
    sets = [(0.0,) * k for k in (1, 2, 5)] if c["mode"] == "zero" else list(multisets([a for a in AL if a >= 0 or m != "zp0" or qlo < 0], c["n"]))
    for data in sets:
        arr = carrier(data, c["type"])
        flat = np.sort(np.array(arr, dtype=float).ravel())
        d = Distribution(arr, bins=c["bins"])
        kw = {"symmetric": {"symmetric": True}, "symmetric0": {"symmetric": True, "force_zp": 0}, "zp0": {"force_zp": 0},
              "scale": {"force_s": 0.37}, "both": {"force_s": 0.37, "force_zp": 3 if qhi >= 3 else 1}}.get(m, {})
        s, z = d.quantize(q, **kw)
        ctx.op(); ctx.state((float(s), int(z)))
        ctx.check(s > 0 and np.isfinite(s), "scale", got=s, data=data)
        ctx.check(z == int(z) and qlo <= z <= qhi, "zero point outside the dtype", got=z, data=data)
        if m == "both":
            ctx.check((s, z) == (0.37, kw["force_zp"]), "forced parameters are returned", got=(s, z)); continue
        if m == "scale":
            ctx.check(s == 0.37, "forced scale is returned", got=s); continue
        if "0" in m:
            ctx.check(z == 0, "forced zero point is returned", got=z)
        const = flat[0] == flat[-1]
        lo, hi = min(flat[0], 0.0), max(flat[-1], 0.0)
        slack = 1.0 if const else 0.0      # a constant data set gets a range of one around it
        if m == "zero" or hi == lo:
            ctx.check(np.all(q.dequantize(q.quantize(flat, z, s), z, s) == 0), "zeros stay exact", got=(s, z)); continue
        span = {"affine": hi - lo, "symmetric": hi - lo}.get(m, max(hi, -lo))
        lev = {"affine": qhi - qlo, "symmetric": 2 * qhi, "symmetric0": qhi, "zp0": max(-qlo, qhi)}[m]
        ctx.check(span / lev * (1 - 1e-6) <= s <= (span + slack) / lev * (1 + 1e-6), "the scale does not cover the range tightly", got=s, span=span, levels=lev, data=data)
        codes = np.asarray(q.quantize(np.append(flat, 0.0), z, s))
        ctx.check(codes.min() >= qlo and codes.max() <= qhi and codes[-1] == z, "zero is exact", codes=codes)
        back = np.asarray(q.dequantize(codes, z, s), dtype=float)
        step = 1.0 if m == "zp0" and qlo < 0 else 0.5
        ctx.close(back[:-1], flat, step * s * (1 + 1e-5) + 1e-6 * np.abs(flat) + (4e-7 if c["type"] == "float32" else 1e-9) * (hi - lo), "round trip error of the data", data=data, scale=s, zp=z)
    ctx.trace()


def size_cases(tier):
    return [{"q": q, "shift": s} for q in ("int8", "uint8", "int16", "int32") for s in (0.0, 3.0, -3.0)]


def size(c, ctx):
    """Data sets of every size, memory layout and weighting, extremes anywhere: parameters are exact, every element counts."""
    q = Quantization(c["q"])
    qlo, qhi = q.min_value(), q.max_value()

    def one(arr, what, bins):
        keep = np.array(arr, copy=True)
        flat = keep.ravel()
        d = Distribution(arr, bins=bins); ctx.op()
        lo, hi = min(float(flat.min()), 0.0), max(float(flat.max()), 0.0)
        s, z = d.quantize(q)
        ctx.check(abs(s - (hi - lo) / (qhi - qlo)) <= 1e-12 * s and qlo <= z <= qhi and abs(qlo - lo / s - z) <= 0.5 + 1e-6, f"parameters of {what}", got=(s, z), want=(hi - lo) / (qhi - qlo))
        ctx.check(d.get_min() == flat.min() and d.get_max() == flat.max(), f"range of {what}", got=(d.get_min(), d.get_max()))
        ctx.check(sum(d.get_histogram()) == flat.size and len(d.get_histogram()) == bins, f"elements of {what}")
        e, h = np.array(d.get_bin_edges()), np.array(d.get_histogram())
        ctx.equal(h, np.histogram(flat, bins=e)[0], f"histogram of {what}")
        for i in {0, bins // 2, bins - 1}:
            b = d.get_bin(i)
            ctx.check(b.items == h[i], f"bin {i} of {what}")
            m = d.get_bin(i - bins)
            ctx.check((m.min, m.max, m.items) == (b.min, b.max, b.items), f"bin {i - bins} of {what}")
            if h[i] > 1:
                ctx.equal(np.asarray(b.items_in_bin), members(flat, e, i), f"contents of bin {i} of {what}")
        ctx.check(np.array_equal(keep, arr), f"{what} changed")
        w = (np.arange(flat.size) % 3 + 1).reshape(keep.shape)
        d = Distribution(arr, bins=bins, weights=w)
        ctx.close(np.array(d.get_histogram(), float), np.histogram(flat, bins=e, weights=w.ravel())[0], 1e-9, f"weighted histogram of {what}")
    for n in robust.sizes(ctx.tier, 40):
        if n < 2:
            continue
        for where in {0, n // 3, n - 2}:
            v = np.sin(np.arange(n) * 1.7 + 0.1) * 0.9 + c["shift"]
            v[where] = 1.0 / 3 + 1.7 + c["shift"]; v[where + 1] = -2.0 / 7 - 1.1 + c["shift"]
            one(v, f"a data set of {n}, extremes at {where}", (16, 512, 1000, 777)[n % 4])
            ctx.state((n, where))
    v = np.sin(np.arange(120) * 0.9) + c["shift"]
    for k, a in {"C": v.reshape(4, 5, 6), "F": np.asfortranarray(v.reshape(4, 5, 6)), "transposed": v.reshape(6, 20).T, "strided": np.repeat(v, 2)[::2], "reversed": v[::-1], "float16": v.astype("float16").astype("float64")}.items():
        one(a, f"a {k} array", 16)
        ctx.state(k)
    ctx.trace()


HAL = [-3.0, -1.5, -1.0, 0.0, 0.25, 1.0, 2.0, 4.0]


def members(a, edges, i):
    last = i == len(edges) - 2
    return np.sort(a[(a >= edges[i]) & ((a <= edges[i + 1]) if last else (a < edges[i + 1]))])


def consistent(ctx, d, a, what, closed=True):
    """Histogram, bins and edges of a distribution describe the data `a` (sorted)."""
    edges, hist = d.get_bin_edges(), d.get_histogram()
    ctx.check(len(hist) == len(edges) - 1 == len(d), f"{what}: number of bins", edges=edges, hist=hist)
    ctx.check(all(x < y for x, y in zip(edges, edges[1:])), f"{what}: edges increase", edges=edges)
    ctx.check(abs(d.get_bin_size() - (edges[1] - edges[0])) <= 1e-9, f"{what}: bin size")
    n = len(hist)
    for i in range(n):
        want = members(a, edges, i) if closed or i < n - 1 else np.sort(a[(a >= edges[i]) & (a < edges[i + 1])])
        ctx.check(hist[i] == len(want), f"{what}: count of bin {i}", hist=hist, edges=edges, data=a)
        for j in (i, i - n):
            b = d.get_bin(j)
            ctx.op()
            ctx.check(b.items == len(want), f"{what}: items of bin {j}", got=b.items, want=len(want))
            ctx.check(edges[i] <= b.min <= b.max <= edges[i + 1], f"{what}: range of bin {j}", got=(b.min, b.max), edges=edges)
            if len(want) > 1:
                ctx.equal(np.asarray(b.items_in_bin, dtype=float), want, f"{what}: contents of bin {j}")
                ctx.check((b.min, b.max) == (want[0], want[-1]), f"{what}: range of the items in bin {j}")
    if sum(hist):
        p = d.normalize()
        ctx.close(p, np.array(hist) / sum(hist), 1e-12, f"{what}: normalized histogram")
    ctx.check(d.get_min() == d.get_bin(0).min and d.get_max() == d.get_bin(-1).max, f"{what}: minimum and maximum")


def hist_cases(tier):
    return [{"bins": b, "n": 4 if tier == "quick" else 6, "partial": p} for b in range(1, 9) for p in (True, False)]


def hists(c, ctx):
    for data in multisets(HAL, c["n"]):
        arr = np.array(data[::-1]); keep = arr.copy()
        d = Distribution(arr, bins=c["bins"], include_partial_bins=c["partial"])
        consistent(ctx, d, np.sort(keep), "histogram")
        lo, hi = keep.min(), keep.max()
        e = d.get_bin_edges()
        if lo != hi:
            ctx.check((e[0], e[-1]) == (lo, hi), "the edges span the data", edges=e, data=data)
            ctx.close(np.diff(e), np.full(c["bins"], (hi - lo) / c["bins"]), 1e-9, "bins of equal size")
        ctx.check(len(e) == c["bins"] + 1 and sum(d.get_histogram()) == len(data), "every element is counted once")
        ctx.check(d.compare(d, mse) == 0 and abs(d.compare(d, kl_divergence)) < 1e-12 and d.compare(d, mse, norm=False) == 0, "a distribution differs from itself")
        consistent(ctx, d, np.sort(keep), "histogram after comparing")
        ctx.equal(arr, keep, "the data were modified")
        ctx.state((tuple(d.get_histogram()), c["bins"]))
    ctx.trace()


def metric_cases(tier):
    return [{"a": a} for a in multisets([0.0, 0.5, 1.0, 3.0], 3)]


def metrics(c, ctx):
    """Histogram distances: zero for equal histograms, positive for different ones, insensitive to who else was compared."""
    a = np.array(c["a"], dtype=float)
    if a.sum() == 0:
        return
    for perm in itertools.permutations(c["a"]):
        for extra in multisets([0.0, 0.5, 1.0, 3.0], len(a)):
            b = np.array(extra, dtype=float)
            if len(b) != len(a) or b.sum() == 0:
                continue
            p, q = np.array(perm) / a.sum(), b / b.sum()
            k, m = kl_divergence(p.copy(), q.copy()), mse(p.copy(), q.copy())
            ctx.op(2); ctx.state((float(k), float(m)))
            pp, qq = np.where(p == 0, 1e-10, p), np.where(q == 0, 1e-10, q)
            ctx.close(k, np.sum(pp * np.log(pp / qq) - pp + qq), 1e-9, "KL divergence", p=p, q=q)
            ctx.close(m, np.mean((p - q) ** 2), 1e-12, "mean squared error", p=p, q=q)
            ctx.check(k >= -1e-12 and (m > 0) == (not np.array_equal(p, q)), "distances separate histograms", p=p, q=q, kl=k, mse=m)
            if np.all(q > 0):
                ctx.close(cross_entropy(p.copy(), q.copy()), -np.sum(p * np.log(q)), 1e-9, "cross entropy")
    ctx.trace()


def slice_cases(tier):
    al = HAL[1:7] if tier == "quick" else HAL
    return [{"data": d, "bins": b, "partial": p} for d in itertools.combinations(al, 4) for b in (1, 2, 3, 4, 6) for p in (True, False)]


def slices(c, ctx):
    data = np.array(c["data"] + c["data"][1:2] * 2)
    mk = lambda: Distribution(data, bins=c["bins"], include_partial_bins=c["partial"])
    base = mk()
    edges = base.get_bin_edges()
    pts = [None, edges[0] - 1.0, edges[-1] + 1.0] + edges + [0.5 * (x + y) for x, y in zip(edges, edges[1:])] + sorted(set(c["data"]))
    a = np.sort(data)
    for start, stop in itertools.product(pts, repeat=2):
        lo, hi = edges[0] if start is None else start, edges[-1] if stop is None else stop
        if not (lo < hi and lo < edges[-1] and hi > edges[0]):
            continue
        if not c["partial"] and sum(lo <= x and y <= hi for x, y in zip(edges, edges[1:])) < 3:
            continue
        d = base[start:stop]
        ctx.op()
        if hi - lo < base.get_bin_size() and abs(hi - lo - base.get_bin_size()) > 1e-12:
            inside = a[(a >= lo) & (a <= hi)]
            ctx.check(len(d) == 1 and sum(d.get_histogram()) == len(inside), "a slice narrower than a bin counts the elements inside", data=data, start=start, stop=stop)
            continue
        if abs(hi - lo - base.get_bin_size()) <= 1e-12:
            continue
        e = d.get_bin_edges()
        i = edges.index(e[0]) if e[0] in edges else None
        ctx.check(i is not None and e == edges[i:i + len(e)] and len(e) >= 2, "a slice is a run of the original bins", edges=e, of=edges, start=start, stop=stop)
        j = i + len(e) - 1
        if c["partial"]:
            ctx.check(i == max([k for k in range(len(edges)) if edges[k] <= lo], default=0), "first bin of the slice", first=i, edges=edges, start=start, stop=stop)
            ctx.check(j == min([k for k in range(len(edges)) if edges[k] > hi], default=len(edges) - 1), "last bin of the slice", last=j, edges=edges, start=start, stop=stop)
        else:
            ctx.check((lo <= e[0] or i == 0) and (e[-1] <= hi or j == len(edges) - 1), "only whole bins belong to the slice", edges=e, start=start, stop=stop)
        consistent(ctx, d, a, "slice", closed=j == len(edges) - 1)
        want = a[(a >= e[0]) & ((a <= e[-1]) if j == len(edges) - 1 else (a < e[-1]))]
        ctx.check(sum(d.get_histogram()) == len(want), "the slice counts its elements")
        s, z = d.quantize(Quantization("int8"))
        ctx.check(s > 0 and -128 <= z <= 127, "parameters of a slice", got=(s, z))
        ctx.state((tuple(e), tuple(d.get_histogram())))
        if c["partial"] and len(e) > 3:     # slicing a slice
            dd = d[e[1]:e[-1]]
            ctx.check(dd.get_bin_edges() == e[1:], "slice of a slice", got=dd.get_bin_edges(), of=e)
            consistent(ctx, dd, a, "slice of a slice", closed=j == len(edges) - 1)
    fresh = mk()
    ctx.check(base.get_bin_edges() == fresh.get_bin_edges() and base.get_histogram() == fresh.get_histogram(), "slicing changed the distribution")
    consistent(ctx, base, a, "distribution after slicing")
    ctx.trace()


def history_cases(tier):
    return [{"first": k, "n": 3 if tier == "quick" else 4} for k in range(len(CALLS))]


def _show(d):
    return (d.get_bin_edges(), d.get_histogram(), d.get_min(), d.get_max(), len(d))


CALLS = [(f"quantize {q} {kw}", lambda d, e, q=q, kw=kw: d.quantize(Quantization(q), **kw))
         for q, kw in (("int8", {}), ("uint8", {}), ("int8", {"symmetric": True}), ("int8", {"force_zp": 0}), ("int8", {"symmetric": True, "force_zp": 0}), ("int8", {"force_s": 0.5}),
                       ("int8", {"force_s": 0.25}), ("int8", {"force_zp": 5, "force_s": 0.5}), ("int16", {"symmetric": True}))] + [
    ("slice [-1:2]", lambda d, e: _show(d[-1.0:2.0])), ("slice [:1]", lambda d, e: _show(d[:1.0])), ("slice [-2:]", lambda d, e: _show(d[-2.0:])), ("bin slice [2]", lambda d, e: _show(d[2])),
    ("bin 0", lambda d, e: (lambda b: (b.min, b.max, b.items, b.items_in_bin.tolist()))(d.get_bin(0))),
    ("last bin", lambda d, e: (lambda b: (b.min, b.max, b.items, b.items_in_bin.tolist()))(d.get_bin(-1))),
    ("normalized", lambda d, e: d.normalize().tolist()), ("shown", lambda d, e: _show(d)), ("bin size", lambda d, e: d.get_bin_size()),
    ("compared", lambda d, e: d.compare(e, mse)), ("compared with itself", lambda d, e: d.compare(d, mse)), ("compared unnormalized", lambda d, e: d.compare(e, mse, norm=False)),
    ("quantize slice", lambda d, e: d[-1.0:2.0].quantize(Quantization("int8"))), ("text", lambda d, e: str(d)),
]


def histories(c, ctx):
    """Every sequence of calls over one distribution (and another of the same data): each answers what it answers on a fresh one."""
    data = np.array([-3.0, -1.5, -1.0, -1.0, 0.0, 0.25, 0.3, 1.0, 2.0, 2.0, 4.0])
    other = np.array([-2.0, 0.5, 0.5, 1.0, 3.5])
    mk = lambda: (Distribution(data, bins=8), Distribution(other, bins=8))
    want = [f(*mk()) for _, f in CALLS]
    for rest in itertools.product(range(len(CALLS)), repeat=c["n"] - 1):
        d, e = mk()
        for k in (c["first"], *rest):
            got = CALLS[k][1](d, e)
            ctx.op()
            ctx.check(got == want[k], f"{CALLS[k][0]} after other calls on the distribution", got=got, want=want[k], calls=[CALLS[i][0] for i in (c["first"], *rest)])
        ctx.state((c["first"], *rest))
    ctx.trace()


PROP = Property("D01", [
    Scenario("ranges", range_cases, ranges, "all data multisets over an alphabet x dtypes x modes x bins x carriers"),
    Scenario("sizes", size_cases, size, "data set sizes x position of the extremes, memory layouts, weights"),
    Scenario("histograms", hist_cases, hists, "all data multisets over an alphabet x bin counts"),
    Scenario("metrics", metric_cases, metrics, "all pairs of small histograms"),
    Scenario("slices", slice_cases, slices, "all slice bounds over the edges, midpoints and outside points of a distribution"),
    Scenario("histories", history_cases, histories, "all sequences of up to three (four) of 23 calls on one distribution"),
], "model_checking", "state: parameters or histogram derived from one data set; transition: one call on a distribution; trace: one family of data sets checked against the definition")
