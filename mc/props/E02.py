import itertools
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
from itcl_inference_engine.layers.tflite.build_layer import build_layer
import ref, robust


def build(c, w, b, how="build"):
    """how: build | from_model | build_layer"""
    if how == "build":
        return FullyConnected.build(c["in_s"], c["in_zp"], c["w_s"], c["w_zp"], np.array(w), c["in_s"] * c["w_s"], 0, b,
                                    c["out_s"], c["out_zp"], output_dtype=c["dtype"].upper() if c.get("up") else c["dtype"])
    op = {"op_type": "FULLY_CONNECTED", "name": "fc", "description": "fc", "attributes": {},
          "inputs": [{"scale": c["in_s"], "zero_point": c["in_zp"], "tensor": None, "LUT": None},
                     {"scale": c["w_s"], "zero_point": c["w_zp"], "LUT": None,
                      "tensor": {"tensor": np.array(w).tolist(), "shape": list(np.array(w).shape), "dtype": "INT8", "name": "w"}},
                     {"scale": c["in_s"] * c["w_s"], "zero_point": 0, "LUT": None,
                      "tensor": {"tensor": np.array(b).tolist(), "shape": [len(b)], "dtype": "INT32", "name": "b"}}],
          "outputs": [{"scale": c["out_s"], "zero_point": c["out_zp"], "LUT": None,
                       "tensor": {"tensor": None, "shape": [len(b)], "dtype": c["dtype"].upper() if c.get("up") else c["dtype"], "name": "o"}}]}
    return FullyConnected.from_model(op) if how == "from_model" else build_layer(op)


def bounds(c, w, b, x):
    """Allowed output codes: clip(out_zp + nearest(M * acc)), halves up; one multiplier ulp (2^-30 relative) of slack
    around the half-way points unless M is a power of two (then the fixed point multiplier is exact)."""
    lo, hi = ref.drange(c["dtype"])
    acc = (np.asarray(x).astype(np.int64) - c["in_zp"]) @ (np.array(w).astype(np.int64) - c["w_zp"]).T + np.array(b).astype(np.int64)
    M = c["in_s"] * c["w_s"] / c["out_s"]
    v = acc.astype(np.longdouble) * np.longdouble(M)
    tol = np.zeros_like(v) if ref.pow2(M) else np.abs(v) * np.longdouble(2.0) ** -30 + np.longdouble(1e-12)
    a = np.clip(np.floor(v - tol + 0.5) + c["out_zp"], lo, hi)
    z = np.clip(np.floor(v + tol + 0.5) + c["out_zp"], lo, hi)
    return a, z


def compare(ctx, got, c, w, b, x, msg):
    g = np.asarray(got)
    a, z = bounds(c, w, b, x)
    ctx.check(g.shape == a.shape, f"{msg}: shape {g.shape}, expected {a.shape}")
    ctx.check(g.dtype.kind in "iu", f"{msg}: result dtype {g.dtype} is not an integer type")
    bad = ~((g >= a) & (g <= z))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        ctx.check(False, f"{msg}: at {i} got {g[i]}, expected {a[i]:.0f}..{z[i]:.0f} ({int(bad.sum())} of {g.size})", case=c)


SCALES = [(2.0 ** -6, 2.0 ** -7, 2.0 ** -5), (2.0 ** -3, 2.0 ** -4, 2.0 ** -7), (1.0, 1.0, 1.0), (0.0078125, 0.005604765843600035, 0.017320988699793816),
          (0.1, 0.07, 0.013), (0.3, 0.01, 3.0), (0.05, 0.001, 0.2), (2.0, 3.0, 0.5), (0.01, 0.01, 0.6), (0.004, 0.02, 0.02),
          (1e-3, 1e-3, 0.9), (0.25, 3.0, 0.75), (100.0, 100.0, 0.01), (0.5, 0.999999999, 0.5), (0.02, 0.02, 1.0)]


def grid_cases(tier):
    for k, (i, w, o) in enumerate(SCALES):
        for zp, ozp, wzp in ((0, 0, 0), (-128, 127, 0), (5, -3, 7), (127, -128, -128)):
            for d in ("int8",) if tier == "quick" and k > 3 else ("int8", "int4", "int16", "uint8"):
                lo, hi = ref.drange(d)
                yield {"in_s": i, "w_s": w, "out_s": o, "in_zp": zp, "out_zp": max(lo, min(hi, ozp)), "w_zp": wzp, "dtype": d}


def grid(c, ctx):
    """Every input code x every weight code (one neuron per weight code), several biases, 1-D and batched."""
    x = np.arange(-128, 128).reshape(-1, 1)
    w = np.arange(-128, 128).reshape(-1, 1)
    M = c["in_s"] * c["w_s"] / c["out_s"]
    mid = int(round(0.5 / M)) if M < 1 else 1
    for bias in (0, 1, -1, mid, -mid, 1 - mid, 12345, -70000, 2 ** 31 - 1 - 70000, -2 ** 31 + 70000):
        b = np.full(256, bias)
        L = build(c, w, b)
        y = L.infer(x)
        ctx.op(y.size)
        compare(ctx, y, c, w, b, x, f"batch inference (bias {bias})")
        ctx.state(np.asarray(y).astype(np.int64))
        ctx.trace()
    b = np.arange(256) * 17 - 2000
    L = build(c, w, b)
    y = np.asarray(L.infer(x))
    compare(ctx, y, c, w, b, x, "batch inference (per neuron bias)")
    for k in range(256):
        r = np.asarray(L.infer(x[k]))
        ctx.op()
        ctx.equal(r, y[k], f"sample {k} alone differs from the same sample in a batch")
    ctx.trace()


def vec_cases(tier):
    for s in ((2.0 ** -6, 2.0 ** -7, 2.0 ** -5), (0.1, 0.07, 0.013), (0.02, 0.01, 0.5)):
        for nin, nout in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (2, 3)) + (((3, 3),) if tier == "thorough" else ()):
            for zp, ozp, wzp in ((0, 0, 0), (-128, 3, 0), (4, -1, 2)):
                yield {"in_s": s[0], "w_s": s[1], "out_s": s[2], "in_zp": zp, "out_zp": ozp, "w_zp": wzp, "dtype": "int8", "nin": nin, "nout": nout}


WALPHA = {1: [-128, -1, 0, 1, 127], 2: [-128, -1, 1, 64, 127], 3: [-127, 0, 50, 127], 4: [-127, 3, 90], 6: [-100, 77], 9: [-100, 77]}


def vec(c, ctx):
    """Small layers: every weight matrix over the alphabet x every input vector over the boundary alphabet x builder."""
    al = WALPHA[c["nin"] * c["nout"]]
    xs = np.array(list(itertools.product((-128, -7, 0, 1, 100, 127), repeat=c["nin"])))
    n = 0
    for w in itertools.product(al, repeat=c["nin"] * c["nout"]):
        w = np.array(w).reshape(c["nout"], c["nin"])
        b = np.array([13, -250, 4000][: c["nout"]])
        for how in ("build", "from_model", "build_layer") if n < 12 else ("build",):
            L = build(c, w, b, how)
            keep = xs.copy(); wk = w.copy()
            y = np.asarray(L.infer(xs))
            ctx.op(len(xs))
            compare(ctx, y, c, w, b, xs, f"layer {c['nin']}x{c['nout']} ({how})")
            ctx.check(np.array_equal(keep, xs) and np.array_equal(w, wk), "inputs or weights were modified")
            if n % 7 == 0:
                for k in range(0, len(xs), 5):
                    ctx.equal(np.asarray(L.infer(xs[k])), y[k], "1-D inference differs from the batch")
                    ctx.op()
            ctx.state(y.astype(np.int64)); ctx.trace()
        n += 1


def form_cases(tier):
    for s in ((2.0 ** -6, 2.0 ** -7, 2.0 ** -5), (0.1, 0.07, 0.013)):
        for d in ("int8", "uint8", "int4", "int16", "int32"):
            for z in (0, 100, -100) if d == "int8" else (0,):
                yield {"in_s": s[0], "w_s": s[1], "out_s": s[2], "in_zp": -5, "out_zp": 2, "w_zp": z, "dtype": d}


def forms(c, ctx):
    """Carrier types of the input, weights as lists/arrays/int8, bias as list/array/int32, dtype descriptor case, builders."""
    w = np.array([[100, -128, 127, 5], [-77, 3, 0, 127], [1, 1, 1, 1]])
    b = [100000, -250, -90000]
    x = np.array([[-128, 127, -128, 127], [1, 2, 3, 4], [127, 127, 127, 127], [-128, -128, -128, -128]])
    for up, how, xd, wd, bd in itertools.product((False, True), ("build", "from_model", "build_layer"),
                                                 (np.int8, np.int16, np.int32, np.int64), (np.int8, np.int16, np.int64), (list, np.int32, np.int64)):
        if how != "build" and (wd, bd) != (np.int64, list):
            continue
        cc = dict(c, up=up)
        L = build(cc, w.astype(wd), b if bd is list else np.array(b, dtype=bd), how)
        y = L.infer(x.astype(xd))
        ctx.op()
        compare(ctx, y, cc, w, b, x, f"input {xd.__name__} weights {wd.__name__} bias {bd.__name__} ({how})")
        y1 = L.infer(x[1].astype(xd))
        ctx.equal(np.asarray(y1), np.asarray(y)[1], "1-D inference differs from the batch")
        y2 = L.infer(x[::-1].astype(xd))
        ctx.equal(np.asarray(y2), np.asarray(y)[::-1], "reordering the batch changed a sample's result")
        ctx.state(np.asarray(y).astype(np.int64)); ctx.trace()


def big_cases(tier):
    yield {"n": 256, "m": 64}
    yield {"n": 1024, "m": 10}
    yield {"n": 64, "m": 300}


def big(c, ctx):
    """Wide layers: worst case accumulators (all extremes) and a deterministic dense pattern; every row of the batch."""
    n, m = c["n"], c["m"]
    for s, zps in itertools.product(((2.0 ** -7, 2.0 ** -7, 2.0 ** -4), (0.02, 0.003, 0.9)), ((0, 0), (-128, 127), (127, -128))):
        cc = {"in_s": s[0], "w_s": s[1], "out_s": s[2], "in_zp": zps[0], "out_zp": zps[1], "w_zp": 0, "dtype": "int8"}
        idx = np.arange(n * m).reshape(m, n)
        w = (idx * 7919 % 255) - 127
        w[0] = 127; w[1] = -127
        b = (np.arange(m) * 104729 % 200001) - 100000
        x = (np.arange(6 * n).reshape(6, n) * 31 % 256) - 128
        x[0] = 127; x[1] = -128
        L = build(cc, w, b)
        y = L.infer(x)
        ctx.op(y.size)
        compare(ctx, y, cc, w, b, x, f"layer {n}x{m}")
        ctx.state(np.asarray(y).astype(np.int64)); ctx.trace()


def mult_cases(tier):
    for lo in range(-20, 20, 4):
        yield {"elo": lo, "ehi": lo + 4}


def multipliers(case, ctx):
    """The multiplier input*weight/output scale swept over every power of two binade of its domain [2^-19.9, 2^20): mantissa grid,
    boundary mantissas; accumulators at every half-way point and around it."""
    man = [1.0, 1 + 2.0 ** -52, 1 + 2.0 ** -31, 1 + 2.0 ** -30, 1.25, 4 / 3, 1.5, 1.7, 2 - 2.0 ** -30, 2 - 2.0 ** -31, 2 - 2.0 ** -32, 2 - 2.0 ** -40, 2 - 2.0 ** -52] + [1 + k / 16 for k in range(16)]
    for e in range(case["elo"], case["ehi"]):
        for m in man:
            M = m * 2.0 ** e
            if M < 1.1e-6:
                continue
            c = {"in_s": M, "w_s": 1.0, "out_s": 1.0, "in_zp": 0, "out_zp": -1, "w_zp": 0, "dtype": "int16"}
            accs = set()
            for t in (0, 1, -1, 2, 7, -100, 127, 1000, -32768, 32767):
                base = (t + 0.5) / M
                for d in range(-2, 3):
                    accs.add(int(np.floor(base)) + d)
            for k in range(31):
                accs |= {2 ** k, -2 ** k, 2 ** k - 1}
            accs = [a for a in accs if abs(a) < 2 ** 31]
            b = np.array(sorted(accs))
            w = np.zeros((len(b), 1), dtype=int)
            L = build(c, w, b)
            y = L.infer(np.array([[3]]))
            ctx.op(y.size)
            compare(ctx, y, c, w, b, np.array([[3]]), f"multiplier {M!r}")
            ctx.state(np.asarray(y).astype(np.int64)); ctx.trace()


def hist_cases(tier):
    return [{"n": 3 if tier == "quick" else 4}]


def history(case, ctx):
    """Every inference sequence over two live layers and three inputs; results equal those of fresh layers, earlier results unchanged."""
    c1 = {"in_s": 0.1, "w_s": 0.07, "out_s": 0.013, "in_zp": 3, "out_zp": -1, "w_zp": 0, "dtype": "int8"}
    c2 = {"in_s": 0.5, "w_s": 0.25, "out_s": 2.0, "in_zp": 0, "out_zp": 4, "w_zp": 2, "dtype": "int8"}
    w = np.array([[1, -50], [127, 3]]); b = [7, -9]
    xs = [np.array([1, 2]), np.array([[-128, 127], [0, 1]]), np.array([[5, 5]])]
    menu = [(l, x) for l in (0, 1) for x in range(3)]
    for seq in itertools.product(range(len(menu)), repeat=case["n"]):
        L = [build(c1, w, b), build(c2, w, b)]
        res = []
        for k in seq:
            l, i = menu[k]
            y = L[l].infer(xs[i])
            ctx.op()
            compare(ctx, y, (c1, c2)[l], w, b, xs[i], "inference in history")
            res.append((y, np.array(y)))
            ctx.state((k, np.array(y)))
        for y, k in res:
            ctx.equal(y, k, "an earlier result changed")
        ctx.trace()


BASE = {"in_s": 0.1, "w_s": 0.07, "out_s": 0.013, "in_zp": 3, "out_zp": -1, "w_zp": 0, "dtype": "int16"}
VARY = [("in_s", 0.13), ("in_zp", -60), ("w_s", 0.02), ("w_zp", 5), ("out_s", 0.4), ("out_zp", 90), ("dtype", "int8"), ("dtype", "int32"), ("dtype", "uint8"), ("weights", 1), ("bias", 1), ("shape", 1)]


def variants():
    W, B = np.array([[1, -50, 7], [127, 3, -128]]), np.array([7000, -900])
    yield "base", BASE, W, B
    for k, v in VARY:
        c, w, b = dict(BASE), W, B
        if k == "weights":
            w = np.array([[1, -50, 7], [127, 4, -128]])
        elif k == "bias":
            b = np.array([7000, -500])
        elif k == "shape":
            w, b = np.vstack([W, [9, 9, 9]]), np.array([7000, -900, 4])
        else:
            c[k] = v
        yield f"{k}={v}", c, w, b


def robust_cases(tier):
    for how in ("build", "from_model", "build_layer"):
        yield {"what": "pairs", "how": how}
    yield {"what": "buffers", "how": "build"}
    yield {"what": "batches", "how": "build"}


def usage(case, ctx):
    """Ordered pairs of layers that differ in one parameter, refilled buffers, every batch length."""
    V = [(l, lambda c=c, w=w, b=b: build(c, w, b, case["how"]), lambda ctx, y, x, m, c=c, w=w, b=b: compare(ctx, y, c, w, b, x, m)) for l, c, w, b in variants()]
    X = [np.array([[1, 2, 3], [-128, 127, 0]]), np.array([[5, 5, 5], [127, -128, -1]])]
    if case["what"] == "pairs":
        robust.pairs(ctx, V, X)
    elif case["what"] == "buffers":
        robust.buffers(ctx, V[:2] + V[-2:], X + [X[0][::-1]])
        robust.buffers(ctx, V[:1], [x.astype(np.int8) for x in X])
    else:
        gen = lambda n: (np.arange(n * 3).reshape(n, 3) * 31 + n) % 256 - 128
        robust.batches(ctx, [V[0], V[4], V[7]], gen, robust.sizes(ctx.tier))


IN = {"int8": (-128, 127), "uint8": (0, 255), "int4": (-8, 7), "uint4": (0, 15), "int16": (-32768, 32767), "uint16": (0, 65535)}


def input_cases(tier):
    for t, (lo, hi) in IN.items():
        for zp in (lo, lo + 1, (lo + hi + 1) // 2, hi, 0, 1):
            yield {"type": t, "zp": zp}


def inputs(case, ctx):
    """Every code (16 bits: all around the ends and every 251st) of every input dtype, in the carriers that hold it, at every kind of zero point."""
    lo, hi = IN[case["type"]]
    codes = np.arange(lo, hi + 1) if hi - lo < 300 else np.unique(np.concatenate([np.arange(lo, hi + 1, 251), np.arange(lo, lo + 40), np.arange(hi - 40, hi + 1), np.arange(-130, 131).clip(lo, hi), np.arange(32760, 32775).clip(lo, hi)]))
    x = np.stack([codes, codes[::-1]], axis=1)
    w, b = np.array([[127, 0], [0, -127], [1, 1], [-128, 127], [3, -5]]), np.array([0, 7, -100000, 1, 2 ** 20])
    for s, d in itertools.product(((1.0, 1.0, 1.0), (0.1, 0.07, 0.013), (2.0 ** -9, 2.0 ** -8, 2.0 ** -8), (0.004, 0.02, 0.7)), ("int8", "uint8", "int16", "int32")):
        c = {"in_s": s[0], "w_s": s[1], "out_s": s[2], "in_zp": case["zp"], "w_zp": 0, "out_zp": 1, "dtype": d}
        L = build(c, w, b, "from_model")
        for t in ("int8", "uint8", "int16", "uint16", "int32", "int64"):
            if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max:
                y = L.infer(x.astype(t))
                compare(ctx, y, c, w, b, x, f"{case['type']} codes in {t}, zero point {case['zp']}")
                compare(ctx, L.infer(x[0].astype(t)), c, w, b, x[0], f"one sample of {case['type']} codes in {t}")
                ctx.op(y.size); ctx.state((s, d, t, np.asarray(y).astype(np.int64)))
    ctx.trace()


def weight_cases(tier):
    for t in IN:
        yield {"type": t}
    yield {"type": "int32"}


def weight_types(case, ctx):
    """Kernels of every dtype and zero point (int8 and int16 inputs, one sample and a batch), accumulators on both sides of 2^31."""
    lo, hi = {**IN, "int32": (-2 ** 31, 2 ** 31 - 1)}[case["type"]]
    small = case["type"] == "int32"      # one input code of 1: the accumulator is the weight itself
    for wzp in sorted({lo, hi, 0, 1, (lo + hi + 1) // 2} if not small else {0, 5}):
        v = [a for a in ref.code_points(lo, hi, 300)]
        w = np.array([[a, b] for a, b in zip(v, v[::-1])])
        for ityp, izp in (("int8", 0), ("int8", -128), ("int16", 0), ("int16", 300)):
            ilo, ihi = IN[ityp]
            codes = [(0, izp), (izp + 1, izp), (izp - 1, izp), (izp, izp + 1)] if small else [(ilo, ihi), (ihi, ihi), (ilo, ilo), (izp, 1), (3, izp), (ihi, izp), (ihi, -5)]
            x = np.array([(min(max(a, ilo), ihi), min(max(b, ilo), ihi)) for a, b in codes if not small or (ilo <= a <= ihi and abs(a - izp) <= 1)])
            b = np.where(np.arange(len(w)) % 3, 0, 2 ** 20 - 1)
            for s, d in (((1.0, 1.0, 1.0), "int32"), ((2.0 ** -9, 2.0 ** -8, 2.0 ** -2), "int16"), ((0.1, 0.07, 9.3), "int32"), ((0.003, 0.0007, 0.9), "int8")):
                c = {"in_s": s[0], "w_s": s[1], "out_s": s[2], "in_zp": izp, "w_zp": wzp, "out_zp": 1, "dtype": d}
                acc = (x.astype(object) - izp) @ (w.astype(object) - wzp).T + b
                k = np.array([max(abs(int(a)) for a in col) < 2 ** 32 - 2 ** 20 for col in acc.T])      # the multiplier takes 32 bit accumulators
                if not k.any():
                    continue
                for how in ("build", "from_model", "build_layer"):
                    L = build(c, w[k], b[k], how)
                    compare(ctx, L.infer(x), c, w[k], b[k], x, f"{case['type']} kernel, zero point {wzp}, {ityp} inputs")
                    for r in x:
                        compare(ctx, L.infer(r), c, w[k], b[k], r, f"one sample of {ityp} codes with a {case['type']} kernel, zero point {wzp}")
                    ctx.op(int(k.sum()) * len(x))
                ctx.state((wzp, ityp, izp, s, d, k.tolist()))
    ctx.trace()


def width_cases(tier):
    for d in ("int32", "int16", "int16 coarse", "int8"):
        for k in range(8):
            yield {"dtype": d, "part": k}


def widths(case, ctx):
    """Every layer width up to 300 and the large ones, one neuron per extreme pattern, square layers, batches equal to the width;
    scale ratio 1 with a 32 bit output makes the whole accumulator visible; int32 biases at their limits."""
    d = case["dtype"]
    M = {"int32": (1.0, 1.0, 1.0), "int16 coarse": (2.0 ** -9, 2.0 ** -8, 1.0), "int16": (2.0 ** -7, 2.0 ** -7, 2.0 ** -3), "int8": (0.02, 0.003, 0.9)}[d]
    ns = robust.sizes("quick")
    for n in [v for i, v in enumerate(ns) if i % 8 == case["part"]]:
        k = np.arange(n)
        rows = [np.full(n, 127), np.full(n, -128), np.where(k % 2, 127, -128), (k * 7919 % 255) - 127, np.where(k == n - 1, 1, 0), np.where(k == 0, -1, 0), np.full(n, 1)]
        B = [0, 2 ** 31 - 1, -2 ** 31, 2 ** 24 + 1, -2 ** 24 - 1, 2 ** 30, 12345]
        x = np.array([np.full(n, 127), np.full(n, -128), (k * 31 % 256) - 128, np.where(k % 2, -128, 127), np.where(k == n - 1, 127, 0)])
        for izp, wzp in ((0, 0), (-128, 0), (127, 3)):
            c = {"in_s": M[0], "w_s": M[1], "out_s": M[2], "in_zp": izp, "w_zp": wzp, "out_zp": 0, "dtype": d.split()[0]}
            w, b = np.array(rows), np.array(B)
            y = build(c, w, b).infer(x)
            compare(ctx, y, c, w, b, x, f"{n} inputs")
            if n <= 300:
                w, b = np.resize(w, (n, n)), np.resize(b, n)      # square, one row per neuron
                xs = np.resize(x, (n if n < 100 else 3, n))
                y = build(c, w, b).infer(xs)
                compare(ctx, y, c, w, b, xs, f"square layer of {n}")
            ctx.op(y.size); ctx.trace(); ctx.state((n, izp, np.asarray(y).astype(np.int64)))


PROP = Property("E02", [
    Scenario("grid", grid_cases, grid, "all 256 input codes x all 256 weight codes x biases x scales"),
    Scenario("small", vec_cases, vec, "all weight matrices and inputs over the boundary alphabet"),
    Scenario("forms", form_cases, forms, "carriers, builders, dtypes"),
    Scenario("large", big_cases, big, "wide layers with extreme accumulators"),
    Scenario("multiplier", mult_cases, multipliers, "scale ratios over every binade, accumulators at half-way points"),
    Scenario("history", hist_cases, history, "inference sequences"),
    Scenario("usage", robust_cases, usage, "ordered pairs of layers differing in one parameter, refilled buffers, every batch length"),
    Scenario("inputs", input_cases, inputs, "every code of six input dtypes x carriers x zero points x outputs"),
    Scenario("weights", weight_cases, weight_types, "kernels of seven dtypes at every kind of zero point, accumulators on both sides of 2^31"),
    Scenario("widths", width_cases, widths, "every layer width, visible accumulators, extreme biases"),
], "model_checking", "state: layer output for one configuration; transition: one neuron output compared with the integer reference; trace: one layer run in lockstep with the reference",
   ["biases are int32 and the layer has at most 2^15 inputs (accumulators below 2^32); multiplier input*weight/output between 1e-6 and 2^20"])
