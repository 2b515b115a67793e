import itertools
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
from itcl_inference_engine.layers.onnx.build_operator import build_operator
import ref, robust


def node(s, zp, t=None, dtype="uint8", shape=None):
    return {"scale": s, "zero_point": zp, "LUT": None,
            "tensor": None if t is None else {"tensor": np.array(t).tolist(), "shape": list(np.array(t).shape) if shape is None else shape, "dtype": dtype, "name": "t"}}


def op(t, c, w, shape=None):
    return {"op_type": t, "name": "x", "description": "x", "attributes": {},
            "inputs": [node(c["i_s"], c["i_zp"]), node(c["w_s"], c["w_zp"], w, shape=shape), node(c["o_s"], c["o_zp"])], "outputs": [node(7.5, 77)]}


def verdict(ctx, y, t, exact, zp, msg, **k):
    """y == saturate(round_half_even(t) + zp); where t is inexact both neighbours of a half-way point are allowed."""
    g = np.asarray(y)
    ctx.check(g.dtype == np.uint8, f"{msg}: result dtype is {g.dtype}, not uint8")
    ctx.check(g.shape == t.shape, f"{msg}: shape {g.shape}, expected {t.shape}")
    tol = 0.0 if exact else np.abs(t) * 1e-12 + 1e-12
    a, b = (np.clip(np.round(t), -1e6, 1e6),) * 2 if exact else (np.floor(t - tol + .5), np.floor(t + tol + .5))
    if not exact:
        a = np.minimum(a, np.ceil(t - tol - .5)); b = np.maximum(b, np.ceil(t + tol - .5))
        a, b = np.minimum(a, b), np.maximum(a, b)
    a, b = np.clip(a + zp, 0, 255), np.clip(b + zp, 0, 255)
    gf = g.astype(float)
    bad = ~((gf >= a) & (gf <= b))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.check(False, f"{msg}: at {i} got {gf[i]:.0f}, expected {a[i]:.0f}..{b[i]:.0f} ({int(bad.sum())} of {g.size})", **k)


SC = [(0.5, 0.25, 0.125), (0.5, 0.5, 0.5), (0.0625, 0.25, 4.0), (1.0, 1.0, 256.0), (0.02, 0.01, 0.05), (0.1, 0.07, 0.013), (0.3, 0.01, 3.0), (2.0, 2.0, 1.0)]
ZP = [(0, 0, 0), (128, 128, 128), (255, 0, 7), (3, 255, 255), (100, 131, 90)]


def cases(tier):
    for s in SC:
        for z in ZP:
            yield dict(i_s=s[0], w_s=s[1], o_s=s[2], i_zp=z[0], w_zp=z[1], o_zp=z[2])


def exactness(c):
    return all(ref.pow2(c[k]) for k in ("i_s", "w_s", "o_s"))


def builders(cls, t, c, w):
    yield "direct", cls(c["i_s"], c["i_zp"], w, c["w_s"], c["w_zp"], c["o_s"], c["o_zp"])
    yield "from_model", cls.from_model(op(t, c, w))
    yield "build_operator", build_operator(op(t, c, w))


def add(c, ctx):
    """QLinearAdd: every (input code, bias code) pair, all builders, shapes and carriers."""
    bias = np.arange(256, dtype=np.uint8)
    x = np.repeat(np.arange(256).reshape(-1, 1), 256, axis=1)
    t = (c["i_s"] * (x - c["i_zp"]) + c["w_s"] * (bias.astype(int) - c["w_zp"])) / c["o_s"]
    for n, L in builders(QLinearAdd, "QLinearAdd", c, bias):
        for xx in (x, x.astype(np.uint8)):
            keep = xx.copy()
            y = L.infer(xx)
            verdict(ctx, y, t, exactness(c), c["o_zp"], f"QLinearAdd ({n})", **c)
            ctx.check(np.array_equal(keep, xx), "input modified")
            ctx.op(xx.size)
        one = L.infer(x[77].astype(np.uint8))
        ctx.equal(np.asarray(one), np.asarray(y)[77], "a sample alone differs from the sample in a batch")
        ctx.state((n, np.asarray(y))); ctx.trace()


def matmul(c, ctx):
    """QLinearMatMul with one input: every (input code, weight code) pair; weights are stored [out, in]."""
    w = np.arange(256, dtype=np.uint8).reshape(256, 1)
    x = np.arange(256).reshape(-1, 1)
    M = c["i_s"] * c["w_s"] / c["o_s"]
    t = M * ((x - c["i_zp"]) @ (w.astype(int) - c["w_zp"]).T)
    for n, L in builders(QLinearMatMul, "QLinearMatMul", c, w):
        for xx in (x, x.astype(np.uint8)):
            y = L.infer(xx)
            verdict(ctx, y, t, exactness(c), c["o_zp"], f"QLinearMatMul ({n})", **c)
            ctx.op(y.size)
        for k in (0, 1, 128, 255):
            ctx.equal(np.asarray(L.infer(x[k].astype(np.uint8))), np.asarray(y)[k], "a sample alone differs from the sample in a batch")
        ctx.state((n, np.asarray(y))); ctx.trace()


def small_cases(tier):
    for s in (SC[0], SC[2], SC[4]):
        for z in ZP[1:4] if tier == "quick" else ZP:
            for n, m in ((1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
                yield dict(i_s=s[0], w_s=s[1], o_s=s[2], i_zp=z[0], w_zp=z[1], o_zp=z[2], n=n, m=m)


def small(c, ctx):
    """Every weight matrix and bias over the boundary alphabet x every input vector; matmul followed by add."""
    n, m = c["n"], c["m"]
    al = {2: (0, 1, 127, 128, 200, 255), 4: (0, 100, 128, 255), 6: (0, 130, 255)}[n * m]
    xs = np.array(list(itertools.product((0, 1, 100, 128, 255), repeat=n)), dtype=np.uint8)
    M = c["i_s"] * c["w_s"] / c["o_s"]
    c0 = {k: c[k] for k in c if k not in "nm"}
    for j, w in enumerate(itertools.product(al, repeat=n * m)):
        w = np.array(w, dtype=np.uint8).reshape(m, n)
        t = M * ((xs.astype(int) - c["i_zp"]) @ (w.astype(int) - c["w_zp"]).T)
        L = QLinearMatMul.from_model(op("QLinearMatMul", c0, w)) if j % 3 else build_operator(op("QLinearMatMul", c0, w))
        y = L.infer(xs)
        verdict(ctx, y, t, exactness(c), c["o_zp"], "QLinearMatMul", w=w)
        b = np.array([0, 255, 77][:m], dtype=np.uint8)
        A = QLinearAdd.from_model(op("QLinearAdd", c0, b))
        z = A.infer(y)
        tt = (c["i_s"] * (np.asarray(y).astype(int) - c["i_zp"]) + c["w_s"] * (b.astype(int) - c["w_zp"])) / c["o_s"]
        verdict(ctx, z, tt, exactness(c), c["o_zp"], "QLinearAdd after QLinearMatMul")
        ctx.op(2 * len(xs)); ctx.state((np.asarray(y), np.asarray(z))); ctx.trace()
        if j % 11 == 0:
            for k in range(0, len(xs), 4):
                ctx.equal(np.asarray(L.infer(xs[k])), np.asarray(y)[k], "1-D differs from batch")


def big_cases(tier):
    return [{"n": 300, "m": 20}, {"n": 784, "m": 64}]


def big(c, ctx):
    n, m = c["n"], c["m"]
    for s, z in itertools.product((SC[2], (0.004, 0.003, 0.9), (2.0 ** -8, 2.0 ** -8, 2.0 ** -4)), ZP):
        cc = dict(i_s=s[0], w_s=s[1], o_s=s[2], i_zp=z[0], w_zp=z[1], o_zp=z[2])
        w = (np.arange(n * m).reshape(m, n) * 7919 % 256).astype(np.uint8)
        w[0] = 255; w[1] = 0
        x = (np.arange(5 * n).reshape(5, n) * 31 % 256).astype(np.uint8)
        x[0] = 255; x[1] = 0
        t = s[0] * s[1] / s[2] * ((x.astype(int) - z[0]) @ (w.astype(int) - z[1]).T)
        y = QLinearMatMul.from_model(op("QLinearMatMul", cc, w)).infer(x)
        verdict(ctx, y, t, exactness(cc), z[2], "large QLinearMatMul", **cc)
        ctx.op(y.size); ctx.state(np.asarray(y)); ctx.trace()


def bad_cases(tier):
    return [{}]


def malformed(case, ctx):
    """A missing weight tensor or a tensor whose shape disagrees with its declaration is rejected, never silently used."""
    c = dict(i_s=.5, w_s=.5, o_s=.5, i_zp=0, w_zp=0, o_zp=0)
    for t, w in (("QLinearAdd", [1, 2, 3]), ("QLinearMatMul", [[1, 2], [3, 4]])):
        o = op(t, c, w)
        o["inputs"][1]["tensor"] = None
        for mk in (build_operator, {"QLinearAdd": QLinearAdd, "QLinearMatMul": QLinearMatMul}[t].from_model):
            try:
                mk(o)
            except Exception:
                pass
            else:
                ctx.check(False, f"{t} without a tensor was accepted")
            for shp in ([7], [2, 3], [4], []):
                if shp == list(np.array(w).shape):
                    continue
                try:
                    mk(op(t, c, w, shape=shp))
                except Exception:
                    pass
                else:
                    ctx.check(False, f"{t} with a wrong shape declaration {shp} was accepted")
                ctx.op()
        ctx.trace(); ctx.state(t)


def hist_cases(tier):
    return [{"n": 3}]


def history(case, ctx):
    c = dict(i_s=.5, w_s=.25, o_s=.75, i_zp=3, w_zp=5, o_zp=100)
    w = np.array([[1, 200], [30, 7]], dtype=np.uint8); b = np.array([9, 250], dtype=np.uint8)
    mk = lambda: [build_operator(op("QLinearMatMul", c, w)), build_operator(op("QLinearAdd", c, b)), build_operator(op("QLinearAdd", dict(c, o_zp=7), b))]
    xs = [np.array([1, 2], dtype=np.uint8), np.array([[255, 0], [7, 9]], dtype=np.uint8)]
    fresh = {(i, j): np.array(mk()[i].infer(xs[j])) for i in range(3) for j in range(2)}
    menu = sorted(fresh)
    for seq in itertools.product(range(6), repeat=case["n"]):
        L = mk(); outs = []
        for k in seq:
            i, j = menu[k]
            y = L[i].infer(xs[j])
            ctx.equal(y, fresh[menu[k]], "an operator depends on its history"); ctx.op(); ctx.state((k, np.array(y)))
            outs.append((y, menu[k]))
        for y, k in outs:
            ctx.equal(y, fresh[k], "an earlier result changed")
        ctx.trace()


UB = dict(i_s=.1, w_s=.07, o_s=.03, i_zp=3, w_zp=5, o_zp=100)
UV = [("base", 0), ("i_s", .13), ("w_s", .05), ("o_s", .05), ("i_zp", 9), ("w_zp", 0), ("o_zp", 31), ("tensor", 1)]


def usage_variants():
    V = []
    for k, v in UV:
        c = dict(UB)
        w, b = np.array([[1, 200, 7], [30, 7, 255], [0, 90, 2]], dtype=np.uint8), np.array([9, 250, 77], dtype=np.uint8)
        if k == "tensor":
            w, b = w + np.uint8(1), b + np.uint8(1)
        elif k != "base":
            c[k] = v

        def jm(ctx, y, x, m, c=c, w=w):
            t = c["i_s"] * c["w_s"] / c["o_s"] * ((x.astype(int) - c["i_zp"]) @ (w.astype(int) - c["w_zp"]).T)
            verdict(ctx, y, t, False, c["o_zp"], m)

        def ja(ctx, y, x, m, c=c, b=b):
            t = (c["i_s"] * (x.astype(int) - c["i_zp"]) + c["w_s"] * (b.astype(int) - c["w_zp"])) / c["o_s"]
            verdict(ctx, y, t, False, c["o_zp"], m)
        V += [(f"QLinearMatMul {k}", lambda c=c, w=w: build_operator(op("QLinearMatMul", c, w)), jm), (f"QLinearAdd {k}", lambda c=c, b=b: build_operator(op("QLinearAdd", c, b)), ja),
              (f"direct QLinearMatMul {k}", lambda c=c, w=w: QLinearMatMul(c["i_s"], c["i_zp"], w, c["w_s"], c["w_zp"], c["o_s"], c["o_zp"]), jm),
              (f"direct QLinearAdd {k}", lambda c=c, b=b: QLinearAdd(c["i_s"], c["i_zp"], b, c["w_s"], c["w_zp"], c["o_s"], c["o_zp"]), ja)]
    return V


def usage_cases(tier):
    return [{"what": w} for w in ("pairs", "buffers", "batches")] + [{"what": "widths", "part": k} for k in range(4)]


def usage(case, ctx):
    """Ordered pairs of operators differing in one parameter, refilled buffers, every batch length, every operator width."""
    V = usage_variants()
    X = [np.array([[0, 72, 255], [127, 1, 3]]), np.array([[72, 5, 127], [3, 99, 100]])]
    if case["what"] == "pairs":
        robust.pairs(ctx, V, [x.astype(np.uint8) for x in X])
    elif case["what"] == "buffers":
        robust.buffers(ctx, V[:8], [x.astype(np.uint8) for x in X])
        robust.buffers(ctx, V[:4], X)
    elif case["what"] == "batches":
        robust.batches(ctx, V[:2] + V[14:16], lambda n: ((np.arange(n * 3).reshape(n, 3) * 31 + n) % 256).astype(np.uint8), robust.sizes(ctx.tier))
    else:
        ns = robust.sizes("quick", huge=[10007])    # (the accumulators of the engine are 32 bits wide)
        for n in [v for i, v in enumerate(ns) if i % 4 == case["part"]]:
            k = np.arange(n)
            w = np.array([np.full(n, 255), np.zeros(n), k * 7919 % 256, np.where(k == n - 1, 255, 7), np.where(k == 0, 0, 7)]).astype(np.uint8)
            x = np.array([np.full(n, 255), np.zeros(n), k * 31 % 256, np.where(k == n - 1, 255, 0)]).astype(np.uint8)
            for z in ZP[:4]:
                # the output scale puts the largest accumulator at 2^7: one code is worth the accumulator / 128
                c = dict(i_s=1.0, w_s=1.0, o_s=2.0 ** int(np.ceil(np.log2(n * 65025 / 128 + 1))), i_zp=z[0], w_zp=z[1], o_zp=z[2])
                for cc in (c, dict(c, o_s=c["o_s"] / 64), dict(c, i_s=.01, o_s=c["o_s"] / 90)):
                    t = cc["i_s"] * cc["w_s"] / cc["o_s"] * ((x.astype(int) - z[0]) @ (w.astype(int) - z[1]).T)
                    verdict(ctx, build_operator(op("QLinearMatMul", cc, w)).infer(x), t, exactness(cc), z[2], f"QLinearMatMul with {n} inputs", **cc)
                b = (k * 37 % 256).astype(np.uint8)
                cc = dict(i_s=.5, w_s=.25, o_s=.5, i_zp=z[0], w_zp=z[1], o_zp=z[2])
                t = (cc["i_s"] * (x.astype(int) - z[0]) + cc["w_s"] * (b.astype(int) - z[1])) / cc["o_s"]
                verdict(ctx, build_operator(op("QLinearAdd", cc, b)).infer(x), t, True, z[2], f"QLinearAdd of width {n}")
                ctx.op(5 * n)
            if n <= 300:
                w = np.resize((np.arange(n * n) * 7919 % 256).astype(np.uint8), (n, n)); xs = np.resize(x, (n if n < 100 else 3, n))
                c = dict(i_s=.5, w_s=.25, o_s=2.0 ** 8, i_zp=100, w_zp=131, o_zp=90)
                t = c["i_s"] * c["w_s"] / c["o_s"] * ((xs.astype(int) - 100) @ (w.astype(int) - 131).T)
                verdict(ctx, build_operator(op("QLinearMatMul", c, w)).infer(xs), t, True, 90, f"square QLinearMatMul of {n}")
            ctx.state(n); ctx.trace()


PROP = Property("E05", [
    Scenario("add", cases, add, "all (input, bias) code pairs"),
    Scenario("matmul", cases, matmul, "all (input, weight) code pairs"),
    Scenario("small", small_cases, small, "all small matrices over a boundary alphabet"),
    Scenario("large", big_cases, big, "wide operators, extreme accumulators"),
    Scenario("malformed", bad_cases, malformed, "missing or mis-shaped tensors"),
    Scenario("history", hist_cases, history, "inference sequences"),
    Scenario("usage", usage_cases, usage, "ordered pairs of operators differing in one parameter, refilled buffers, every batch length and width"),
], "model_checking", "state: operator output table; transition: one output element; trace: one operator against its real-valued definition", ["uint8 operands"])
