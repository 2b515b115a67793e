import itertools, math
from functools import partial
import numpy as np
import stubs; stubs.install()
import robust
from kit import Property, Scenario
from itcl_quantizer.util.collisions import calc_collisions
from props import K01

FP = [-1.26, -1.24, -0.04, 0.0, 0.04, 1.0, 1.0 + 3e-9]


def reference(fp, q, eps):
    """Different (rounded) reals that share a code with another one."""
    groups = {}
    for f, c in zip(np.ravel(fp), np.ravel(q)):
        v = float(np.around(f, eps)) if eps > 0 else float(f)
        groups.setdefault(int(c), set()).add(v + 0.0)
    return sum(len(g) for g in groups.values() if len(g) > 1)


def count_cases(tier):
    return [{"n": n, "eps": e, "first": f} for n in range(1, 5) for e in (0, 1, 2, 7, 8, 9, 12) for f in (FP if n < 4 or tier != "quick" else FP[2:5])]


def count(c, ctx):
    n = c["n"]
    for fp in itertools.product([c["first"]], *[FP if n < 4 or ctx.thorough else FP[1:5]] * (n - 1)):
        for q in itertools.product((0, 1, -128), repeat=n):
            for shape in ((n,), (n, 1)) if n != 4 else ((2, 2),):
                f, k = np.array(fp).reshape(shape), np.array(q).reshape(shape)
                got = calc_collisions(f, k, c["eps"])
                ctx.op()
                want = reference(f, k, c["eps"])
                ctx.check(got == want, "number of collisions", got=got, want=want, fp=fp, q=q)
                ctx.state((fp, q)) if n < 3 else ctx.state((want, q))
    ctx.trace()


def dtype_cases(tier):
    return [{"dt": d, "carrier": t} for d in ("int8", "uint8", "int16", "int32", "int64") for t in ("float32", "float64")]


def dtypes(c, ctx):
    """Carriers of the tensors do not matter: extreme codes never merge, order is irrelevant."""
    ii = np.iinfo(c["dt"])
    codes = [ii.min, ii.min + 1, 0, 1, ii.max - 1, ii.max] if c["dt"] != "int64" else [-2 ** 31, -2 ** 31 + 1, 0, 1, 2 ** 31 - 2, 2 ** 31 - 1]
    for q in itertools.combinations_with_replacement(codes, 4):
        for perm in list(itertools.permutations((0.5, -0.25, 8.0, 1e-3))) + list(itertools.permutations((0.0, 1e-7, 3e-7, 1.0))) + list(itertools.permutations((1e-12, 1.5e-12, 1e6, 1e6 + 0.5))):
            f = np.array(perm, dtype=c["carrier"])
            k = np.array(q, dtype=c["dt"])
            kf, kk = f.copy(), k.copy()
            got = calc_collisions(f, k, 0); ctx.op()
            ctx.check(got == reference(f, k, 0), "number of collisions", got=got, want=reference(f, k, 0), fp=perm, q=q)
            ctx.check(np.array_equal(f, kf) and np.array_equal(k, kk), "the tensors were modified")
        ctx.state(q)
    ctx.trace()


def layout_cases(tier):
    return [{"eps": e, "k": k} for e in (0, 1, 3, 6, 8) for k in range(3)]


def layouts(c, ctx):
    """Memory layouts, sizes, precision and magnitude of the tensors do not matter, the pairing of elements does."""
    orders = {"C": lambda a: np.array(a, order="C"), "F": lambda a: np.asfortranarray(a), "T": lambda a: np.array(a.T, order="C").T, "strided": lambda a: np.repeat(a, 2, axis=-1)[..., ::2]}
    mag = (1.0, 1e-6, 16777216.0)[c["k"]]
    for shape in ((2, 3), (3, 4), (2, 3, 4), (5, 2)):
        n = int(np.prod(shape))
        for t in range(1, 8):
            f = (np.round(np.sin(np.arange(n) * t), 2) * mag + (np.arange(n) % 3) * 1e-8 * mag).reshape(shape)
            q = ((np.arange(n) * (t + 2)) % 5 - 2).reshape(shape)
            want = reference(f, q, c["eps"])
            for (a, of), (b, oq) in itertools.product(orders.items(), repeat=2):
                got = calc_collisions(of(f), oq(q), c["eps"]); ctx.op()
                ctx.check(got == want, f"collisions of a {a} tensor with {b} codes", got=got, want=want, shape=shape)
            ctx.state((shape, t, want))
    for n in robust.sizes(ctx.tier, 30):
        f = np.sin(np.arange(n) * 0.37) * mag * (1 + (np.arange(n) % 11) * 1e-9)
        q = np.round(np.sin(np.arange(n) * 0.37) * min(100, n / 4)).astype(int)
        got = calc_collisions(f, q, c["eps"]); ctx.op()
        ctx.check(got == reference(f, q, c["eps"]), f"collisions of {n} elements", got=got, want=reference(f, q, c["eps"]))
        ctx.state(n)
    ctx.trace()


def layer_cases(tier):
    return [{"act": a, "w": i, "bits": b, "data": d} for a in ("linear", "tanh", "relu", "sigmoid") for i in range(4) for b in ("int8", "int4", "int2") for d in ("mixed", "dense", "dead")]


WS = [([[0.9, -1.1], [-0.4, 0.6]], [0.1, -0.2]), ([[0.5, 0.5], [0.5, 0.5]], [0.0, 0.0]), ([[1.0, 0.99, 0.98], [-0.5, 0.0, 1e-3]], None), ([[3.0, 0.01], [0.02, 0.015]], [0.3, 0.2])]


def layer(c, ctx):
    """A dense layer reports the collisions of its kernel, and those of its outputs per sample, by node name."""
    x = K01.data(c["data"], 2)
    w, b = WS[c["w"]]
    dc = dict(K01.DCFG, kernel_dtype=c["bits"], bias_add_dtype="int8" if c["bits"] == "int2" else c["bits"])
    net = K01.quantize([(w, b, c["act"])], x, K01.QuantizerCfg(dense=K01.KerasDenseCfg(**dc)))
    for res in net.as_quant_results():
        got = res.layer.calc_collisions(res, partial(calc_collisions, epsilon=3))
        ctx.op()
        if not res.operators or len(res.operators[0].inputs) < 3:
            ctx.check(len(got) == 0 and res.layer.sum_collisions(res, partial(calc_collisions, epsilon=3)) == 0, "layers without tensors have no collisions", got=got)
            continue
        ops = res.operators
        kernel, out = ops[0].inputs[1], ops[0].outputs[0]
        want = {kernel.name: reference(kernel.fp_tensor, kernel.quantized, 3), out.name: math.ceil(reference(out.fp_tensor, out.quantized, 3) / len(x))}
        if len(ops) == 2:
            a = ops[1].outputs[0]
            want[a.name] = math.ceil(reference(a.fp_tensor, a.quantized, 3) / len(x))
        ctx.check(dict(got) == want, "collisions of the layer", got=dict(got), want=want)
        ctx.check(res.layer.sum_collisions(res, partial(calc_collisions, epsilon=3)) == sum(want.values()), "sum of collisions")
        ctx.check(res.layer.sum_collisions(res, lambda f, q: 7) == 7 + math.ceil(7 / len(x)) * (len(want) - 1), "the policy is used")
        ctx.state(tuple(sorted(want.items())))
    ctx.trace()


PROP = Property("C01", [
    Scenario("count", count_cases, count, "all small tensors of reals and codes"),
    Scenario("dtypes", dtype_cases, dtypes, "extreme codes of every carrier"),
    Scenario("layouts", layout_cases, layouts, "memory layouts x sizes x precisions"),
    Scenario("layers", layer_cases, layer, "collision reports of dense layers"),
], "model_checking", "state: (tensor, codes) pair; transition: one collision count; trace: one family of tensors or one layer compared with the definition")
