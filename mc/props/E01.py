import itertools, json
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_quantization import Quantization
from itcl_quantization.quantization.lut import ReducedLUT
from itcl_inference_engine.layers.common.lut import LUTActivation
from itcl_inference_engine.layers.tflite.build_layer import build_layer
from itcl_inference_engine.layers.onnx.build_operator import build_operator
import ref, robust

F = {"tanh": np.tanh, "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "id": lambda x: x, "wave": lambda x: np.sin(3 * x), "step": lambda x: 1.0 * (x > 0), "const": lambda x: 0.25}


def table(dtype, fn, in_s, in_zp, out_s, out_zp):
    return Quantization(dtype).create_LUT(F[fn], in_s, in_zp, out_s, out_zp)


def node(lut, off, reduced=None, with_full=True, **kw):
    return {"scale": kw.get("scale", 0.1), "zero_point": kw.get("zp", 0), "tensor": None,
            "LUT": {"LUT": lut if with_full else None, "reduced_LUT": reduced, "offset": off}}


def operator(n, op):
    return {"op_type": op, "name": "x", "description": "x", "inputs": [n], "outputs": [], "attributes": {}}


def builders(lut, off, depth, asym, op):
    full = node(list(lut), off)
    red = json.loads(json.dumps(ReducedLUT(list(lut), depth, 0, asym).serialize()))
    both = node(list(lut), off, red)
    only = node(None, off, red, with_full=False)
    yield "direct", lambda: LUTActivation(list(lut), off)
    yield "direct reduced", lambda: LUTActivation(ReducedLUT(list(lut), depth, 0, asym), off)
    yield "from_node", lambda: LUTActivation.from_node(full)
    yield "from_node both", lambda: LUTActivation.from_node(both)
    yield "from_node reduced", lambda: LUTActivation.from_node(only)
    for e, b in (("tflite", build_layer), ("onnx", build_operator)):
        yield e, lambda b=b: b(operator(full, op))
        yield e + " reduced", lambda b=b: b(operator(only, op))
    if off == 0:  # a table that starts at code 0 may leave its offset out
        for e, b in (("tflite", build_layer), ("onnx", build_operator)):
            yield e + " offset None", lambda b=b: b(operator(node(list(lut), None), op))
            bare = {k: v for k, v in full.items()}
            bare["LUT"] = {k: v for k, v in full["LUT"].items() if k != "offset"}
            yield e + " no offset", lambda b=b: b(operator(bare, op))


def cases(tier):
    for d in ("int2", "int4", "int6", "int8", "uint4", "uint8"):
        for f in F:
            yield {"dtype": d, "fn": f}
    if tier == "thorough":
        for f in ("tanh", "wave"):
            yield {"dtype": "int10", "fn": f}


def lookup(case, ctx):
    """Every code of the dtype through every way of building the activation layer, full and reduced tables of every depth."""
    lo, hi = ref.drange(case["dtype"])
    codes = np.arange(lo, hi + 1)
    op = "SIGMOIDLUT" if case["fn"] == "sigmoid" else "TANHLUT"
    opn = {"SIGMOIDLUT": "SigmoidLUT", "TANHLUT": "TanhLUT"}[op]
    for in_s, in_zp, out_s, out_zp in itertools.product((0.03, 0.4), sorted({lo, 0, hi}), (0.0078, 0.1), (lo, 0)):
        lut = table(case["dtype"], case["fn"], in_s, in_zp, out_s, out_zp)
        want = np.array(lut)
        for depth, asym in itertools.product((1, 2, 3, 6), (False, True)):
            for how, mk in builders(lut, -lo, depth, asym, opn):
                if (depth, asym) != (3, False) and "reduced" not in how:
                    continue
                layer = mk()
                x = codes.copy()
                got = layer.infer(x)
                ctx.op(len(codes))
                ctx.equal(np.asarray(got).astype(np.int64), want, f"activation table lookup ({how})", dtype=case["dtype"], depth=depth, asym=asym)
                ctx.check(np.array_equal(x, codes), "the input was modified")
                ctx.state((how, want)); ctx.trace()


def shape_cases(tier):
    for d in ("int8", "uint8", "int4"):
        yield {"dtype": d}


def shapes(case, ctx):
    """Shapes, carriers and orders: element i of the result depends on element i of the input only."""
    lo, hi = ref.drange(case["dtype"])
    lut = [(v * 7 + 3) % (hi - lo + 1) + lo for v in range(hi - lo + 1)]
    nat = np.uint8 if case["dtype"] == "uint8" else np.int8
    for how, mk in builders(lut, -lo, 2, True, "TANHLUT" if False else "TanhLUT"):
        layer = mk()
        base = (np.arange(24) * 11 % (hi - lo + 1) + lo)
        for sh in ((24,), (1, 24), (24, 1), (4, 6), (2, 3, 4), (2, 2, 3, 2), (1,), (3, 8)):
            x = base[: int(np.prod(sh))].reshape(sh)
            for c in (np.int64, np.int32, np.int16, nat):
                xx = x.astype(c)
                keep = xx.copy()
                got = np.asarray(layer.infer(xx))
                ctx.op()
                ctx.equal(got.astype(np.int64), np.array(lut)[x - lo], f"lookup of shape {sh} carrier {c.__name__} ({how})")
                ctx.check(np.array_equal(keep, xx), "the input was modified")
            for view in (x[::-1], np.asfortranarray(x), x.T):
                ctx.equal(np.asarray(layer.infer(view)).astype(np.int64), np.array(lut)[view - lo], f"lookup of a view ({how})")
                ctx.op()
        n = 5000
        x = (np.arange(n) * 13 % (hi - lo + 1) + lo).reshape(50, 100)
        ctx.equal(np.asarray(layer.infer(x)).astype(np.int64), np.array(lut)[x - lo], f"large lookup ({how})")
        ctx.state((how, np.array(lut)))
        ctx.trace()


def hist_cases(tier):
    return [{"n": 2}, {"n": 3}]


def history(case, ctx):
    """Layers alive together: every sequence of inferences over three layers and two inputs."""
    A = [v for v in range(256)][::-1]
    A = [v - 128 for v in A]
    B = [int(v) for v in np.clip(np.arange(-128, 128) * 2, -128, 127)]
    C = [3] * 10 + list(range(6))
    x8 = np.array([-128, -1, 0, 1, 127]); x8b = np.array([[5, -6], [100, -100]]); x4 = np.array([-8, -1, 0, 7])
    menu = [(0, x8), (0, x8b), (1, x8), (1, x8b), (2, x4)]
    for seq in itertools.product(range(len(menu)), repeat=case["n"]):
        L = [LUTActivation(list(A), 128), LUTActivation(ReducedLUT(list(B), 2, 0), 128), LUTActivation(list(C), 8)]
        T = [(A, 128), (B, 128), (C, 8)]
        outs = []
        for k in seq:
            i, x = menu[k]
            got = np.asarray(L[i].infer(x))
            want = np.array(T[i][0])[x + T[i][1]]
            ctx.op()
            ctx.equal(got.astype(np.int64), want, "lookup in history", seq=seq)
            outs.append((got, want)); ctx.state((k, got.astype(np.int64)))
        for g, w in outs:
            ctx.equal(g.astype(np.int64), w, "an earlier result changed", seq=seq)
        ctx.trace()


def table_variants():
    A = [v - 128 for v in range(256)]
    T = {"id": (A, 128), "reversed": (A[::-1], 128), "one entry": (A[:200] + [5] + A[201:], 128), "first entry": ([77] + A[1:], 128), "last entry": (A[:-1] + [-77], 128),
         "offset": (A + A, 256), "steps": ([v // 16 for v in A], 128), "steps 2": ([v // 16 if v != 3 else 9 for v in A], 128), "wide": ([300 * v for v in A], 128)}
    for n, (t, o) in T.items():
        want = np.array(t)
        jd = lambda ctx, y, x, m, want=want, o=o: ctx.equal(np.asarray(y).astype(np.int64), want[x.astype(np.int64) + o], m)
        yield n, lambda t=t, o=o: LUTActivation(list(t), o), jd
        if n != "wide":
            yield n + " reduced", lambda t=t, o=o: LUTActivation(ReducedLUT(list(t), 2, 0, False), o), jd
            yield n + " node", lambda t=t, o=o: build_layer(operator(node(list(t), o), "TanhLUT")), jd
            yield n + " sigmoid", lambda t=t, o=o: build_operator(operator(node(list(t), o), "SigmoidLUT")), jd


def usage_cases(tier):
    return [{"what": w} for w in ("pairs", "buffers", "batches", "sizes", "16 bits")]


def usage(case, ctx):
    """Ordered pairs of tables differing in one entry, refilled buffers, every batch length."""
    V = list(table_variants())
    X = [np.array([[-128, 72, 3], [127, 0, -1]]), np.array([[72, -128, 127], [3, -1, 0]]), np.array([[0, 0, 0], [1, 1, 3]])]
    if case["what"] == "pairs":
        robust.pairs(ctx, V, X[:2])
    elif case["what"] == "buffers":
        robust.buffers(ctx, V[:8], X)
        robust.buffers(ctx, V[:4], [x.astype(np.int8) for x in X])
    elif case["what"] == "batches":
        robust.batches(ctx, V[4:7], lambda n: (np.arange(n * 3).reshape(n, 3) * 31 + n) % 256 - 128, robust.sizes(ctx.tier))
    elif case["what"] == "16 bits":     # tables of 65536 entries: every code, every carrier that holds them, both signednesses
        codes = np.arange(65536)
        t = ((codes.astype(np.int64) * 7919) % 65521 - 32000).tolist()
        for off in (0, 32768):
            for n, mk in (("direct", lambda: LUTActivation(list(t), off)), ("reduced", lambda: LUTActivation(ReducedLUT(list(t), 3, 0, False), off)),
                          ("node", lambda: build_layer(operator(node(list(t), off), "TanhLUT"))), ("onnx node", lambda: build_operator(operator(node(list(t), off), "SigmoidLUT")))):
                L = mk()
                for d in ("uint16", "int16", "int32", "uint32", "int64", "uint64"):
                    x = codes - off
                    if np.iinfo(d).min > x.min() or np.iinfo(d).max < x.max() or (off and d == "int16"):     # (an int16 code plus 32768 overflows its own carrier)
                        continue
                    if n == "reduced" or d != "int64":
                        x = np.concatenate([x[:300], x[32768 - 300:32768 + 300], x[-300:], x[::97]])
                    ctx.equal(np.asarray(L.infer(x.astype(d))).astype(np.int64), np.array(t)[x + off], f"65536 entry table ({n}), codes in {d}, offset {off}")
                    ctx.op(len(x))
                ctx.state((off, n)); ctx.trace()
    else:       # every number of entries
        for n in range(1, 1100 if ctx.tier == "quick" else 5000):
            t = [(v * 7919) % 1009 - 500 for v in range(n)]
            L = LUTActivation(list(t), n // 2)
            ctx.equal(np.asarray(L.infer(np.arange(n) - n // 2)).astype(np.int64), np.array(t), f"table of {n} entries")
            ctx.op(n)
        ctx.trace(); ctx.state(n)


PROP = Property("E01", [
    Scenario("lookup", cases, lookup, "every code x every builder x full/reduced tables"),
    Scenario("shapes", shape_cases, shapes, "shapes, carriers, views, large tensors"),
    Scenario("history", hist_cases, history, "inference sequences over several layers"),
    Scenario("usage", usage_cases, usage, "ordered pairs of tables differing in one entry, refilled buffers, every batch length and table size, 16 bit tables"),
], "model_checking", "state: (builder, table) pair or result; transition: one element looked up / one inference; trace: one layer compared with its table",
   ["inputs are valid codes of the table's dtype; empty tensors are not covered"])
