import itertools, math
import numpy as np
from kit import Property, Scenario
from itcl_quantization import Quantization
import ref

FNS = {
    "tanh": np.tanh, "mtanh": math.tanh, "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "relu_np": lambda x: np.maximum(0, x), "relu_py": lambda x: max(0, x),
    "relu6_py": lambda x: min(max(0, x), 6), "leaky": lambda x: x if x > 0 else 0.1 * x, "identity": lambda x: x, "square": lambda x: x * x, "neg": lambda x: -x,
    "const_int": lambda x: 3, "const_float": lambda x: 0.37, "step_int": lambda x: 1 if x > 0 else 0, "sin": np.sin, "abs": abs,
    "elu": lambda x: x if x > 0 else math.exp(x) - 1, "softsign": lambda x: x / (1 + abs(x)), "hard": lambda x: min(1, max(0, 0.2 * x + 0.5)),
    "f32": lambda x: np.float32(np.tanh(x)), "inv": lambda x: 1.0 / (x * x + 0.25),
}
MONO = {"tanh", "mtanh", "sigmoid", "relu_np", "relu_py", "relu6_py", "leaky", "identity", "step_int", "elu", "softsign", "hard", "const_int", "const_float"}
DT = ["int2", "int4", "int6", "int8", "uint4", "uint8", "np.int8", "np.uint8", "int10"]


def cases(tier):
    for d in DT + (["np.int16", "uint12"] if tier == "thorough" else []):
        for f in FNS:
            yield {"dtype": d, "fn": f}
    for f in ("tanh", "relu_py", "sigmoid"):
        yield {"dtype": "int16", "fn": f}
        yield {"dtype": "uint16", "fn": f}


def table(case, ctx):
    """Every code of the dtype, over input and output parameter grids."""
    lo, hi = ref.drange(case["dtype"])
    q = Quantization(ref.mkdtype(case["dtype"]))
    f = FNS[case["fn"]]
    codes = np.arange(lo, hi + 1)
    wide = hi - lo > 1100
    izps = [0, lo, hi] if wide else sorted({lo, (lo + hi) // 2, 0, min(hi, 3), hi})
    ozps = [0, hi] if wide else sorted({lo, (lo + hi) // 2, 0, hi})
    for in_s in ([0.001] if wide else [0.0625, 0.05, 1.0, 0.3]):
        for in_zp in izps:
            real = ref.dequantize(codes, in_zp, in_s)
            y = np.array([float(f(v)) for v in real])
            got = np.asarray(q.float_activation(f, in_s, in_zp))
            ctx.op(len(codes))
            ctx.close(got, y, 1e-12 * (np.abs(y) + 1), "sampled activation", fn=case["fn"], in_s=in_s, in_zp=in_zp)
            for out_s in ([0.0001] if wide else [0.0078125, 0.01, 0.5]):
                for out_zp in ozps:
                    lut = q.create_LUT(f, in_s, in_zp, out_s, out_zp)
                    ctx.op(len(codes))
                    ctx.check(isinstance(lut, list) and len(lut) == len(codes) and all(type(v) is int for v in lut[:3] + lut[-3:]), "a table is one Python int per code", n=len(lut))
                    ref.check_quantized(ctx, np.array(lut), y, out_zp, out_s, lo, hi, "table entry", fn=case["fn"], in_s=in_s, in_zp=in_zp)
                    if case["fn"] in MONO:
                        ctx.check(bool(np.all(np.diff(lut) >= 0)), "table of a monotone function is not monotone", fn=case["fn"])
                    ctx.state((in_zp, out_zp, in_s, out_s, np.array(lut)))
                    ctx.trace()


def hist_cases(tier):
    return [{"dtype": d} for d in ("int8", "uint8", "int4")]


def history(case, ctx):
    """All sequences of 3 table builds (functions x parameters) on one object: tables are independent and not shared."""
    lo, hi = ref.drange(case["dtype"])
    menu = [("tanh", 0.05, 0, 0.01, 0), ("tanh", 0.05, 0, 0.02, 0), ("relu_py", 0.05, 0, 0.01, 0), ("tanh", 0.07, 1, 0.01, 0), ("sigmoid", 0.05, 0, 0.01, lo)]
    codes = np.arange(lo, hi + 1)
    want = []
    for f, i_s, i_z, o_s, o_z in menu:
        want.append((np.array([float(FNS[f](v)) for v in ref.dequantize(codes, i_z, i_s)]), o_z, o_s))
    for seq, own in itertools.product(itertools.product(range(len(menu)), repeat=3), (True, False)):
        q = Quantization(case["dtype"])
        tabs = []
        for k in seq:
            f, i_s, i_z, o_s, o_z = menu[k]
            t = q.create_LUT(FNS[f], i_s, i_z, o_s, o_z)
            ctx.op()
            ref.check_quantized(ctx, np.array(t), *want[k], lo, hi, "table in history", seq=seq)
            a = q.float_activation(FNS[f], i_s, i_z)
            if own:
                tabs.append((k, list(t), np.array(a)))
                t[0] = -77  # a caller owns its table
                a[...] = -77
            else:
                tabs.append((k, t, a))      # and nobody else changes it
        for k, t, a in tabs:
            ctx.close(np.asarray(a, dtype=float), want[k][0], 1e-12 * (1 + np.abs(want[k][0])), "earlier float activation", seq=seq)
            ref.check_quantized(ctx, np.array(t), *want[k], lo, hi, "earlier table", seq=seq)
            ctx.state((k, tuple(t)))
        ctx.trace()


PROP = Property("Q06", [
    Scenario("table", cases, table, "dtype x function x input/output parameters, every code"),
    Scenario("history", hist_cases, history, "all 3-call sequences on one object"),
], "model_checking", "state: one generated table; transition: one table entry; trace: one table compared entry by entry with the reference",
   ["functions are finite-valued on the sampled range"])
