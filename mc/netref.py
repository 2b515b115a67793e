"""Integer semantics of a whole JSON network (tflite engine, dense operators): every operator of the graph is judged on
the codes the engine itself feeds into it, so that half-way roundings never have to be guessed downstream."""
import numpy as np
import ref
from itcl_inference_engine.network.sequential import SequentialNetwork


def prefixes(ctx, js, x):
    """Result of the engine after each operator."""
    outs = []
    for k in range(1, len(js["graph"]) + 1):
        outs.append(np.asarray(SequentialNetwork({**js, "graph": js["graph"][:k]}).infer(x)))
        ctx.op()
    return outs


def node(n):
    lo, hi = ref.drange(n["tensor"]["dtype"])
    return float(n["scale"]), int(n["zero_point"]), lo, hi


def between(ctx, got, a, b, msg, **kw):
    g = np.asarray(got, dtype=np.float64)
    ctx.check(g.shape == np.shape(a), f"{msg}: shape {g.shape}, expected {np.shape(a)}", **kw)
    bad = ~((g >= a) & (g <= b))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.check(False, f"{msg}: at {i} got {g[i]!r}, expected {a[i]!r}..{b[i]!r} ({int(bad.sum())} of {g.size})", **kw)


def fc_bounds(op, q):
    (si, zi, *_), (sk, zk, *_), so = node(op["inputs"][0]), node(op["inputs"][1]), node(op["outputs"][0])
    w = np.asarray(op["inputs"][1]["tensor"]["tensor"], dtype=np.int64)
    b = op["inputs"][2]["tensor"]["tensor"] if len(op["inputs"]) > 2 else None
    b = np.zeros(len(w), dtype=np.int64) if b is None else np.asarray(b, dtype=np.int64)
    acc = (np.asarray(q).astype(np.int64) - zi) @ (w - zk).T + b
    t = acc.astype(ref.LD) * (ref.LD(si) * ref.LD(sk) / ref.LD(so[0]))
    tol = np.abs(t) * ref.LD(2.0) ** -29 + ref.LD(2.0) ** -40
    lo, hi = so[2], so[3]
    a = np.clip(np.floor(t - tol + ref.LD(0.5)) + so[1], lo, hi)
    c = np.clip(np.floor(t + tol + ref.LD(0.5)) + so[1], lo, hi)
    return a.astype(np.float64), c.astype(np.float64)


def check_ops(ctx, js, x, msg="", outs=None, codes=None):
    """Every operator's codes follow from the codes before it; returns the codes after each operator. `codes`: what enters
    the first operator of a graph without a quantization operator."""
    outs = outs or prefixes(ctx, js, x)
    prev = np.asarray(x, dtype=np.float64) if codes is None else codes
    for i, (op, got) in enumerate(zip(js["graph"], outs)):
        t = op["op_type"].upper()
        where = f"{msg} operator {i} {t}"
        if t == "QUANTIZE":
            s, z, lo, hi = node(op["outputs"][0])
            a, b = ref.quantize_bounds(prev, z, s, lo, hi)
            between(ctx, got, a, b, where)
        elif t == "FULLY_CONNECTED":
            a, b = fc_bounds(op, prev)
            between(ctx, got, a, b, where)
        elif t in ("TANHLUT", "SIGMOIDLUT"):
            L = op["inputs"][0]["LUT"]
            tab = np.asarray(L["LUT"], dtype=np.int64)
            ctx.equal(np.asarray(got, dtype=np.int64), tab[np.asarray(prev).astype(np.int64) + L["offset"]], where)
        elif t == "SOFTMAX":
            ctx.equal(np.asarray(got), np.asarray(prev), where)
        elif t == "DEQUANTIZE":
            s, z, *_ = node(op["inputs"][0])
            w = ref.dequantize(prev, z, s)
            ctx.close(got, w, np.abs(w) * 1e-6 + 1e-12, where)
        else:
            ctx.check(False, where + ": unexpected operator")
        prev = np.asarray(got)
    return outs


FN = {"tanh": np.tanh, "sigmoid": lambda v: 1 / (1 + np.exp(-v)), "relu": lambda v: np.maximum(v, 0), "relu6": lambda v: np.clip(v, 0, 6),
      "linear": lambda v: v, "softmax": lambda v: v}
LIP = {"tanh": 1.0, "sigmoid": 0.25, "relu": 1.0, "relu6": 1.0, "linear": 1.0, "softmax": 1.0}


def real(codes, n):
    s, z, *_ = node(n)
    return (np.asarray(codes, dtype=np.float64) - z) * s
