import ast, contextlib, io, itertools, sys
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.layers.itclq.lstm import LSTM
import lstmref
from props import K02
from props.E07 import ZPS

FIELDS = ("input_gate_act", "forget_gate_act", "cell_gate_act", "output_gate_act")


# ------------------------------------------------------------ intermediate codes of the engine
def expect(ctx, layer, ref, msg):
    t = layer.intermediate_tensors
    for k in ("bias_add", "recurrent_add"):
        for s, d in enumerate(ref):
            for g in range(4):
                ctx.equal(np.broadcast_to(t_at(t, k, s, g), d[k][g].shape), d[k][g], f"{msg}: {k} of gate {g}, step {s}")
        ctx.check(len(getattr(t, k)) == len(ref), f"{msg}: number of steps of {k}")
    for g, k in enumerate(FIELDS):
        steps(ctx, getattr(t, k), [d["act"][g] for d in ref], f"{msg}: {k}")
    for k in ("cell_state", "cell_state_act", "hidden_state"):
        steps(ctx, getattr(t, k), [d[k] for d in ref], f"{msg}: {k}")


def t_at(t, k, s, g):
    return np.asarray(getattr(t, k)[s][g])


def steps(ctx, got, want, msg):
    ctx.check(len(got) == len(want), msg + ": number of steps", got=len(got), want=len(want))
    for s, (a, b) in enumerate(zip(got, want)):
        ctx.equal(np.asarray(a, dtype=np.int64), b, f"{msg}, step {s}")


def inter_cases(tier):
    for z in ZPS:
        for F, U in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)):
            for seq in (True, False):
                yield {"zps": z, "F": F, "U": U, "seq": seq}


def inter(c, ctx):
    """After every inference of every history the recorded intermediate codes are those of its own steps."""
    A = {1: (-128, -1, 5, 127), 2: (-128, 3, 127), 3: (-128, 64)}[c["F"]]
    vecs = list(itertools.product(A, repeat=c["F"]))
    p = lstmref.params(c["F"], c["U"], "wild", ZPS[c["zps"]], True, seq=c["seq"], seed=1)
    L = LSTM.from_model(lstmref.operator(p))
    for w in (1, 2, 3) if ctx.thorough else (1, 2):
        xs = np.array(list(itertools.product(vecs, repeat=w))).reshape(-1, w, c["F"])
        for x in [xs] + [xs[i:i + 1] for i in range(0, len(xs), max(1, len(xs) // 6))]:
            ref = []
            want, _ = lstmref.run(p, x, inter=ref)
            got = np.asarray(L.infer(x))
            ctx.equal(got, want if c["seq"] else want[:, -1], "LSTM output")
            before = L.intermediate_tensors
            expect(ctx, L, ref, f"window {w}, batch {len(x)}")
            ctx.op(len(x) * w); ctx.state((c["zps"], [d["act"] for d in ref]))
            # a second inference does not change what the first one left
            y = x[::-1]
            L.infer(y)
            keep, L.intermediate_tensors = L.intermediate_tensors, before
            expect(ctx, L, ref, f"window {w}, after another inference")
            L.intermediate_tensors = keep
            ctx.trace()


def size_cases(tier):
    for b in [*range(1, 21), 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 256, 257, 300]:
        yield {"B": b, "W": 2, "F": 1, "U": 1}
    for w in [*range(1, 21), 31, 32, 33, 40, 63, 64, 65, 100]:
        yield {"B": 2, "W": w, "F": 1, "U": 1}
    for u in [*range(3, 11), 15, 16, 17, 31, 32, 33]:
        yield {"B": 2, "W": 2, "F": 1, "U": u}
        yield {"B": 2, "W": 2, "F": u, "U": 1}


def sizes(c, ctx):
    """Any number of windows, steps, features and units."""
    for seq in (True, False):
        p = lstmref.params(c["F"], c["U"], "wild", ZPS[sorted(ZPS)[1] if isinstance(ZPS, dict) else 1], True, seq=seq, seed=2)
        L = LSTM.from_model(lstmref.operator(p))
        n = c["B"] * c["W"] * c["F"]
        x = ((np.arange(n) * 97 + 31) % 256 - 128).reshape(c["B"], c["W"], c["F"])
        for y in (x, x[::-1], x[:1]):
            ref = []
            want, _ = lstmref.run(p, y, inter=ref)
            ctx.equal(np.asarray(L.infer(y)), want if seq else want[:, -1], "LSTM output")
            expect(ctx, L, ref, f"{c}")
            ctx.op(len(y) * c["W"]); ctx.trace(); ctx.state([d["act"] for d in ref])


# ------------------------------------------------------------ debug mode of the quantizer
def in_debug(fn):
    """Run fn as under a debugger (a trace function is set); returns its result and what it printed."""
    out, old = io.StringIO(), sys.gettrace()
    sys.settrace(lambda *a: None)
    try:
        with contextlib.redirect_stdout(out):
            r = fn()
    finally:
        sys.settrace(old)
    return r, out.getvalue()


def reports(text):
    found = []
    for line in text.splitlines():
        if line.startswith("[("):
            found.append(ast.literal_eval(line))
    return found


def reference(op, w, x, xq):
    """[(name, [mse of every step])] of one LSTM operator: codes of its engine against the float recurrence."""
    L = LSTM.from_model(op)
    L.infer(np.asarray(xq, dtype=np.int64))
    t, st = L.intermediate_tensors, K02.float_lstm(w, x)
    n, u = K02.nodes(op), w[1].shape[0]
    cat = lambda k: np.array([s[k] for s in st])
    part = lambda k, g: cat(k)[..., g * u:(g + 1) * u]
    rows = [(n["BA"][g], [t_at(t, "bias_add", s, g) for s in range(len(st))], part("a", g)) for g in range(4)]
    rows += [(n["RA"][g], [t_at(t, "recurrent_add", s, g) for s in range(len(st))], part("r", g)) for g in range(4)]
    rows += [(n["GOUT"][g], getattr(t, FIELDS[g]), cat("ifgo"[g])) for g in range(4)]
    rows += [(n["C"], t.cell_state, cat("c")), (n["COUT"], t.cell_state_act, cat("ca")), (n["H"], t.hidden_state, cat("h"))]
    res = []
    for node, q, fp in rows:
        real = (np.asarray(q, dtype=np.float64) - node["zero_point"]) * node["scale"]
        res.append((node["tensor"]["name"], ((np.broadcast_to(real, fp.shape) - fp) ** 2).mean(axis=(1, 2)), np.abs(np.broadcast_to(real, fp.shape) - fp).mean(axis=(1, 2)), float(np.abs(fp).max())))
    return res


def long_cases(tier):
    P = (-12, -8, -4, 0, 3) if tier == "quick" else range(-16, 5, 2)
    return [{"B": 2, "W": 3, "x": a, "w": b, "u": u} for a in P for b in P for u in P] + [{"B": b, "W": w} for b in (1, 3, 33, 130) for w in (1, 2, 9, 10, 11, 12, 16, 17, 33)]


def longs(c, ctx):
    """Reports of long windows, large calibration sets and all magnitudes of inputs and weights."""
    x = np.round(K02.pat((c["B"], c["W"], 1), 2, 1.3), 3) * 2.0 ** c.get("x", 0)
    w = [a * 2.0 ** min(1, c.get(k, 0)) for a, k in zip(K02.weights(1, 2, "pat"), ("w", "u", "w"))]
    keep = x.copy()
    net, text = in_debug(lambda: K02.quantize([("lstm", w, True)], x))
    ctx.check(np.array_equal(x, keep), "the calibration data was modified")
    plain = K02.quantize([("lstm", w, True)], x).as_json()
    js = net.as_json()
    ctx.check({k: v for k, v in js.items() if k != "generated_at"} == {k: v for k, v in plain.items() if k != "generated_at"}, "debug mode changes the network")
    rep, = reports(text)
    op = js["graph"][1]
    y = np.asarray(x, np.float32).astype(np.float64)
    n = op["inputs"][0]
    t = y / n["scale"] + n["zero_point"]
    xq = np.clip(np.floor(t + 0.5), -128, 127)
    ref_ = reference(op, w, y, xq)
    ctx.check([r[0] for r in rep] == [r[0] for r in ref_], "nodes of the report")
    for (name, g), (_, m, a, b) in zip(rep, ref_):
        ctx.check(len(g) == c["W"], f"number of steps reported for {name}", got=len(g), want=c["W"])
        if (np.abs(t - np.floor(t) - 0.5) > 1e-4).all():
            ctx.close(g, m, 2 * a * 1e-5 * b + 1e-10 * b * b, f"error reported for {name}")
    ctx.op(2); ctx.trace(); ctx.state([r[1] for r in rep])


def debug_cases(tier):
    chains = [["lstm"], ["lstm", "lstm"], ["lstm", "tanh"], ["lstm", "lstm", "linear"], ["linear", "tanh"]]
    r = (1, 2) if tier == "quick" else (1, 2, 3)
    return [{"chain": c, "F": F, "U": U} for c in chains for F in r for U in r if U == 2 or "lstm" not in c or c[-1] == "lstm"]


def debug(c, ctx):
    for kind in K02.KINDS:
        for data in K02.DATA:
            for W in (1, 3):
                layers, f = [], c["F"]
                last = max([i for i, k in enumerate(c["chain"]) if k == "lstm"], default=-1)
                for i, k in enumerate(c["chain"]):
                    if k == "lstm":
                        layers.append(("lstm", K02.weights(f, c["U"], kind, i), i < last or (c["F"] == 1 and c["chain"][-1] == "lstm"))); f = c["U"]
                    else:
                        layers.append(("dense", [[0.9, -1.1]] * f if f != 2 else K02.D1[0], K02.D1[1], k)); f = 2
                x = K02.windows(data, W, c["F"])
                x = x if last >= 0 else x[:, 0]
                plain = K02.quantize(layers, x).as_json()
                net, text = in_debug(lambda: K02.quantize(layers, x))
                ctx.op(2)
                js = net.as_json()
                ctx.check({k: v for k, v in js.items() if k != "generated_at"} == {k: v for k, v in plain.items() if k != "generated_at"}, "debug mode changes the network")
                got = reports(text)
                want = [l for l in layers if l[0] == "lstm"]
                ctx.check(len(got) == len(want), "one report per LSTM layer", got=len(got), want=len(want))
                ops = [o for o in js["graph"] if o["op_type"].upper() == "LSTM"]
                y = np.asarray(x, np.float32).astype(np.float64)
                for k, (rep, layer, op) in enumerate(zip(got, want, ops)):
                    # the layer sees float data; its codes are those of the float data, not of the quantized layer before it
                    n = op["inputs"][0]
                    xq = np.clip(np.floor(y / n["scale"] + n["zero_point"] + 0.5), -128, 127)
                    v = np.abs(y / n["scale"] + n["zero_point"] - np.floor(y / n["scale"] + n["zero_point"]) - 0.5)
                    tie = bool((v < 1e-4).any())
                    st = K02.float_lstm(layer[1], y)
                    ref_ = reference(op, layer[1], y, xq)
                    ctx.check([r[0] for r in rep] == [r[0] for r in ref_], "nodes of the report", got=[r[0] for r in rep], want=[r[0] for r in ref_])
                    for (name, g), (_, m, a, b) in zip(rep, ref_):
                        ctx.check(len(g) == len(m), f"number of steps reported for {name}", got=len(g), want=len(m))
                        if not tie:
                            ctx.close(g, m, 2 * a * 1e-5 * b + 1e-10 * b * b, f"error reported for {name}", data=data, kind=kind)
                    ctx.state((kind, data, k, [r[1] for r in rep]))
                    y = np.array([s["h"] for s in st]).swapaxes(0, 1)
                ctx.trace()


PROP = Property("K03", [
    Scenario("inter", inter_cases, inter, "intermediate codes of all windows over the input alphabet x zero point sets, with a second inference in between"),
    Scenario("sizes", size_cases, sizes, "numbers of windows, steps, features and units"),
    Scenario("long", long_cases, longs, "error reports of long windows and large calibration sets"),
    Scenario("debug", debug_cases, debug, "LSTM/dense chains x weights x windows, quantized with and without a debugger"),
], "model_checking", "state: intermediate codes of every step of an LSTM; transition: one inference, or one quantization under a debugger; trace: one window batch (network) with its intermediates (error report) compared with the reference recurrence",
    ["error reports of layers whose input lies within 1e-4 steps of a half-way point are only checked for their nodes and steps"])
