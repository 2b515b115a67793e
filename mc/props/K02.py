import itertools, os
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
import ref, netref, lstmref
from stubs import Dense, LSTM, Model, MODELS
from itcl_quantizer.tensor_extractor.keras import keras_builder
from itcl_quantizer.config.models.keras import QuantizerCfg
from props.K01 import check_range

GATES = ["INPUT", "FORGET", "CELL", "OUTPUT"]
sig = lambda v: 1 / (1 + np.exp(-v))


def pat(shape, k, amp=1.0):
    n = int(np.prod(shape))
    return (((np.arange(n) * (37 + 2 * k) + 11 * k + 5) % 41 - 20) / 20 * amp).reshape(shape)


class NoBias(list):
    """the weights of an LSTM created with use_bias=False (its bias counts as zero)"""


def weights(F, U, kind="pat", seed=0):
    if kind == "nobias":
        return NoBias([pat((F, 4 * U), seed, 0.9), pat((U, 4 * U), seed + 3, 0.7), np.zeros(4 * U)])
    if kind == "pat":
        return [pat((F, 4 * U), seed, 0.9), pat((U, 4 * U), seed + 3, 0.7), pat((4 * U,), seed + 7, 0.4)]
    if kind == "zero":
        return [np.zeros((F, 4 * U)), np.zeros((U, 4 * U)), np.zeros(4 * U)]
    if kind == "positive":
        return [np.abs(pat((F, 4 * U), seed)), np.abs(pat((U, 4 * U), seed + 3, 0.5)), np.abs(pat((4 * U,), seed + 7, 0.3)) + 0.1]
    if kind == "gates":      # every gate has its own magnitude
        m = np.repeat([0.1, 1.0, 3.0, 0.4], U)
        return [pat((F, 4 * U), seed) * m, pat((U, 4 * U), seed + 3) * m[::-1], pat((4 * U,), seed + 7) * m]
    if kind == "norec":
        return [pat((F, 4 * U), seed), np.zeros((U, 4 * U)), pat((4 * U,), seed + 7)]


def windows(kind, W, F, B=4):
    if kind == "mixed":
        return np.round(pat((B, W, F), 2, 2.0), 3)
    if kind == "positive":
        return np.abs(pat((B, W, F), 5, 3.0)) + 0.1
    if kind == "negative":
        return -np.abs(pat((B, W, F), 6, 1.0)) - 0.05
    if kind == "zero":
        return np.zeros((B, W, F))
    if kind == "one":
        return pat((1, W, F), 9, 1.0)
    if kind == "spike":
        x = np.zeros((B, W, F)); x[0, 0, 0] = 5; x[-1, -1, -1] = -4
        return x


def quantize(layers, x, cfg=None):
    ls = []
    for kind, *a in layers:
        if kind == "lstm":
            w, seq = a
            bias = not isinstance(w, NoBias)
            ls.append(LSTM(w[1].shape[0], [np.array(v) for v in (w if bias else w[:2])], return_sequences=seq, use_bias=bias, name=f"L{len(ls)}"))
        else:
            w, b, act = a
            ls.append(Dense(np.shape(w)[1], act, weights=[np.array(w), np.array(b)], name=f"L{len(ls)}"))
    MODELS["m"] = Model(ls)
    return keras_builder.build("m", f"out{os.getpid()}.json", x, None, cfg or QuantizerCfg())


def table_ok(ctx, n, out, fn, msg):
    L = n["LUT"]
    s, z, lo, hi = netref.node(n); so, zo, olo, ohi = netref.node(out)
    ctx.check(L is not None and len(L["LUT"]) == hi - lo + 1 and L["offset"] == -lo, msg + ": table shape")
    a, b = ref.quantize_bounds(fn((np.arange(lo, hi + 1) - z) * s), zo, so, olo, ohi)
    # exp/tanh are inexact: allow one ulp-ish half-way tie
    g = np.asarray(L["LUT"], dtype=np.float64)
    bad = ~((g >= a - 0) & (g <= b + 0))
    if bad.any():
        t = fn((np.arange(lo, hi + 1) - z) * s) / so + zo
        far = np.abs(t - np.floor(t) - 0.5) > 1e-9
        ctx.check(not (bad & far).any(), msg + ": table entries", at=np.argwhere(bad & far)[:3], got=g[bad & far][:3], want=a[bad & far][:3])


def same(ctx, a, b, msg):
    ctx.check((a["scale"], a["zero_point"]) == (b["scale"], b["zero_point"]), msg, got=[(n["scale"], n["zero_point"]) for n in (a, b)])


def explained(ctx, p, xq, got, msg):
    got = np.asarray(got, dtype=np.int64)
    r = lstmref.explains(p, xq, got)
    if r is not True and r is not None:
        ctx.check(False, msg, sample=r[0], got=got[r[0]], want=r[1])
    ctx.state((got, [p[k] for k in ("in_s", "h_s", "c_s", "ra_s")]))


def nodes(op):
    I = op["inputs"]
    first = {"K": 1, "U": 5, "B": 9, "BA": 13, "RA": 17}
    n = {k: I[v:v + 4] for k, v in first.items()}
    n["X"], n["C"], n["H"] = I[0], I[21], op["outputs"][0]
    n["GIN"], n["GOUT"] = I[22:30:2], I[23:31:2]
    n["CIN"], n["COUT"] = I[30], I[31]
    return n


def ref_params(op):
    n = nodes(op)
    sc = lambda l: [float(v["scale"]) for v in l]
    zp = lambda l: [int(v["zero_point"]) for v in l]
    T = lambda l: [np.array(v["tensor"]["tensor"], dtype=np.int64) for v in l]
    return dict(in_s=n["X"]["scale"], in_zp=n["X"]["zero_point"], h_s=n["H"]["scale"], h_zp=n["H"]["zero_point"], c_s=n["C"]["scale"], c_zp=n["C"]["zero_point"],
                ca_s=n["COUT"]["scale"], ca_zp=n["COUT"]["zero_point"], k_s=sc(n["K"]), k_zp=zp(n["K"]), u_s=sc(n["U"]), u_zp=zp(n["U"]), ra_s=sc(n["RA"]),
                ra_zp=zp(n["RA"]), g_s=sc(n["GOUT"]), g_zp=zp(n["GOUT"]), K=T(n["K"]), U=T(n["U"]), B=T(n["B"]), ra_dt=n["RA"][0]["tensor"]["dtype"],
                c_dt=n["C"]["tensor"]["dtype"], h_dt=n["H"]["tensor"]["dtype"], seq=bool(op["attributes"]["return_sequences"]["value"][0]),
                lut=[v["LUT"]["LUT"] for v in n["GIN"]] + [n["CIN"]["LUT"]["LUT"]], exact=False)


def float_lstm(w, x):
    W, U, b = (np.asarray(v, np.float32).astype(np.float64) for v in w)
    n = U.shape[0]
    x = np.asarray(x, np.float64)
    h = np.zeros((x.shape[0], n)); c = np.zeros_like(h)
    out = []
    for t in range(x.shape[1]):
        a = x[:, t] @ W + b
        r = a + h @ U
        i, f, g, o = sig(r[:, :n]), sig(r[:, n:2 * n]), np.tanh(r[:, 2 * n:3 * n]), sig(r[:, 3 * n:])
        c = f * c + i * g
        ca = np.tanh(c)
        hp = h
        h = o * ca
        out.append(dict(a=a, r=r, i=i, f=f, g=g, o=o, c=c, ca=ca, h=h, hp=hp))
    return out


DT = dict(kernel="int8", recurrent_kernel="int8", bias="int32", bias_add="int32", recurrent_add="int8", activation="int8", cell_state="int8", hidden_state="int8")


def verify_lstm(ctx, op, w, x, e, xq, got, dt=DT):
    """x: float windows the layer sees, e: bound of the input error, xq: input codes, got: codes returned.
    Returns (float result, error bound)."""
    n = nodes(op)
    W, U, b = (np.asarray(v, np.float32).astype(np.float64) for v in w)
    u = U.shape[0]
    st = float_lstm(w, x)
    cat = lambda k: np.array([s[k] for s in st])
    part = lambda a, g: a[..., g * u:(g + 1) * u]
    xs = netref.node(n["X"])[0]
    Kq, Uq, Bq, acts = [], [], [], [sig, sig, np.tanh, sig]
    for g in range(4):
        for name, full in (("K", W), ("U", U)):
            nd = n[name][g]
            s, z, lo, hi = netref.node(nd)
            f = part(full, g)
            ctx.check(nd["tensor"]["dtype"] == dt["kernel" if name == "K" else "recurrent_kernel"], f"{name} dtype")
            check_range(ctx, nd, f, f"{GATES[g]} {name}")
            q = np.array(nd["tensor"]["tensor"], dtype=np.int64)
            a_, b_ = ref.quantize_bounds(f, z, s, lo, hi)
            netref.between(ctx, q, a_, b_, f"{GATES[g]} {name} codes")
            (Kq if name == "K" else Uq).append((q - z) * s)
        s, z, lo, hi = netref.node(n["B"][g])
        ks, hs, us = netref.node(n["K"][g])[0], netref.node(n["H"])[0], netref.node(n["U"][g])[0]
        ctx.check(z == 0 and abs(s - ks * xs) <= 1e-9 * s and n["B"][g]["tensor"]["dtype"] == dt["bias"], f"{GATES[g]} bias scale is not input scale * kernel scale", got=s, want=ks * xs)
        q = np.array(n["B"][g]["tensor"]["tensor"], dtype=np.int64)
        a_, b_ = ref.quantize_bounds(part(b, g), 0, s, lo, hi)
        netref.between(ctx, q, a_, b_, f"{GATES[g]} bias codes")
        Bq.append(q * s)
        s, z, *_ = netref.node(n["BA"][g])
        ctx.check(z == 0 and abs(s - us * hs) <= 1e-9 * s and n["BA"][g]["tensor"]["dtype"] == dt["bias_add"], f"{GATES[g]} bias add scale", got=s, want=us * hs)
        check_range(ctx, n["RA"][g], part(cat("r"), g), f"{GATES[g]} recurrent add")
        ctx.check(n["RA"][g]["tensor"]["dtype"] == dt["recurrent_add"] and n["GOUT"][g]["tensor"]["dtype"] == dt["activation"], "recurrent add / gate dtype")
        same(ctx, n["GIN"][g], n["RA"][g], f"{GATES[g]} gate input differs from the recurrent add")
        check_range(ctx, n["GOUT"][g], acts[g](part(cat("r"), g)), f"{GATES[g]} gate output")
        table_ok(ctx, n["GIN"][g], n["GOUT"][g], acts[g], f"{GATES[g]} gate")
    s, z, lo, hi = netref.node(n["C"])
    c = cat("c")
    ctx.check(z == 0 and n["C"]["tensor"]["dtype"] == n["CIN"]["tensor"]["dtype"] == dt["cell_state"] and n["H"]["tensor"]["dtype"] == dt["hidden_state"], "cell state zero point, state dtypes")
    ctx.check(s * hi >= np.abs(c).max() * (1 - 1e-5), "cell state range does not fit", s=s, m=np.abs(c).max())
    if c.max() > c.min():
        ctx.check(abs(s - np.abs(c).max() / hi) <= 1e-5 * s, "cell state scale is not the tight one", got=s, want=np.abs(c).max() / hi)
    same(ctx, n["CIN"], n["C"], "cell activation input differs from the cell state")
    check_range(ctx, n["COUT"], np.tanh(c), "cell activation output")
    table_ok(ctx, n["CIN"], n["COUT"], np.tanh, "cell state")
    check_range(ctx, n["H"], cat("h"), "hidden state")
    at = op["attributes"]
    ctx.check(at["n_cells"]["value"][0] == u and len(op["inputs"]) == 32, "attributes", got=at)
    seq = bool(at["return_sequences"]["value"][0])
    # integer semantics
    p = ref_params(op)
    explained(ctx, p, xq, got, "LSTM result differs from the integer recurrence of its nodes")
    # float bound
    sc = lambda k: netref.node(k)[0]
    eh = np.zeros((x.shape[0], u)); ec = np.zeros_like(eh)
    E = []
    for t, f in enumerate(st):
        ga = []
        for g in range(4):
            ea = e[:, t] @ np.abs(part(W, g)) + (np.abs(x[:, t]) + e[:, t]) @ np.abs(Kq[g] - part(W, g)) + np.abs(Bq[g] - part(b, g))
            er = ea + sc(n["BA"][g]) * 1.001 + eh @ np.abs(part(U, g)) + (np.abs(f["hp"]) + eh) @ np.abs(Uq[g] - part(U, g))
            er = er + sc(n["RA"][g]) * 1.6
            ga.append(er * (1.0 if g == 2 else 0.25) + sc(n["GOUT"][g]) * 1.001 + 1e-6)
        ei, ef, eg, eo = ga
        cp = st[t - 1]["c"] if t else np.zeros_like(ec)
        ec = np.abs(f["f"]) * ec + np.abs(cp) * ef + ef * ec + f["i"] * eg + np.abs(f["g"]) * ei + ei * eg + sc(n["C"]) * 1.6 + 1e-6
        eca = ec + sc(n["COUT"]) * 1.001
        eh = f["o"] * eca + np.abs(f["ca"]) * eo + eo * eca + sc(n["H"]) * 1.6 + 1e-6
        E.append(eh)
    y = cat("h").swapaxes(0, 1); E = np.array(E).swapaxes(0, 1)
    if not seq:
        y, E = y[:, -1], E[:, -1]
    err = np.abs(netref.real(got, n["H"]) - y)
    ctx.check(err.shape == E.shape and np.all(err <= E), "LSTM result is further from the float layer than its scales allow", over=float((err - E).max()))
    return y, E


def verify(ctx, net, layers, x):
    js = net.as_json(); g = js["graph"]
    want = ["QUANTIZE"]
    for k, *a in layers:
        want += ["LSTM"] if k == "lstm" else ["FULLY_CONNECTED"] + ([a[2].upper() + "LUT"] if a[2] in ("tanh", "sigmoid") else [])
    want.append("DEQUANTIZE")
    ctx.check([o["op_type"].upper() for o in g] == want, "operators of the network", got=[o["op_type"] for o in g])
    outs = netref.prefixes(ctx, js, x)
    for end, v in (("input", np.asarray(x)), ("output", np.asarray(outs[-1]))):
        ctx.check(list(js[end][0]["tensor"]["shape"]) == [1, *v.shape[1:]], f"declared {end} shape", got=js[end][0]["tensor"]["shape"], want=[1, *v.shape[1:]])
    y = np.asarray(x, np.float32).astype(np.float64)
    n = g[0]["outputs"][0]
    check_range(ctx, n, y, "input node")
    a, b = ref.quantize_bounds(x, n["zero_point"], n["scale"], -128, 127)
    netref.between(ctx, outs[0], a, b, "input codes")
    e = np.full(y.shape, n["scale"] * 1.001)
    k = 1
    for kind, *a in layers:
        op = g[k]
        same(ctx, op["inputs"][0], n, "the input node is the output of the previous operator")
        if kind == "lstm":
            y, e = verify_lstm(ctx, op, a[0], y, e, outs[k - 1], outs[k])
            n = op["outputs"][0]; k += 1
        else:
            W, B, act = np.asarray(a[0], np.float32).astype(float), np.asarray(a[1], np.float32).astype(float), a[2]
            lo, hi = netref.fc_bounds(op, outs[k - 1])
            netref.between(ctx, outs[k], lo, hi, "fully connected layer after an LSTM")
            wq, bq = netref.real(op["inputs"][1]["tensor"]["tensor"], op["inputs"][1]).T, netref.real(op["inputs"][2]["tensor"]["tensor"], op["inputs"][2])
            x_ = y
            y = y @ W + B
            e = e @ np.abs(W) + (np.abs(x_) + e) @ np.abs(wq - W) + np.abs(bq - B)
            n = op["outputs"][0]
            y = netref.FN[act](y) if act.startswith("relu") else y
            check_range(ctx, n, y if not act.startswith("relu") else np.append(y.ravel(), 0), "dense after LSTM")
            e = e + n["scale"] * 1.001 + 1e-5
            ctx.check(np.all(np.abs(netref.real(outs[k], n) - y) <= e), "dense result too far from the float layer")
            k += 1
            if act in ("tanh", "sigmoid"):
                n = g[k]["outputs"][0]
                y = netref.FN[act](y); e = e * netref.LIP[act] + n["scale"] * 1.001 + 1e-5
                ctx.check(np.all(np.abs(netref.real(outs[k], n) - y) <= e), "activation result too far from the float layer")
                k += 1
    ctx.check(np.all(np.abs(outs[-1] - y) <= e + 1e-6), "network result too far from the float model")
    ctx.trace()


def run(ctx, layers, x, cfg=None):
    net = quantize(layers, x, cfg)
    ctx.op()
    verify(ctx, net, layers, x)
    return net


# ------------------------------------------------------------ scenarios
KINDS = ["pat", "zero", "positive", "gates", "norec", "nobias"]
DATA = ["mixed", "positive", "negative", "zero", "one", "spike"]


def shape_cases(tier):
    r = range(1, 4) if tier == "quick" else range(1, 6)
    return [{"F": F, "U": U, "W": W} for F in r for U in r for W in (1, 2, 3, 5)]


def shapes(c, ctx):
    for kind in KINDS:
        for d in DATA:
            for seq in (True, False):
                for seed in range(1 if ctx.tier == "quick" else 4):
                    w, x = weights(c["F"], c["U"], kind, seed), windows(d, c["W"], c["F"])
                    net = run(ctx, [("lstm", w, seq)], x)
                    floats(ctx, net.as_operators()[1], w, x)


def floats(ctx, op, w, x):
    """The float tensors recorded in the nodes are those of the float layer (time, batch, units)."""
    st = float_lstm(w, x)
    u = w[1].shape[0]
    cat = lambda k: np.array([s[k] for s in st])
    I = op.inputs
    for g in range(4):
        part = lambda a: a[..., g * u:(g + 1) * u]
        for at, want in ((1, part(w[0])), (5, part(w[1])), (9, part(w[2])), (13, part(cat("a"))), (17, part(cat("r"))), (23 + 2 * g - g, cat("ifgo"[g]))):
            n = I[at + g]
            ctx.close(n.fp_tensor, want, 2e-5 * (1 + np.abs(want)), f"float tensor of {n.name}")
    for n, k in ((I[21], "c"), (I[31], "ca"), (op.outputs[0], "h")):
        ctx.close(n.fp_tensor, cat(k), 2e-5 * (1 + np.abs(cat(k))), f"float tensor of {n.name}")


def size_cases(tier):
    B = [*range(1, 18), 31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300] + ([511, 512, 513, 1000, 1025] if tier == "thorough" else [])
    T = [*range(1, 18), 20, 31, 32, 33, 40, 64, 65] + ([100, 128, 129, 256, 300] if tier == "thorough" else [])
    N = [*range(1, 11), 15, 16, 17, 31, 32, 33] + ([64, 65, 100, 128, 129] if tier == "thorough" else [])
    out = [{"B": b, "W": 3, "F": 1, "U": 1} for b in B] + [{"B": 3, "W": t, "F": 2, "U": 1} for t in T] + [{"B": 2, "W": 2, "F": f, "U": 1} for f in N] + [{"B": 2, "W": 2, "F": 1, "U": u} for u in N]
    return [dict(c, at=a, seq=s) for c in out for a in ("first", "middle", "last") for s in ((True, False) if a == "last" else (True,))]


def sizes(c, ctx):
    """Any number of windows, steps, features and units; the extreme value sits in the first, middle or last window, step and feature."""
    B, W, F, U = c["B"], c["W"], c["F"], c["U"]
    x = np.round(pat((B, W, F), 2, 0.25), 3)
    at = lambda n: {"first": 0, "middle": n // 2, "last": n - 1}[c["at"]]
    x[at(B), at(W), at(F)] = 2.5
    x[at(B), at(W) - 1, at(F)] -= 1.75
    w = weights(F, U, "pat", 1)
    w[0][at(F), at(4 * U)] = 1.6; w[1][at(U), at(4 * U)] = -1.2; w[2][at(4 * U)] = 0.9
    after = [] if c["seq"] else [("dense", np.round(pat((U, 2), 3, 1.1), 2), np.array([0.1, -0.2]), "linear")]
    net = run(ctx, [("lstm", w, c["seq"])] + after, x)
    floats(ctx, net.as_operators()[1], w, x)


def magnitude_cases(tier):
    P = [-12, -6, 0, 4] if tier == "quick" else [-18, -12, -6, -3, 0, 2, 4, 6]
    return [{"x": a, "w": b, "u": u, "b": e} for a in P for b in P for u in P for e in P]


def magnitudes(c, ctx):
    """Inputs, kernels, recurrent kernels and biases of all magnitudes (powers of two)."""
    w = weights(2, 2, "pat")
    w = [w[0] * 2.0 ** c["w"], w[1] * 2.0 ** min(c["u"], 1), w[2] * 2.0 ** c["b"]]
    x = windows("mixed", 3, 2) * 2.0 ** c["x"]
    net = run(ctx, [("lstm", w, False)], x)
    floats(ctx, net.as_operators()[1], w, x)


ZOO = [
    ([("lstm", weights(2, 2, "pat"), False)], windows("mixed", 3, 2)),
    ([("lstm", weights(2, 2, "pat", 5), False)], windows("mixed", 3, 2)),
    ([("lstm", weights(2, 2, "pat"), False)], windows("spike", 3, 2)),
    ([("lstm", weights(2, 2, "pat"), True)], windows("mixed", 3, 2)),
    ([("lstm", weights(2, 2, "gates"), True), ("lstm", weights(2, 2, "pat", 3), False)], windows("mixed", 3, 2)),
    ([("lstm", weights(2, 2, "pat"), False), ("dense", [[0.9, -1.1], [-0.4, 0.6]], [0.1, -0.2], "tanh")], windows("mixed", 3, 2)),
    ([("lstm", weights(1, 3, "pat"), False)], windows("mixed", 2, 1)),
]


def order_cases(tier):
    return [{"seq": list(s)} for s in itertools.product(range(len(ZOO)), repeat=2 if tier == "quick" else 3)]


def order(c, ctx):
    """Models quantized one after the other in one process: each as if it were the only one, the earlier ones keep theirs."""
    kept = []
    for i in c["seq"]:
        layers, x = ZOO[i]
        net = run(ctx, layers, x)
        for n, l, xx in kept:
            verify(ctx, n, l, xx)
        kept.append((net, layers, x))
    ctx.trace()


AL = [-1.5, 0.0, 0.8]


def single_cases(tier):
    return [{"k": list(k)} for k in itertools.product(AL if tier == "thorough" else [-1.5, 0.8], repeat=4)]


def single(c, ctx):
    """One unit, one feature: every assignment of the eight weights over an alphabet."""
    x = windows("mixed", 3, 1)
    for u in itertools.product(AL, repeat=4):
        for b in ([0, 0, 0, 0], [0.2, -0.5, 1.0, 0.3])[: 1 if ctx.tier == "quick" else 2]:
            run(ctx, [("lstm", [np.array([c["k"]]), np.array([u]), np.array(b, float)], len(set(u)) == 1)], x)


D1 = ([[0.9, -1.1], [-0.4, 0.6]], [0.1, -0.2])


def chain_cases(tier):
    kinds = ["lstm", "tanh", "relu", "linear"]
    return [{"chain": list(c)} for n in (1, 2, 3) for c in itertools.product(kinds, repeat=n)
            if "lstm" in c and all(k == "lstm" for k in c[:max(i for i, k in enumerate(c) if k == "lstm") + 1])]


def chains(c, ctx):
    last = max(i for i, k in enumerate(c["chain"]) if k == "lstm")
    for d in DATA:
        for kind in KINDS:
            layers = []
            for i, k in enumerate(c["chain"]):
                layers.append(("lstm", weights(2, 2, kind, i), i < last) if k == "lstm" else ("dense", *D1, k))
            run(ctx, layers, windows(d, 3, 2))


def update_cases(tier):
    return [{"kind": k, "n": 2 if tier == "quick" else 3} for k in KINDS]


def updates(c, ctx):
    """The input node of an LSTM is retuned: its biases follow and the exported network computes what its nodes say."""
    x = windows("mixed", 3, 2)
    w = weights(2, 2, c["kind"])
    for seq in itertools.product([(0.5, 0), (1.7, 4), (1.0, -9)], repeat=c["n"]):
        net = quantize([("lstm", w, False), ("dense", *D1, "tanh")], x)
        node = net.as_operators()[0].outputs[0]
        s0 = node.scale
        for f, z in seq:
            node.update_quant_parameters(s0 * f, z)
            ctx.op()
            js = net.as_json(); op = js["graph"][1]; n = nodes(op)
            same(ctx, n["X"], js["graph"][0]["outputs"][0], "input of the LSTM")
            ctx.check((n["X"]["scale"], n["X"]["zero_point"]) == (s0 * f, z), "updated input node")
            for g in range(4):
                s, z_, lo, hi = netref.node(n["B"][g])
                want = n["X"]["scale"] * n["K"][g]["scale"]
                ctx.check(z_ == 0 and abs(s - want) <= 1e-9 * want, "bias scale after an update of the input", got=s, want=want)
                a, b = ref.quantize_bounds(np.float32(w[2])[g * 2:g * 2 + 2], 0, s, lo, hi)
                netref.between(ctx, n["B"][g]["tensor"]["tensor"], a, b, "bias codes after an update of the input")
            outs = netref.prefixes(ctx, js, x)
            explained(ctx, ref_params(op), outs[0], outs[1], "LSTM after an update")
        ctx.trace()


MENU = dict(kernel=["int4", "int16", "uint8"], recurrent_kernel=["int5", "int16", "uint8"], bias=["int16", "int24"], bias_add=["int16"], recurrent_add=["int6", "int12", "uint8", "int16"],
            activation=["int4", "int16", "uint8"], cell_state=["int6", "int12", "int16"], hidden_state=["int5", "int16", "uint8"])


def dtype_cases(tier):
    one = [{k: v} for k, l in MENU.items() for v in l]
    two = [dict(a, **b) for a, b in itertools.combinations(one, 2) if set(a).isdisjoint(b)]
    if tier == "quick":
        two = two[::9]
    return [{"dt": d, "x": x} for d in [{}] + one + two for x in (("int8", "uint8", "int16") if len(d) < 2 else ("int8",))]


def dtypes(c, ctx):
    """Every dtype the layer accepts for its kernels, biases, gates and states, alone and in pairs, behind inputs of several dtypes."""
    from itcl_quantization import Quantization
    from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
    from itcl_quantizer.tensor_extractor.keras.layers import KerasInput, KerasLSTM
    from itcl_inference_engine.layers.itclq.lstm import LSTM as Engine
    x = windows("mixed", 3, 2)
    for kind in ("pat", "gates"):
        for seq in (True, False):
            w = weights(2, 2, kind)
            layer = LSTM(2, [np.array(v) for v in w], return_sequences=seq, use_bias=True, name="L")
            r = KerasInput(Quantization(c["x"])).quantize(QuantizationResult(x, operators=[], out_node=None, layer=None))
            r = KerasLSTM(layer, **{k + "_dtype": v for k, v in c["dt"].items()}).quantize(r)
            op = r.operators[-1].as_json()
            s, z, lo, hi = netref.node(op["inputs"][0])
            ctx.check(op["inputs"][0]["tensor"]["dtype"] == c["x"], "input dtype")
            a, _ = ref.quantize_bounds(x, z, s, lo, hi)
            xq = a.astype(np.int64)
            got = Engine.from_model(op).infer(xq)
            ctx.op()
            verify_lstm(ctx, op, w, np.asarray(x, np.float32).astype(np.float64), np.full(x.shape, s * 1.001), xq, got, dict(DT, **c["dt"]))
    ctx.trace()


OTHER = [("activation", a) for a in ("relu", "linear", "sigmoid")] + [("recurrent_activation", a) for a in ("relu", "linear", "tanh")] + [("go_backwards", True)]


def refusal_cases(tier):
    return [{"option": o, "value": v, "n": n, "at": i, "dense": d} for o, v in OTHER for n in (1, 2, 3) for i in range(n) for d in (0, 1)]


def refusals(c, ctx):
    """The engine computes forward LSTMs with tanh and sigmoid: any other is refused, wherever it stands; the usual ones spelled out are not."""
    x = windows("mixed", 3, 2)
    for usual in (True, False):
        specs = [("lstm", weights(2, 2, "pat", i), i < c["n"] - 1) for i in range(c["n"])] + [("dense", *D1, "tanh")] * c["dense"]
        ls = []
        for i, (kind, *a) in enumerate(specs):
            if kind == "dense":
                ls.append(Dense(2, a[2], weights=[np.array(v) for v in a[:2]], name=f"L{i}"))
                continue
            o = dict(activation="tanh", recurrent_activation="sigmoid", go_backwards=False)
            if not usual and i == c["at"]:
                o[c["option"]] = c["value"]
            back = o.pop("go_backwards")
            l = LSTM(2, [np.array(v) for v in a[0]], return_sequences=a[1], use_bias=True, name=f"L{i}", **o)
            l.go_backwards = back
            ls.append(l)
        MODELS["m"] = Model(ls)
        build = lambda: keras_builder.build("m", f"out{os.getpid()}.json", x, None, QuantizerCfg())
        ctx.op()
        if usual:
            verify(ctx, build(), specs, x)
            continue
        try:
            net = build()
        except Exception:
            net = None
        ctx.check(net is None, f"an LSTM with {c['option']} {c['value']} was quantized as if it had the default one")
    ctx.state((c["option"], c["value"], c["n"], c["at"])); ctx.trace()


PROP = Property("K02", [
    Scenario("refusals", refusal_cases, refusals, "LSTM options the engine does not compute, at every position"),
    Scenario("dtypes", dtype_cases, dtypes, "dtypes of kernels, biases, gates and states, alone and in pairs"),
    Scenario("shapes", shape_cases, shapes, "LSTM shapes x weight families x calibration windows"),
    Scenario("single", single_cases, single, "all weights of a one-unit LSTM over an alphabet"),
    Scenario("chains", chain_cases, chains, "LSTM / dense chains up to three layers"),
    Scenario("sizes", size_cases, sizes, "numbers of windows, steps, features and units x position of the extremes"),
    Scenario("magnitudes", magnitude_cases, magnitudes, "input and weight magnitudes"),
    Scenario("order", order_cases, order, "all ordered pairs (triples) of models"),
    Scenario("updates", update_cases, updates, "updates of the node an LSTM reads"),
], "model_checking", "state: hidden states of all steps for the calibration windows; transition: one operator executed on the engine; trace: one quantized network checked node by node against the float layer and the integer recurrence")
