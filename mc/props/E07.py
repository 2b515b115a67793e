import itertools
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.layers.tflite.build_layer import build_layer
import ref, lstmref, robust

ZPS = {
    "zero": {},
    "input": dict(in_zp=-7), "hidden": dict(h_zp=5), "hidden-": dict(h_zp=-128), "cell": dict(c_zp=-9), "cellact": dict(ca_zp=11),
    "kernel": dict(k_zp=[1, -2, 3, -4]), "recurrent": dict(u_zp=[-3, 4, -5, 6]), "radd": dict(ra_zp=[9, -8, 7, -60]), "gates": dict(g_zp=[-128, -127, 3, -128]), "bias": dict(b_zp=[700, -40, 3, -2500]),
    "all": dict(in_zp=-7, h_zp=5, c_zp=-9, ca_zp=11, k_zp=[1, -2, 3, -4], u_zp=[-3, 4, -5, 6], ra_zp=[9, -8, 7, -60], g_zp=[-128, -127, 3, -128]),
    "real": dict(in_zp=-7, h_zp=3, k_zp=[1, -2, 3, -4], u_zp=[-3, 4, -5, 6], ra_zp=[9, -8, 7, -6], g_zp=[-128, -128, 0, -128]),
}


def compare(ctx, p, x, how="from_model", tag=""):
    try:
        want, S = lstmref.run(p, x)
    except lstmref.Ambiguous:
        return False
    op = lstmref.operator(p)
    L = LSTM.from_model(op) if how == "from_model" else build_layer(op)
    got = np.asarray(L.infer(x))
    w = want if p["seq"] else want[:, -1]
    ctx.equal(got, w, f"LSTM output {tag}", zps={k: p[k] for k in p if k.endswith("zp")}, x=np.asarray(x))
    ctx.check(got.dtype.kind in "iu", "LSTM output is not an integer array")
    ctx.op(want.size); ctx.trace()
    for h, c in S:
        ctx.state((h, c))
    return True


def cases(tier):
    for z in ZPS:
        for kind in ("wild", "real", "edge"):
            for exact in (True, False):
                for F, U in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)):
                    yield {"zps": z, "kind": kind, "exact": exact, "F": F, "U": U}


def step(c, ctx):
    """Every input vector over the alphabet, windows of every length up to the bound, sequences and last output, both builders."""
    A = {1: (-128, -40, -1, 0, 1, 55, 127), 2: (-128, 3, 127), 3: (-128, 64)}[c["F"]]
    maxw = 3 if c["F"] * c["U"] <= 2 else 2
    if ctx.thorough:
        maxw += 1
    vecs = list(itertools.product(A, repeat=c["F"]))
    done = 0
    for w in range(1, maxw + 1):
        xs = list(itertools.product(vecs, repeat=w))
        if len(xs) > 4000:
            xs = xs[:: len(xs) // 4000 + 1]
        x = np.array(xs).reshape(len(xs), w, c["F"])
        for seq, how in ((True, "from_model"), (False, "from_model"), (True, "build_layer")):
            p = lstmref.params(c["F"], c["U"], c["kind"], ZPS[c["zps"]], c["exact"], seq=seq, seed=c["F"])
            if c["exact"]:
                compare(ctx, p, x, how, f"(window {w})"); done += 1
            else:       # chunked so that an undetermined rounding only discards its own chunk
                for k in range(0, len(x), 7):
                    done += compare(ctx, p, x[k:k + 7], how, f"(window {w})")
    ctx.check(done > 0, "every case was undetermined")


def weight_cases(tier):
    for z in ("zero", "all"):
        yield {"zps": z}


def weights(c, ctx):
    """One unit, one feature: every (kernel, recurrent kernel, bias) assignment of one gate over the alphabet, the other gates fixed."""
    x = np.array(list(itertools.product((-128, -1, 5, 127), repeat=3))).reshape(-1, 3, 1)
    for g in range(4):
        for k, u, b in itertools.product((-128, -127, -1, 0, 1, 90, 127), (-128, -1, 0, 1, 127), (-5000, 0, 3, 5000)):
            p = lstmref.params(1, 1, "wild", ZPS[c["zps"]], True)
            p["K"][g] = np.array([[k]]); p["U"][g] = np.array([[u]]); p["B"][g] = np.array([b])
            compare(ctx, p, x, tag=f"(gate {g}: kernel {k}, recurrent {u}, bias {b})")


def dtype_cases(tier):
    for ra, cd, h in (("int8", "int8", "int8"), ("int6", "int8", "int8"), ("int8", "int6", "int8"), ("int8", "int8", "int4"), ("int10", "int8", "int8"),
                      ("int8", "int10", "int8"), ("int8", "int8", "int16"), ("uint8", "int8", "int8"), ("int8", "int8", "uint8"), ("int16", "int8", "int8"), ("int8", "int16", "int8")):
        for z in ("zero", "real"):
            yield {"ra": ra, "c": cd, "h": h, "zps": z}


def dtypes(c, ctx):
    """Every gate / state / output width: values saturate at their own dtype."""
    x = np.array(list(itertools.product((-128, -1, 5, 127), repeat=3))).reshape(-1, 3, 1)
    z = dict(ZPS[c["zps"]])
    for cs, hs in ((2.0 ** -5, 2.0 ** -7), (2.0 ** -9, 2.0 ** -10), (2.0 ** -2, 2.0 ** -3)):
        for kind in ("wild", "edge"):
            if c["h"] == "int4" and "h_zp" in z:
                z["h_zp"] = 3
            p = lstmref.params(1, 2, kind, z, True, c["ra"], c["c"], c["h"], scales={"c_s": cs, "h_s": hs})
            compare(ctx, p, x, tag=f"(dtypes {c['ra']}/{c['c']}/{c['h']})")


def zero_cases(tier):
    return [{"F": F, "U": U} for F in (1, 2) for U in (1, 3)]


def from_zero(c, ctx):
    """The recurrence starts from real zeros: with a first step the result does not depend on the recurrent weights, whatever the zero points."""
    x = np.array(list(itertools.product((-128, -3, 0, 127), repeat=c["F"]))).reshape(-1, 1, c["F"])
    for z in ZPS:
        outs = []
        for s in range(4):
            p = lstmref.params(c["F"], c["U"], "wild", ZPS[z], True)
            p["U"] = [(u * (s + 1) + 13 * s) % 100 for u in p["U"]]
            outs.append(np.asarray(LSTM.from_model(lstmref.operator(p)).infer(x)))
            ctx.op(len(x))
        for o in outs[1:]:
            ctx.equal(o, outs[0], "the first step depends on the recurrent weights", zps=z)
        ctx.state(outs[0]); ctx.trace()


def judge_for(p):
    def jd(ctx, y, x, m):
        want, S = lstmref.run(p, x)
        ctx.equal(np.asarray(y), want if p["seq"] else want[:, -1], "LSTM " + m)
    return jd


def lstm_variants():
    """LSTMs that differ from a base in one number."""
    def make(**kw):
        return lstmref.params(2, 2, kw.pop("kind", "wild"), {**ZPS["real"], **kw.pop("z", {})}, True, scales=kw.pop("s", None), **kw)
    yield "base", make()
    yield "zero points left out", dict(make(), bare=True)
    yield "all zero points left out", dict(make(z={k: [0] * 4 if isinstance(v, list) else 0 for k, v in ZPS["all"].items()}), bare=True)
    yield "last output only", make(seq=False)
    for n, z in (("in_zp", -6), ("h_zp", 4), ("k_zp", [1, -2, 3, -5]), ("u_zp", [-3, 4, -5, 7]), ("ra_zp", [9, -8, 7, -5]), ("g_zp", [-128, -127, 0, -128]), ("c_zp", 2), ("ca_zp", 1), ("b_zp", [0, 900, 0, 0])):
        yield n, make(z={n: z})
    for n, s in (("in_s", 2.0 ** -3), ("h_s", 2.0 ** -6), ("c_s", 2.0 ** -4), ("ca_s", 2.0 ** -6), ("k_s", [2.0 ** -6, 2.0 ** -7, 2.0 ** -5, 2.0 ** -5]), ("u_s", [2.0 ** -6, 2.0 ** -6, 2.0 ** -7, 2.0 ** -4]),
                 ("ra_s", [2.0 ** -4, 2.0 ** -3, 2.0 ** -4, 2.0 ** -4]), ("g_s", [2.0 ** -8, 2.0 ** -7, 2.0 ** -7, 2.0 ** -7])):
        yield n, make(s={n: s})
    for part in ("K", "U", "B"):
        for g in (0, 3):
            p = make()
            p[part] = [np.array(a).copy() for a in p[part]]
            p[part][g].reshape(-1)[0] += 60 if part != "B" else 3000
            yield f"{part}{g}", p
    for g in range(5):
        p = make()
        p["lut"] = [list(t) for t in p["lut"]]
        p["lut"][g] = p["lut"][g][::-1]
        yield f"table {g}", p
    yield "smooth tables", make(kind="real")
    yield "hidden dtype", make(h_dt="int6")


def usage_cases(tier):
    for k in range(6):
        yield {"what": "pairs", "part": k}
    for w in ("buffers", "batches", "windows", "units", "features", "carriers"):
        yield {"what": w}


def usage(c, ctx):
    """Ordered pairs of LSTMs differing in one number, refilled buffers, every batch length, long windows, wide layers, carriers."""
    V = [(l, lambda p=p: LSTM.from_model(lstmref.operator(p)), judge_for(p)) for l, p in lstm_variants()]
    pat = lambda *sh: (np.arange(int(np.prod(sh))).reshape(sh) * 7919 + 13) % 256 - 128
    if c["what"] == "pairs":
        X = [pat(3, 2, 2), pat(2, 3, 2)[:, ::-1]]
        for i in range(c["part"], len(V), 6):
            robust.pairs(ctx, [V[i], V[(i + 1) % len(V)]], X)
            if i:
                robust.pairs(ctx, [V[0], V[i]], X)
    elif c["what"] == "buffers":
        robust.buffers(ctx, V[:3], [pat(2, 2, 2), pat(2, 2, 2)[::-1], pat(2, 2, 2) * 0])
        robust.buffers(ctx, V[:2], [pat(2, 2, 2).astype(np.int8), pat(2, 2, 2)[::-1].astype(np.int8)])
    elif c["what"] == "batches":
        robust.batches(ctx, V[:2], lambda n: (pat(n, 2, 2) + n) % 256 - 128, robust.sizes(ctx.tier, 260))
    elif c["what"] == "windows":
        live = [mk() for _, mk, _ in V[:2]]
        for w in list(range(1, 80)) + [99, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 512, 513, 1000]:
            for (l, mk, jd), L in zip(V[:2], live):
                x = pat(2, w, 2)
                jd(ctx, L.infer(x), x, f"on a window of {w} steps, after other windows")
                jd(ctx, mk().infer(x), x, f"on a window of {w} steps")
                ctx.op(w); ctx.state((l, w))
    elif c["what"] in ("units", "features"):
        for n in list(range(1, 68)) + [100, 127, 128, 129, 200, 256, 257]:
            F, U = (2, n) if c["what"] == "units" else (n, 2)
            for seq in (True, False):
                for z in ("zero", "real"):
                    p = lstmref.params(F, U, "real", ZPS[z], True, seq=seq)
                    x = pat(2, 3, F)
                    judge_for(p)(ctx, LSTM.from_model(lstmref.operator(p)).infer(x), x, f"of {F} features and {U} units")
                    # batch length, window length, features and units all equal
                    if n <= 20:
                        p = lstmref.params(n, n, "real", ZPS[z], True, seq=seq)
                        x = pat(n, n, n)
                        judge_for(p)(ctx, LSTM.from_model(lstmref.operator(p)).infer(x), x, f"with every length equal to {n}")
                    ctx.op(6); ctx.state((F, U, seq, z))
    else:       # every integer carrier, every zero point at its extremes, non contiguous views
        for zi in (-128, -7, 0, 1, 127):
            for l, p in list(lstm_variants())[:3]:
                p = dict(p, in_zp=zi)
                x = np.array(list(itertools.product((-128, -1, 0, 127), repeat=4))).reshape(-1, 2, 2)
                for d in (np.int8, np.int16, np.int32, np.int64, np.float32, np.float64):
                    for v in (x.astype(d), np.asfortranarray(x.astype(d)), np.repeat(x.astype(d), 2, axis=0)[::2]):
                        keep = v.copy()
                        judge_for(p)(ctx, LSTM.from_model(lstmref.operator(p)).infer(v), x, f"input carrier {np.dtype(d)}, input zero point {zi}")
                        ctx.check(np.array_equal(keep, v), "input modified"); ctx.op(len(x))
                ctx.state((zi, l))
    ctx.trace()


def extreme_cases(tier):
    for n, z in {"zero": {}, **{f"c{v}": dict(c_zp=v) for v in (-128, -9, 9, 127)}, **{f"h{v}": dict(h_zp=v) for v in (-128, 5, 127)}, **{f"ca{v}": dict(ca_zp=v) for v in (-128, 11, 127)},
                 "g-": dict(g_zp=[-128] * 4), "g+": dict(g_zp=[127] * 4), "all": dict(c_zp=9, h_zp=-7, ca_zp=-5, g_zp=[-128, -128, 3, -128])}.items():
        for dt in (("int8", "int8"), ("int10", "int8"), ("int8", "int10"), ("int12", "int16")):
            yield {"what": "states", "name": n, "z": z, "c": dt[0], "h": dt[1]}
    for zp in (-32768, -128, 0, 300, 32767, 65535):
        for kz in (0, -128, 100):
            yield {"what": "wide", "zp": zp, "kz": kz}


def extremes(c, ctx):
    """Constant gates drive the cell and hidden states to both ends of their ranges and hold them there for many steps, whatever the
    zero points; inputs and kernels of 16 bits whose accumulators do not fit in 32."""
    if c["what"] == "wide":
        for kmax, F in ((127, 2), (32767, 1), (32767, 3)):
            for seq in (True, False):
                p = lstmref.params(F, 2, "real", dict(in_zp=c["zp"], k_zp=[c["kz"]] * 4, h_zp=3), True, "int12", seq=seq,
                                   scales=dict(in_s=2.0 ** -14, k_s=[2.0 ** -14, 2.0 ** -13, 2.0 ** -14, 2.0 ** -12] if kmax > 127 else [2.0 ** -5] * 4, ra_s=[2.0 ** -6, 2.0 ** -5, 2.0 ** -6, 2.0 ** -7]))
                p["K"] = [np.where(k % 2 == 0, kmax, -kmax - 1) + (k % 7) * np.where(k % 2 == 0, -1, 1) for k in p["K"]]
                p["B"] = [np.array([2 ** 31 - 1, -2 ** 31]) // (1 if g % 2 else 1000) for g in range(4)]
                lo, hi = (0, 65535) if c["zp"] > 32767 else (-32768, 32767)
                x = np.array(list(itertools.product((lo, c["zp"], hi, (lo + hi) // 3), repeat=2))).reshape(-1, 2, 1).repeat(F, axis=2)
                for d in ((np.uint16,) if lo == 0 else (np.int16,)) + (np.int32, np.int64):
                    judge_for(p)(ctx, LSTM.from_model(lstmref.operator(p)).infer(x.astype(d)), x, f"16 bit input as {np.dtype(d)}")
                    ctx.op(len(x))
                ctx.state((kmax, F, seq))
        ctx.trace()
        return
    clo, chi = ref.drange(c["c"])
    for cg, og, ca in itertools.product((-128, -1, 127), (-128, 127), ("edge", "rev", "low", "high")):
        for W in (1, 2, 9, 12, 40):
            p = lstmref.params(1, 2, "edge", c["z"], True, c_dt=c["c"], h_dt=c["h"], scales=dict(c_s=2.0 ** -5 if W < 40 else 2.0 ** -7, h_s=2.0 ** -9 if W % 2 else 2.0 ** -7))
            act = {"edge": np.where(np.arange(clo, chi + 1) < 0, -128, 127), "rev": np.where(np.arange(clo, chi + 1) < 0, 127, -128), "low": np.full(chi - clo + 1, -128), "high": np.full(chi - clo + 1, 127)}[ca]
            p["lut"] = [[127] * 256, [127] * 256, [cg] * 256, [og] * 256, act.tolist()]
            x = np.array([[-128] * W, [127] * W, [(i * 37) % 256 - 128 for i in range(W)]]).reshape(3, W, 1)
            want, S = lstmref.run(p, x)
            for seq in (True, False):
                q = dict(p, seq=seq)
                ctx.equal(np.asarray(LSTM.from_model(lstmref.operator(q)).infer(x)), want if seq else want[:, -1], f"LSTM driven to its extremes ({W} steps)", gates=(cg, og, ca))
                ctx.op(want.size)
            for h, s in S[-3:]:
                ctx.state((h, s))
    ctx.trace()


def value_cases(tier):
    for h, hs in (("int8", 2.0 ** -7), ("int16", 2.0 ** -15), ("uint16", 2.0 ** -15), ("int24", 2.0 ** -23), ("int32", 2.0 ** -31), ("uint32", 2.0 ** -31)):
        for g, ca in itertools.product(("int8", "uint8", "int16", "uint16"), ("int8", "int16")):
            yield {"h": h, "h_s": hs, "g": g, "ca": ca}


def values(c, ctx):
    """Hidden states of up to 32 bits, gate and state activations of up to 16: bias sums beyond 32 bits, products beyond 16, every
    state code across its range, at zero points at the ends and inside."""
    hlo, hhi = ref.drange(c["h"]); glo, ghi = ref.drange(c["g"]); clo, chi = ref.drange("int12")
    alo, ahi = ref.drange(c["ca"])
    gs, ca_s = 1.0 / 2 ** (ghi - glo + 1).bit_length() * 2, 2.0 ** -7 if c["ca"] == "int8" else 2.0 ** -15
    spread = lambda k, lo, hi, n: [int(lo + ((i * (7919 + 2 * k) + 31 * k) % n) * (hi - lo) // (n - 1)) for i in range(n)]
    for hz, gz, up in itertools.product(sorted({hlo, hhi, 0, (hlo + hhi) // 2, 7}), (glo, 0, ghi), (2.0 ** -6, 1.0)):
        p = lstmref.params(1, 2, "real", dict(h_zp=hz, g_zp=[gz, glo, 0, gz], in_zp=3, ca_zp=-1, c_zp=5), True, c_dt="int12", h_dt=c["h"],
                           scales=dict(h_s=c["h_s"] * up, g_s=[gs] * 4, ca_s=ca_s, c_s=2.0 ** -9))
        p["lut"] = [spread(k, glo, ghi, 256) for k in range(4)] + [spread(4, alo, ahi, chi - clo + 1)]
        x = np.array(list(itertools.product((-128, -1, 3, 127), repeat=3))).reshape(-1, 3, 1)
        want, S = lstmref.run(p, x)
        for seq in (True, False):
            got = np.asarray(LSTM.from_model(lstmref.operator(dict(p, seq=seq))).infer(x))
            ctx.equal(got, want if seq else want[:, -1], f"LSTM with {c['h']} hidden states (zero point {hz}), {c['g']} gates (zero point {gz}), {c['ca']} state activations")
            ctx.op(want.size)
        for h, s in S:
            ctx.state((h, s))
    ctx.trace()


PROP = Property("E07", [
    Scenario("extremes", extreme_cases, extremes, "states held at the ends of their ranges under every zero point; 16 bit inputs and kernels"),
    Scenario("values", value_cases, values, "hidden states of up to 32 bits, activations of up to 16, at every kind of zero point"),
    Scenario("step", cases, step, "all windows over the input alphabet x zero point sets x tables"),
    Scenario("weights", weight_cases, weights, "all single-gate weight assignments"),
    Scenario("dtypes", dtype_cases, dtypes, "state/gate/output widths"),
    Scenario("usage", usage_cases, usage, "ordered pairs of LSTMs differing in one number, refilled buffers, batch/window/unit/feature lengths, carriers"),
    Scenario("from_zero", zero_cases, from_zero, "initial state"),
], "model_checking", "state: (hidden, cell) state of the recurrence; transition: one unit of one time step; trace: one window batch replayed against the reference recurrence",
   ["cell state and its activation share a dtype (the quantizer never emits anything else)", "windows whose rescaled value is within 1e-9 of an integer are skipped for non-dyadic scales"])
