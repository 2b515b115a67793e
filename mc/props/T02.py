import copy, itertools
import numpy as np
import stubs; stubs.install()
import robust
from kit import Property, Scenario
import ref
from itcl_quantization import Quantization
from itcl_quantization.quantization.lut import ReducedLUT
from itcl_inference_engine.layers.common.lut import LUTActivation
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.tensor_extractor.keras.layers.activations import quantize_activation_node

FNS = {"tanh": (np.tanh, lambda x: np.tanh(x)), "sigmoid": (stubs.sigmoid, lambda x: 1 / (1 + np.exp(-x))),
       "bump": (lambda x: x * np.exp(-x * x), lambda x: x * np.exp(-x * x)), "elu": (stubs.elu, lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))))}
INS = [(0.1, 0), (0.03, -3), (0.5, 2)]
OUTS = [(1 / 128, 0), (0.05, -4), (0.2, 3)]


def policy(name, n):
    return {"floor": np.zeros(n, int), "ceil": np.ones(n, int), "alt": np.arange(n) % 2}[name]


class Model:
    def __init__(self, fn, idt, odt, i, o):
        self.fn, self.i, self.o, self.pol = fn, i, o, None
        self.lo, self.hi = ref.drange(idt)
        self.olo, self.ohi = ref.drange(odt)
        self.di = self.do = False

    def n(self):
        return self.hi - self.lo + 1

    def bounds(self):
        q = np.arange(self.lo, self.hi + 1, dtype=np.float64)
        t = self.fn((q - self.i[1]) * self.i[0]) / self.o[0] + self.o[1]
        e = 1e-9 * (1 + np.abs(t))
        if self.pol is None:
            a, b = np.floor(t - e + 0.5), np.floor(t + e + 0.5)
        else:
            p = policy(self.pol, self.n())
            a, b = np.floor(t - e) + p, np.floor(t + e) + p
        return np.clip(a, self.olo, self.ohi), np.clip(b, self.olo, self.ohi)

    def base_equals(self):
        """Whether some explicit policy of the alphabet coincides with round to nearest under these parameters."""
        q = np.arange(self.lo, self.hi + 1, dtype=np.float64)
        t = self.fn((q - self.i[1]) * self.i[0]) / self.o[0] + self.o[1]
        b = np.floor(t + 0.5) - np.floor(t)
        return any(np.array_equal(b, policy(p, self.n())) for p in ("floor", "ceil", "alt"))

    def key(self):
        return (self.i, self.o, self.pol, self.di, self.do)


def step(m, op):
    k = op[0]
    if k == "in":
        m.i, m.di = op[1], not op[2]
    elif k == "out":
        m.o, m.do = op[1], not op[2]
    elif k == "policy":
        m.pol = op[1]


def drive(sysm, op, m):
    node, out, lut = sysm
    k = op[0]
    if k in ("in", "out"):
        target = node if k == "in" else out
        if op[2]:
            target.update_quant_parameters(*op[1])
        else:
            target.update_quant_parameters(*op[1], requantize=False)
    elif k == "policy":
        lut().rounding_policy = policy(op[1], m.n())


def entries(lut, lo, hi):
    return np.array([int(lut(q)) for q in range(lo, hi + 1)])


def observe(ctx, sysm, m, after, full=True):
    node, out, lut = sysm
    L = lut()
    n = m.n()
    ctx.check(L.offset == -m.lo and len(L) == n, "offset/length of the table", got=(L.offset, len(L)), after=after)
    if m.di or m.do:
        return
    a, b = m.bounds()
    got = np.array([int(L[i]) for i in range(n)])
    bad = ~((got >= a) & (got <= b))
    if bad.any():
        i = int(np.argmax(bad))
        ctx.check(False, f"table entry of code {i + m.lo}: got {got[i]}, expected {a[i]:.0f}..{b[i]:.0f} ({int(bad.sum())} wrong)",
                  after=after, i=m.i, o=m.o, pol=m.pol)
    ctx.equal(entries(L, m.lo, m.hi), got, "calling the table differs from indexing it", after=after)
    ctx.equal(np.array([int(L(q)) for q in np.arange(m.lo, m.hi + 1)]), got, "calling the table with a code of an array differs from indexing it", after=after)
    j = node.as_json()["LUT"]
    ctx.check(j is not None, "the node does not serialize its table", after=after)
    ctx.equal(np.array(j["LUT"]), got, "serialized table", after=after)
    ctx.check(j["offset"] == -m.lo and all(type(v) is int for v in j["LUT"]), "serialized offset / plain ints", after=after)
    if j.get("reduced_LUT") is not None:
        r = ReducedLUT.deserialize(j["reduced_LUT"])
        ctx.equal(np.array([r[i] for i in range(n)]), got, "serialized reduced table", after=after)
    eng = LUTActivation.from_node(node.as_json())
    ctx.equal(np.asarray(eng.infer(np.arange(m.lo, m.hi + 1))), got, "the engine's activation layer", after=after)
    p = np.asarray(L.rounding_policy)
    ctx.check(p.shape == (n,), "shape of the rounding policy", after=after)
    if m.pol is not None:
        ctx.equal(p, policy(m.pol, n), "rounding policy", after=after)
    ctx.op(n)


def build(c):
    q, oq = Quantization(c["idt"]), Quantization(c["odt"])
    i, o = tuple(c["i"]), tuple(c["o"])
    fn, rfn = FNS[c["fn"]]
    x = np.array([[0.3, -1.2], [2.0, 0.0], [-0.7, 5.0]])
    node = NodeTensorBase(i[0], i[1], "in", q)
    if c["kind"] == "tensor":
        node = node.with_tensor(x).exclude_tensor()
    if c["kind"] == "plain":
        got = node.with_lut(fn, o[0], o[1])
        assert got is node
        m = Model(rfn, c["idt"], c["idt"], i, o)
        return (node, None, lambda: node.LUT), m
    op, data = quantize_activation_node(fn, c["fn"], x, oq, node, out_params=o)
    m = Model(rfn, c["idt"], c["odt"], i, o)
    return (op.inputs[0], op.outputs[0], lambda: op.inputs[0].LUT), m


def alphabet(c):
    A = [("in", i, rq) for i in INS for rq in (True, False)] + [("policy", p) for p in ("floor", "ceil", "alt")]
    if c["kind"] != "plain":
        A += [("out", o, rq) for o in OUTS for rq in (True, False)]
    return A


DT = [("int4", "int4"), ("int8", "int8"), ("uint4", "uint4"), ("int4", "int8"), ("int8", "int4"), ("uint8", "int8")]


def seq_cases(tier):
    for kind in ("plain", "tensor", "activation"):
        for fn in ("tanh", "sigmoid") if kind != "plain" else FNS:
            for idt, odt in DT:
                if kind == "plain" and idt != odt:
                    continue
                n = (4 if tier == "thorough" else 3) if idt in ("int4", "uint4") else (3 if tier == "thorough" else 2)
                for k, (i, o) in enumerate(zip(INS, OUTS)):
                    if tier == "quick" and k == 2:
                        continue
                    yield {"kind": kind, "fn": fn, "idt": idt, "odt": odt, "i": i, "o": o, "n": n}


def sequences(c, ctx):
    """Every sequence of parameter updates of both nodes and policies; the table is compared after every step."""
    A = alphabet(c)
    seen = set()
    for seq in itertools.product(A, repeat=c["n"]):
        sysm, m = build(c)
        if not ctx.states:
            observe(ctx, sysm, m, "construction")
        skip = False
        for k, op in enumerate(seq):
            drive(sysm, op, m)
            step(m, op)
            skip = skip or m.base_equals()
            if skip:
                break
            # prefixes are checked once
            if seq[:k + 1] not in seen:
                seen.add(seq[:k + 1])
                observe(ctx, sysm, m, seq[:k + 1])
                ctx.state(m.key())
        ctx.trace()
    ctx.check(len(seen) > len(A), "internal: every policy coincides with round to nearest")


def act_cases(tier):
    for name in ("tanh", "sigmoid", "TANH", "Sigmoid", "relu", "RELU", "relu6", "linear", "Linear", "softmax", "elu"):
        for idt, odt in DT:
            for data in ("small", "wide", "pos", "zero", "seq", "one"):
                yield {"name": name, "idt": idt, "odt": odt, "data": data}


DATA = {"small": np.linspace(-0.4, 0.9, 12).reshape(6, 2), "wide": np.linspace(-9, 7, 12).reshape(6, 2), "pos": np.linspace(0.1, 3, 6).reshape(3, 2),
        "zero": np.zeros((3, 2)), "seq": np.linspace(-2, 3, 12).reshape(2, 3, 2), "one": np.array([[1.5]])}


def activation(c, ctx):
    """The operator built for every activation name: its nodes, table, calibrated output parameters and forwarded data."""
    x = DATA[c["data"]]
    fn = stubs.ACT[c["name"].lower()]
    oq = Quantization(c["odt"])
    up = c["name"].upper()
    for params in (None, (0.02, 1)):
        for skip in (False, True):
            node = NodeTensorBase(0.1, 1, "in", Quantization(c["idt"])).with_tensor(x)
            keep = x.copy()
            op, data = quantize_activation_node(fn, c["name"], x, oq, node, out_params=params, skip_lut=skip)
            ctx.check(np.array_equal(keep, x), "calibration data modified")
            ctx.op(); ctx.state((c["name"], c["odt"], params, skip, np.asarray(data, float)))
            if up in ("LINEAR", "SOFTMAX", "RELU", "RELU6"):
                ctx.check(op is None and node.LUT is None, "a skipped activation produced an operator")
                want = fn(x) if up.startswith("RELU") else x
                ctx.close(data, want, 1e-12, "data forwarded by a skipped activation")
                continue
            want = np.asarray(fn(x), float)
            ctx.close(data, want, 1e-12, "activated data")
            ctx.check(op.inputs == [node] and len(op.outputs) == 1, "nodes of the activation operator")
            out = op.outputs[0]
            if params is not None:
                ctx.check((out.scale, out.zero_point) == params, "explicit output parameters were ignored", got=(out.scale, out.zero_point))
            else:
                lo, hi = ref.drange(c["odt"])
                ctx.check(out.scale > 0 and lo <= out.zero_point <= hi, "output parameters", got=(out.scale, out.zero_point))
                back = oq.dequantize(oq.quantize(want, out.zero_point, out.scale), out.zero_point, out.scale)
                ctx.close(back, want, out.scale * (0.5 + 1e-9) + 1e-12, "the activated data does not fit the calibrated output range")
            lutted = up in ("TANH", "SIGMOID") and not skip
            ctx.check((node.LUT is not None) == lutted, "table of the activation", lutted=lutted)
            j = op.as_json()
            ctx.check(j["op_type"].upper() == up + ("LUT" if lutted else ""), "operator type", got=j["op_type"])
            jo = j["outputs"][0]
            ctx.check(jo["scale"] == out.scale and jo["zero_point"] == out.zero_point and jo["tensor"]["dtype"] == c["odt"] and
                      list(jo["tensor"]["shape"]) == list(x.shape[1:]) and jo["tensor"]["tensor"] is None, "JSON output node", got=jo)
            if lutted:
                m = Model(FNS[c["name"].lower()][1], c["idt"], c["odt"], (0.1, 1), (out.scale, out.zero_point))
                observe(ctx, (node, out, lambda: node.LUT), m, "construction")
    ctx.trace()


def two_cases(tier):
    return [{"n": 3 if tier == "quick" else 4, "odt": o} for o in ("int4", "int8")]


def two(c, ctx):
    """Two live activations: every interleaving of updates on both; no table follows the other's nodes."""
    A = [(w, *op) for w in (0, 1) for op in [("in", INS[0], True), ("in", INS[1], True), ("out", OUTS[0], True), ("out", OUTS[1], True), ("policy", "ceil")]]
    for seq in itertools.product(A, repeat=c["n"]):
        S = [build({"kind": "activation", "fn": f, "idt": "int4", "odt": c["odt"], "i": i, "o": o}) for f, i, o in (("tanh", INS[1], OUTS[1]), ("sigmoid", INS[0], OUTS[0]))]
        ok = True
        for w, *op in seq:
            drive(S[w][0], op, S[w][1]); step(S[w][1], op)
            ok = ok and not S[w][1].base_equals()
        if ok:
            for s, m in S:
                observe(ctx, s, m, seq)
                ctx.state(m.key())
        ctx.trace()


def fine_cases(tier):
    return [{"fn": f, "idt": i, "k": k} for f in ("tanh", "sigmoid") for i in ("int4", "int8", "uint8") for k in ("plain", "activation")]


def fine(c, ctx):
    """Updates by any relative amount, however small, of either node reach the table (fine output codes tell them apart)."""
    odt, o = ("int32", (1e-9, 5)) if c["k"] == "activation" else (c["idt"], (1 / 100, 1))
    steps = [s * 10.0 ** -e for e in range(1, 8) for s in (1, -1)] if c["k"] == "activation" else [s * 10.0 ** -e for e in range(1, 4) for s in (1, -1)]
    for who, rel, dz, times in itertools.product(("in", "out"), steps + [0.0], (0, 1, -1), (1, 3)):
        if c["k"] == "plain" and who == "out":
            continue
        i = (0.11, 1)
        q, oq = Quantization(c["idt"]), Quantization(odt)
        fn, rfn = FNS[c["fn"]]
        node = NodeTensorBase(i[0], i[1], "in", q)
        m = Model(rfn, c["idt"], odt, i, o)
        if c["k"] == "plain":
            sysm = node.with_lut(fn, *o), None, lambda: node.LUT
        else:
            op, _ = quantize_activation_node(fn, c["fn"], np.array([[0.3, -1.0]]), oq, node, out_params=o)
            sysm = op.inputs[0], op.outputs[0], lambda: op.inputs[0].LUT
        for _ in range(times):
            s, z = m.i if who == "in" else m.o
            p = (s * (1 + rel), z + dz)
            drive(sysm, (who, p, True), m); step(m, (who, p, True))
            observe(ctx, sysm, m, (who, rel, dz))
            ctx.state((who, rel, dz, c["fn"], c["idt"]))
    ctx.trace()


def anew_cases(tier):
    return [{"a": a, "b": b, "dt": list(d)} for a in FNS for b in FNS for d in DT]


def anew(c, ctx):
    """A node given a table again has the new one; one array reused for several policies counts with the values it holds when set."""
    idt, odt = c["dt"]
    for (i, o, o2), depth in itertools.product(((INS[0], OUTS[0], OUTS[1]), (INS[1], OUTS[2], OUTS[2])), (3, 0, 2)):
        node = NodeTensorBase(i[0], i[1], "n", Quantization(idt))
        for k, (f, out) in enumerate(((c["a"], o), (c["b"], o2), (c["a"], o2))):
            node.with_lut(FNS[f][0], *out, reduced_depth=depth, out_quant=Quantization(odt)); ctx.op()
            m = Model(FNS[f][1], idt, odt, i, out)
            a, b = m.bounds()
            got = entries(node.LUT, m.lo, m.hi)
            ctx.check(np.all((got >= a) & (got <= b)), "a table given anew", round=k, fn=f)
        pol = np.zeros(m.n(), int)
        for name in ("ceil", "floor", "alt", "ceil"):
            pol[...] = policy(name, m.n())
            node.LUT.rounding_policy = pol; ctx.op()
            m.pol = name
            a, b = m.bounds()
            got = entries(node.LUT, m.lo, m.hi)
            ctx.check(np.all((got >= a) & (got <= b)), "a table under a policy whose array was reused", policy=name)
        for w in ("requantize", "parameters"):      # watched nodes
            seen = []
            node = NodeTensorBase(i[0], i[1], "n", Quantization(idt)).with_lut(FNS[c["b"]][0], *o, reduced_depth=depth, out_quant=Quantization(odt))
            (node.on_requantize if w == "requantize" else node.on_quant_param_update).append(lambda n: seen.append(entries(n.LUT, m.lo, m.hi)))
            for j in (INS[2], INS[0], INS[1]):
                node.update_quant_parameters(*j); ctx.op()
                a, b = Model(FNS[c["b"]][1], idt, odt, j, o).bounds()
                ctx.check(len(seen) > 0 and all(np.all((g >= a) & (g <= b)) for g in (entries(node.LUT, m.lo, m.hi), seen[-1])), "the table of a watched node after an update", hook=w)
        ctx.state((c["a"], c["b"], idt, odt, depth)); ctx.trace()


def snap_cases(tier):
    return [{"idt": i, "odt": o} for i, o in DT]


def snapshots(c, ctx):
    """Tables handed out are snapshots: later operations do not change them, and overwriting them changes nothing."""
    cc = {"kind": "activation", "fn": "tanh", "idt": c["idt"], "odt": c["odt"], "i": INS[0], "o": OUTS[0]}
    A = alphabet(cc)
    for seq in itertools.product(A, repeat=2):
        sysm, m = build(cc)
        given = []
        for op in seq:
            j = sysm[0].as_json()
            given.append((j, copy.deepcopy(j)))
            drive(sysm, op, m); step(m, op)
            if m.base_equals():
                break
            for a, b in given:
                ctx.check(a == b, "an earlier JSON of the node changed", seq=seq)
            j = sysm[0].as_json()
            keep = copy.deepcopy(j)
            L = sysm[2]()
            now = entries(L, m.lo, m.hi)
            ctx.check(sysm[0].as_json() == keep, "serializing twice gives different JSON", seq=seq)
            ctx.equal(entries(L, m.lo, m.hi), now, "serializing changed the table")
            observe(ctx, sysm, m, seq)
        ctx.trace(); ctx.state(seq)


def sizes_cases(tier):
    return [{"fn": f, "odt": o} for f in ("tanh", "sigmoid", "relu", "elu") for o in ("int8", "uint8", "int16")]


def sizes(c, ctx):
    """Calibration sets of every size, the extreme element in every region: the output node covers it."""
    fn = stubs.ACT[c["fn"]]
    oq = Quantization(c["odt"])
    lo, hi = ref.drange(c["odt"])
    for n in robust.sizes(ctx.tier, 40):
        for where in (0, n // 3, n - 1):
            x = np.sin(np.arange(n) * 1.3).reshape(-1, 1) * 0.3
            x[where] = 1.9
            x[n - 1 - where] = -1.7 if n > 1 and n - 1 - where != where else x[n - 1 - where]
            node = NodeTensorBase(0.1, 0, "in", Quantization("int8")).with_tensor(x)
            op, data = quantize_activation_node(fn, c["fn"], x, oq, node)
            want = fn(x); ctx.op()
            ctx.close(data, want, 1e-12, f"activated data of {n} samples")
            if op is None:
                continue
            out = op.outputs[0]
            a, b = min(want.min(), 0.0), max(want.max(), 0.0)
            if want.max() > want.min():
                ctx.check(abs(out.scale - (b - a) / (hi - lo)) <= 1e-6 * out.scale, f"scale of the output node calibrated with {n} samples, extreme at {where}", got=out.scale, want=(b - a) / (hi - lo))
            ctx.check(lo <= out.zero_point <= hi and abs(a / out.scale + out.zero_point - lo) <= 0.51 if want.max() > want.min() else True, "zero point", got=out.zero_point)
            ctx.state((n, where))
    ctx.trace()


PROP = Property("T02", [
    Scenario("sequences", seq_cases, sequences, "all update/policy sequences of the nodes around a table"),
    Scenario("activation", act_cases, activation, "activation operators of every name, dtype pair and data range"),
    Scenario("fine", fine_cases, fine, "updates of either node by all magnitudes down to 1e-7"),
    Scenario("anew", anew_cases, anew, "tables replaced on a live node; one array reused for all policies"),
    Scenario("snapshots", snap_cases, snapshots, "tables handed out before and after all pairs of operations"),
    Scenario("sizes", sizes_cases, sizes, "calibration set sizes x position of the extremes"),
    Scenario("two", two_cases, two, "interleavings of updates over two live activations"),
], "model_checking", "state: (input parameters, output parameters, policy) of a table; transition: one table entry compared after an operation; trace: one operation sequence in lockstep with the reference table")
