import importlib.util, itertools, json, os, re, shutil
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario, REPO
import ref, onnxpb, stored
from onnxpb import blank, encode, load, node, tensor, value, GRAPH, MODEL
from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_quantization.quantization.lut import ReducedLUT

HOME = os.path.join(REPO, "model_converters/onnx2json")
shutil.copy(os.path.join(HOME, "settings.yaml"), "settings.yaml")
_spec = importlib.util.spec_from_file_location("onnx_2json", os.path.join(HOME, "2json.py"))
conv = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(conv)

f32 = lambda v: float(np.float32(v))
SIG = lambda v: np.where(v >= 0, 1 / (1 + np.exp(-np.abs(v))), np.exp(-np.abs(v)) / (1 + np.exp(-np.abs(v))))
# (scale, zero point) of activations, weights, biases
QI = [(f32(0.05), 128), (f32(0.02), 0), (f32(0.31), 255), (f32(0.5), 3), (f32(1 / 256), 0)]
QW = [(f32(0.01), 130), (f32(0.07), 0), (f32(1.0), 255), (f32(0.003), 1)]


class Build:
    """an ONNX model of a quantized network, with a list of what its operators mean"""

    def __init__(self, n_in, naming=None, ends=("input", "output"), share=None):
        self.share, self.known = share, {}
        self.nodes, self.init, self.info, self.ops, self.k = [], [], [], [], 0
        self.n_in = self.n = n_in
        self.naming = naming
        self.cur, self.ends = ends[0], ends

    def name(self, what):
        self.k += 1
        return self.naming(what, self.k) if self.naming else f"{what}_{self.k}"

    def q(self, s, z):
        """initializers of a scale and a zero point; with sharing, equal ones are stored once"""
        out = []
        for what, v in (("scale", s), ("zero", z)):
            shared = self.share in (what, "both")
            if not shared or (what, v) not in self.known:
                a = self.name(what)
                self.init.append(tensor(a, data_type=1, float_data=[v]) if what == "scale" else tensor(a, data_type=2, int32_data=[v]))
                self.known[what, v] = a
                out.append(a)
            else:
                out.append(self.known[what, v])
        return out

    def data(self, arr):
        a = self.name("data")
        arr = np.asarray(arr, dtype=np.uint8)
        self.init.append(tensor(a, arr.shape, 2, raw_data=arr.tobytes()))
        return a

    def out(self, op, ins, n=None, **sem):
        o = self.name(op + ":out")
        self.nodes.append(node(op, ins, [o]))
        self.n = n or self.n
        self.info.append(value(o, [0, self.n]))
        self.cur = o
        if sem:
            self.ops.append(dict(sem, kind=op))

    def quantize(self, q):
        self.out("QuantizeLinear", [self.cur] + self.q(*q), q=q)

    def dequantize(self, q):
        self.out("DequantizeLinear", [self.cur] + self.q(*q), q=q)

    def matmul(self, qi, w, qw, qo):
        self.out("QLinearMatMul", [self.cur] + self.q(*qi) + [self.data(w)] + self.q(*qw) + self.q(*qo), np.shape(w)[1], qi=qi, w=np.asarray(w, dtype=np.uint8), qw=qw, qo=qo)

    def add(self, qi, b, qb, qo):
        self.out("QLinearAdd", [self.cur] + self.q(*qi) + [self.data(b)] + self.q(*qb) + self.q(*qo), qi=qi, b=np.asarray(b, dtype=np.uint8), qb=qb, qo=qo)

    def sigmoid(self, qi, qo):
        self.out("QLinearSigmoid", [self.cur] + self.q(*qi) + self.q(*qo), qi=qi, qo=qo)

    def tanh_lut(self, qi, qo):
        self.out("DequantizeLinear", [self.cur] + self.q(*qi))
        self.out("Tanh", [self.cur])
        self.out("QuantizeLinear", [self.cur] + self.q(*qo))
        self.ops.append({"kind": "TanhLUT", "qi": qi, "qo": qo})

    def tanh(self):
        i = self.cur
        self.out("Tanh", [i], names=None)
        self.ops[-1]["names"] = (i, self.cur)

    def softmax(self):
        i = self.cur
        self.out("Softmax", [i], names=None)
        self.ops[-1]["names"] = (i, self.cur)

    def model(self, order=0, info_order=0):
        """order / info_order: how the file lists initializers and value infos (0 as built, 1 reversed, 2 rotated)"""
        # the last tensor is the graph's output, not a value info
        self.info.pop()
        g = self.nodes[-1]
        old, g.output[0] = g.output[0], self.ends[1]
        for o in self.ops:
            if o.get("names"):
                o["names"] = tuple(self.ends[1] if n == old else n for n in o["names"])
        m = blank(MODEL)
        m.ir_version = 4
        turn = lambda l, k: l[::-1] if k == 1 else l[1:] + l[:1] if k == 2 else l
        m.graph.node, m.graph.initializer, m.graph.value_info = self.nodes, turn(self.init, order), turn(self.info, info_order)
        m.graph.input, m.graph.output = [value(self.ends[0], [0, self.n_in])], [value(self.ends[1], [0, self.n])]
        self.sizes = {self.ends[0]: self.n_in, self.ends[1]: self.n, **{v.name: v.type.tensor_type.shape.dim[1].dim_value for v in self.info}}
        return m


def converted(m):
    """through the file format, as the command does"""
    p = f"m{os.getpid()}.onnx"
    with open(p, "wb") as f:
        f.write(encode(m))
    m2 = load(p)
    js = conv.model2json(m2)
    return json.loads(json.dumps(js))


def qnode(ctx, n, q, msg):
    ctx.check(n["scale"] == q[0] and n["zero_point"] == q[1], msg + ": parameters", got=(n["scale"], n["zero_point"]), want=q)


def tnode(ctx, n, arr, msg):
    t = n["tensor"]
    got = np.array(t["tensor"])
    ctx.check(t["shape"] == list(arr.shape) and t["dtype"] == "uint8" and got.shape == arr.shape and (got == arr).all(), msg + ": tensor", got=t, want=arr.tolist())


SETTINGS = tuple(int(re.search(rf"^\s*{k}:\s*(-?\d+)", open("settings.yaml").read(), re.M).group(1)) for k in ("lut_depth", "min_removal"))


def lut_check(ctx, L, fn, qi, qo, msg, layouts=(SETTINGS,)):
    (si, zi), (so, zo) = qi, qo
    ctx.check(len(L["LUT"]) == 256 and not L["offset"], msg + ": table layout", n=len(L["LUT"]), offset=L["offset"])
    x = (np.arange(256, dtype=np.float64) - zi) * si
    a, b = ref.quantize_bounds(fn(x), zo, so, 0, 255)
    # the activation itself is only known to a few units in the last place
    t = fn(x) / so
    slack = np.abs(t) * 1e-13 + 1e-13
    a = np.clip(np.ceil(t - slack - 0.5) + zo, 0, 255)
    b = np.clip(np.floor(t + slack + 0.5) + zo, 0, 255)
    g = np.asarray(L["LUT"], dtype=np.float64)
    bad = np.flatnonzero(~((g >= a) & (g <= b)))
    if len(bad):
        i = int(bad[0])
        ctx.check(False, f"{msg}: code {i} maps to {g[i]}, expected {a[i]}..{b[i]} ({len(bad)} entries)")
    if L.get("reduced_LUT") is not None:
        r = ReducedLUT.deserialize(L["reduced_LUT"])
        ctx.check([int(r[i]) for i in range(256)] == [int(v) for v in L["LUT"]], msg + ": reduced table differs from the table")
        forms = [json.loads(json.dumps(ReducedLUT(L["LUT"], d, k).serialize())) for d, k in layouts]
        ctx.check(L["reduced_LUT"] in forms, msg + ": the reduced table has another depth or minimum run than configured", layouts=layouts)
    ctx.op(256)


NAMES = {"QLinearSigmoid": "SigmoidLUT"}


def check_json(ctx, js, bld, m):
    ctx.check(js["engine"] == "ONNX" and js["ir_version"] == m.ir_version, "header", got=(js["engine"], js["ir_version"]))
    for side in ("input", "output"):
        want = [{"name": v.name, "shape": v.type.tensor_type.shape.dim[1].dim_value} for v in getattr(m.graph, side)]
        got = [{"name": n["tensor"]["name"], "shape": n["tensor"]["shape"]} for n in js[side]]
        ctx.check(got == want, f"network {side}", got=got, want=want)
    g = js["graph"]
    want = [NAMES.get(o["kind"], o["kind"]) for o in bld.ops]
    ctx.check([o["op_type"] for o in g] == want, "operators", got=[o["op_type"] for o in g], want=want)
    for i, (o, w) in enumerate(zip(g, bld.ops)):
        k, where, n = w["kind"], f"operator {i} {w['kind']}", o["inputs"]
        if k in ("QuantizeLinear", "DequantizeLinear"):
            qnode(ctx, n[0], w["q"], where)
        elif k == "QLinearMatMul":
            for j, q in enumerate(("qi", "qw", "qo")):
                qnode(ctx, n[j], w[q], f"{where} {q}")
            tnode(ctx, n[1], w["w"].T, where)
        elif k == "QLinearAdd":
            for j, q in enumerate(("qi", "qb", "qo")):
                qnode(ctx, n[j], w[q], f"{where} {q}")
            tnode(ctx, n[1], w["b"], where)
        elif k == "QLinearSigmoid":
            lut_check(ctx, n[0]["LUT"], SIG, w["qi"], w["qo"], where)
        elif k == "TanhLUT":
            lut_check(ctx, n[0]["LUT"], np.tanh, w["qi"], w["qo"], where, (SETTINGS, (3, 10)))
        else:
            got = [(t["tensor"]["name"], t["tensor"]["shape"]) for t in (o["inputs"] + o["outputs"])]
            ctx.check(got == [(x, bld.sizes[x]) for x in w["names"]], where + " tensors", got=got)
        ctx.op()


def rounded(t, zo):
    tol = np.abs(t) * ref.LD(2.0) ** -29 + ref.LD(2.0) ** -40
    return (np.clip(np.ceil(t - tol - ref.LD(0.5)) + zo, 0, 255).astype(np.float64), np.clip(np.floor(t + tol + ref.LD(0.5)) + zo, 0, 255).astype(np.float64))


def check_run(ctx, js, ops, x):
    """each operator of the engine against the source model, on the codes the engine feeds into it"""
    prev, outs = np.asarray(x, dtype=np.float64), []
    for i, w in enumerate(ops):
        got = np.asarray(SequentialNetwork({**js, "graph": js["graph"][:i + 1]}).infer(x))
        ctx.op()
        k, where = w["kind"], f"inference operator {i} {w['kind']}"
        codes = lambda q: prev.astype(np.int64) - q[1]
        lo = hi = None
        if k == "QuantizeLinear":
            lo, hi = ref.quantize_bounds(prev, w["q"][1], w["q"][0], 0, 255)
        elif k == "DequantizeLinear":
            r = codes(w["q"]) * w["q"][0]
            ctx.close(got, r, np.abs(r) * 1e-6 + 1e-12, where)
        elif k == "QLinearMatMul":
            acc = codes(w["qi"]) @ (w["w"].astype(np.int64) - w["qw"][1])
            lo, hi = rounded(acc.astype(ref.LD) * (ref.LD(w["qi"][0]) * ref.LD(w["qw"][0]) / ref.LD(w["qo"][0])), w["qo"][1])
        elif k == "QLinearAdd":
            t = codes(w["qi"]).astype(ref.LD) * ref.LD(w["qi"][0])
            u = (w["b"].astype(np.int64) - w["qb"][1]).astype(ref.LD) * ref.LD(w["qb"][0])
            # cancellation: the error is relative to the operands
            tol = (np.abs(t) + np.abs(u)) / ref.LD(w["qo"][0]) * ref.LD(2.0) ** -50 + ref.LD(2.0) ** -40
            v = (t + u) / ref.LD(w["qo"][0])
            lo = np.clip(np.ceil(v - tol - ref.LD(0.5)) + w["qo"][1], 0, 255).astype(np.float64)
            hi = np.clip(np.floor(v + tol + ref.LD(0.5)) + w["qo"][1], 0, 255).astype(np.float64)
        elif k in ("QLinearSigmoid", "TanhLUT"):
            tab = np.asarray(js["graph"][i]["inputs"][0]["LUT"]["LUT"], dtype=np.float64)
            lo = hi = tab[prev.astype(np.int64)]
        elif k == "Tanh":
            ctx.close(got, np.tanh(prev), 1e-6, where)
        elif k == "Softmax":
            e = np.exp(prev - prev.max(axis=-1, keepdims=True))
            ctx.close(got, e / e.sum(axis=-1, keepdims=True), 1e-6, where)
        if lo is not None:
            g = got.astype(np.float64)
            ctx.check(g.shape == np.shape(lo), where + " shape", got=g.shape, want=np.shape(lo))
            bad = ~((g >= lo) & (g <= hi))
            if bad.any():
                j = tuple(int(v) for v in np.argwhere(bad)[0])
                ctx.check(False, f"{where}: at {j} got {g[j]}, expected {lo[j]}..{hi[j]} ({int(bad.sum())} of {g.size})")
        prev = got
        outs.append(got.tolist())
    return outs


# ---- chains
def extend(b, kind, i):
    n = b.n
    qi, qo, qw = QI[i % len(QI)], QI[(i + 1) % len(QI)], QW[i % len(QW)]
    rng = lambda shape: ((np.arange(int(np.prod(shape))) * 97 + 31 * i + 13) % 256).reshape(shape)
    if kind == "M":
        b.matmul(qi, rng((n, 1 + (n + i) % 3)), qw, qo)
    elif kind == "A":
        b.add(qi, rng((n,)), qw, qo)
    elif kind == "S":
        b.sigmoid(qi, (f32(1 / 255), 0))
    elif kind == "T":
        b.tanh_lut(qi, (f32(1 / 127), 128))
    elif kind == "R":
        b.dequantize(qi); b.quantize(qo)


TAILS = {"": lambda b, q: None, "D": lambda b, q: b.dequantize(q), "DX": lambda b, q: (b.dequantize(q), b.softmax()),
         "DT": lambda b, q: (b.dequantize(q), b.tanh()), "DTX": lambda b, q: (b.dequantize(q), b.tanh(), b.softmax())}
DATA = np.array([[0.1, -0.2, 3.0], [1.0, 2.0, -7.5], [-3.0, 0.5, 0.0], [0.0, 0.0, 0.0], [250.0, -250.0, 0.02]])


def chain_cases(tier):
    d = 3 if tier == "quick" else 5
    return [{"chain": "".join(c), "tail": t} for k in range(d + 1) for c in itertools.product("MASTR", repeat=k) for t in TAILS]


def chain(c, ctx):
    for n_in in (1, 2, 3):
        order = (n_in + len(c["chain"])) % 3
        b = Build(n_in)
        b.quantize(QI[0])
        for i, k in enumerate(c["chain"]):
            extend(b, k, i)
        TAILS[c["tail"]](b, QI[len(c["chain"]) % len(QI)])
        m = b.model(order, (order + len(c["tail"])) % 3)
        js = converted(m)
        check_json(ctx, js, b, m)
        outs = check_run(ctx, js, b.ops, DATA[:, :n_in])
        ctx.state([c, n_in, outs]); ctx.trace()


# ---- listing orders: every permutation of initializers and value infos of a small model
def order_cases(tier):
    return [{"first": i} for i in range(8)]


def orders(c, ctx):
    def mk():
        b = Build(2)
        b.quantize(QI[0]); b.matmul(QI[0], [[1, 2, 3], [4, 5, 6]], QW[0], QI[1]); b.dequantize(QI[1]); b.softmax()
        return b
    base = mk().model()
    ctx.check(len(base.graph.initializer) == 11, "model")
    # rotations and transpositions of the initializers, with all permutations of the value infos
    n = 11
    perms = {tuple(range(n)), tuple(range(n))[::-1]}
    perms |= {tuple(range(k, n)) + tuple(range(k)) for k in range(n)}
    for i in range(n):
        for j in range(i):
            p = list(range(n)); p[i], p[j] = p[j], p[i]
            perms.add(tuple(p))
    for p in sorted(perms)[c["first"]::8]:
        for v in itertools.permutations(range(3)):
            b = mk()
            m = b.model()
            m.graph.initializer = [m.graph.initializer[k] for k in p]
            m.graph.value_info = [m.graph.value_info[k] for k in v]
            js = converted(m)
            check_json(ctx, js, b, m)
            ctx.state([p, v]); ctx.trace()


# ---- fields: parameters and tensors of every operator
def field_cases(tier):
    return [{"op": o, "zp": z} for o in ("M", "A", "S", "T", "Q", "D") for z in (0, 1, 127, 128, 254, 255)]


SCALES = [f32(v) for v in (1e-9, 0.001, 0.02, 1 / 3, 1.0, 6.5, 40.0, 1e4)]


def fields(c, ctx):
    z = c["zp"]
    for si, so in itertools.product(SCALES, SCALES):
        for z2 in (0, 128, 255):
            b = Build(2)
            qi, qo = (si, z), (so, z2)
            if c["op"] == "Q":
                b.quantize(qi); b.dequantize(qo)
            else:
                b.quantize(qi)
                if c["op"] == "M":
                    b.matmul(qi, [[0, 255, z], [128, 1, z2]], (so, z2), (si, z2))
                elif c["op"] == "A":
                    b.add(qi, [z, z2], (so, z2), (so, z))
                elif c["op"] == "S":
                    b.sigmoid(qi, qo)
                elif c["op"] == "T":
                    b.tanh_lut(qi, qo)
                else:
                    b.dequantize(qo)
            m = b.model()
            js = converted(m)
            check_json(ctx, js, b, m)
            ctx.state([c, si, so, z2]); ctx.trace()


# ---- names a model may give to its tensors
NAMING = {"case": lambda w, k: "".join(ch.upper() if (k >> i) & 1 else ch.lower() for i, ch in enumerate("tensorab")),
          "digits": lambda w, k: str(k), "input's": lambda w, k: f"input_{k}", "inputs": lambda w, k: f"input{k}", "output's": lambda w, k: f"output_{k}", "paths": lambda w, k: f"a/b:{k}/c:0",
          "padded": lambda w, k: "w" * k, "suffix": lambda w, k: f"{k}" + "_quantized" * (k % 3), "spaces": lambda w, k: " " * (k % 4) + f"t{k // 4}" + " " * (k % 3 if k % 4 else 0),
          "unicode": lambda w, k: "\u00e9" * (k % 5) + f"\u5c42{k // 5}", "long": lambda w, k: "sequential/dense/MatMul/ReadVariableOp" * 3 + f"__{k}", "zero": lambda w, k: f"{k:08d}", "same last part": lambda w, k: f"layer{k}/{w}", "same first part": lambda w, k: f"{w}/{k}"}


ENDS = [("input", "output"), ("input", "input_out"), ("x", "xx"), ("output", "out"), ("out", "output"), ("x", "X"), ("y:0", "y:1"), ("serving_default_input:0", "PartitionedCall:0")]


def name_cases(tier):
    return [{"naming": n, "chain": "".join(ch), "order": o, "ends": list(e)} for n in NAMING for ch in itertools.product("MASTR", repeat=2) for o in range(3) for e in ENDS[:2]] + \
        [{"naming": None, "chain": ch, "order": 0, "ends": list(e), "tail": t} for ch in ("", "M", "ST") for e in ENDS for t in TAILS]


def names(c, ctx):
    """initializers and tensors whose names are easily confused, also with the network's input and output"""
    b = Build(2, c["naming"] and NAMING[c["naming"]], c["ends"])
    b.quantize(QI[0])
    for i, k in enumerate(c["chain"]):
        extend(b, k, i)
    TAILS[c.get("tail", "DTX")](b, QI[2])
    seen = [t.name for t in b.init] + [v.name for v in b.info[:-1]] + list(c["ends"])
    assert len(set(seen)) == len(seen), c
    m = b.model(c["order"], c["order"])
    js = converted(m)
    check_json(ctx, js, b, m)
    check_run(ctx, js, b.ops, DATA[:, :2])
    ctx.state(c); ctx.trace()


# ---- initializers that several operators share
def share_cases(tier):
    return [{"share": s, "za": za, "op": o} for s in ("scale", "zero", "both") for za in (0, 3, 128, 255) for o in "MASTQ"]


def shares(c, ctx):
    """equal scales or zero points stored once: every way in which the operands of an operator, and of the one before, can share them"""
    S = [f32(0.05), f32(0.02), f32(0.5)]
    Z = [c["za"], 7, 200]
    for s2, s3, z2, z3, sp, zp in itertools.product(S[:2], S, Z[:2], Z, S[:2], Z[:2]):
        b = Build(2, None, share=c["share"])
        qp, q1, q2, q3 = (sp, zp), (S[0], Z[0]), (s2, z2), (s3, z3)
        b.quantize(qp)
        if c["op"] == "M":
            b.matmul(q1, [[0, 255, 9], [128, 1, 77]], q2, q3)
        elif c["op"] == "A":
            b.add(q1, [9, 250], q2, q3)
        elif c["op"] == "S":
            b.sigmoid(q1, q2); b.sigmoid(q2, q3)
        elif c["op"] == "T":
            b.tanh_lut(q1, q2); b.tanh_lut(q2, q3)
        else:
            b.dequantize(q1); b.quantize(q2)
        b.dequantize(q3)
        m = b.model(int(c["za"] % 3))
        js = converted(m)
        check_json(ctx, js, b, m)
        ctx.state([c, s2, s3, z2, z3, sp, zp])
    check_run(ctx, js, b.ops, DATA[:, :2])
    ctx.trace()


# ---- sizes: wide layers, long networks, several network inputs and outputs
def size_cases(tier):
    out = [{"matmul": s} for s in ([1, 1], [1, 300], [300, 1], [64, 64], [65, 63], [63, 66], [128, 32], [70, 300], [784, 10], [10, 784], [257, 256])]
    out += [{"ops": n, "kinds": k} for n in (15, 16, 31, 32, 47, 48, 49, 63, 64, 65, 130 if tier == "quick" else 600) for k in ("A", "T", "S", "MAT")]
    out += [{"ins": i, "outs": o} for i in (1, 2, 3) for o in (1, 2, 3)]
    return out


def sizes(c, ctx):
    """weights of any size, networks of any length, every network input and output in the order of the file"""
    b = Build(c["matmul"][0] if "matmul" in c else 2, (lambda w, k: f"block{k // 5}/{w}{k % 5}") if c.get("kinds") == "MAT" else None)
    b.quantize(QI[0])
    if "matmul" in c:
        k, n = c["matmul"]
        b.matmul(QI[0], ((np.arange(k * n) * 89 + np.arange(k * n) // 7) % 256).reshape(k, n), QW[0], (f32(40.0), 100))
        b.add((f32(40.0), 100), (np.arange(n) * 3) % 256, QW[1], QI[3])
        b.dequantize(QI[3])
    elif "ops" in c:
        i = 0
        while len(b.ops) < c["ops"]:
            k = c["kinds"][i % len(c["kinds"])]
            extend(b, k, i)
            i += 1
        b.dequantize(QI[2])
    else:
        b.add(QI[0], [1, 2], QW[0], QI[1]); b.dequantize(QI[1])
    m = b.model()
    if "ins" in c:
        for k in range(1, c["ins"]):
            m.graph.input.append(value(f"unused{9 - k}", [0, k]))
        for k in range(1, c["outs"]):
            m.graph.output.append(value(b.nodes[2 - k].output[0], [0, 2]))
    js = converted(m)
    check_json(ctx, js, b, m)
    if "ops" not in c or c["ops"] < 40:
        x = np.stack([np.linspace(-3, 3, b.n_in), np.arange(b.n_in) % 5 - 2.0])
        check_run(ctx, js, b.ops, x)
    ctx.state(c); ctx.trace()


# ---- several conversions in one process
HIST = [("S", (f32(0.02), 128), (f32(1 / 255), 0)), ("S", (f32(0.0200004), 128), (f32(1 / 255), 0)), ("S", (f32(0.02), 128), (f32(1 / 255 + 4e-7), 0)), ("S", (f32(0.02), 127), (f32(1 / 255), 0)), ("S", (f32(0.02), 128), (f32(1 / 255), 3)),
        ("S", (f32(2e-6), 5), (f32(1 / 255), 0)), ("S", (f32(4e-6), 5), (f32(1 / 255), 0)), ("S", (f32(0.3), 100), (f32(3e-6), 0)), ("S", (f32(0.3), 100), (f32(1e-6), 0)),
        ("T", (f32(0.02), 128), (f32(1 / 127), 128)), ("T", (f32(0.0200004), 128), (f32(1 / 127), 128)), ("T", (f32(2e-6), 5), (f32(1e-6), 9)), ("T", (f32(4e-6), 5), (f32(1e-6), 9)), ("T", (f32(0.02), 128), (f32(1 / 127), 100))]


def history_cases(tier):
    return [{"seq": list(s)} for s in itertools.product(range(len(HIST)), repeat=2 if tier == "quick" else 3)]


def histories(c, ctx):
    """an activation's table does not depend on what was converted before, in the same file or another one"""
    one = Build(2)
    one.quantize(QI[0])
    for h in c["seq"]:
        k, qi, qo = HIST[h]
        b = Build(2)
        b.quantize(qi)
        for x in (b, one):
            (x.sigmoid if k == "S" else x.tanh_lut)(qi, qo)
        b.dequantize(qo)
        m = b.model()
        js = converted(m)
        check_json(ctx, js, b, m)
        ctx.state(js["graph"][1]["inputs"][0]["LUT"]["LUT"])
    one.dequantize(QI[0])
    m = one.model()
    check_json(ctx, converted(m), one, m)
    ctx.trace()


# ---- the models of the repository
def real_cases(tier):
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith("."))
        for f in sorted(files):
            if f.endswith(".onnx"):
                p = os.path.relpath(os.path.join(base, f), REPO)
                if {n.op_type for n in load(os.path.join(REPO, p)).graph.node} <= {"QuantizeLinear", "DequantizeLinear", "QLinearMatMul", "QLinearAdd", "QLinearSigmoid", "Tanh", "Softmax"}:
                    out.append({"model": p})
    return out


class Parsed:
    def __init__(self, m):
        init = {t.name: t for t in m.graph.initializer}
        q = lambda a, b: (float(init[a].float_data[0]), int(init[b].int32_data[0]))
        arr = lambda a: np.frombuffer(init[a].raw_data, dtype=np.uint8).reshape(init[a].dims)
        self.ops, nodes, i = [], list(m.graph.node), 0
        while i < len(nodes):
            n, k = nodes[i], nodes[i].op_type
            if [x.op_type for x in nodes[i:i + 3]] == ["DequantizeLinear", "Tanh", "QuantizeLinear"]:
                self.ops.append({"kind": "TanhLUT", "qi": q(*n.input[1:3]), "qo": q(*nodes[i + 2].input[1:3])})
                i += 3
                continue
            w = {"kind": k}
            if k in ("QuantizeLinear", "DequantizeLinear"):
                w["q"] = q(*n.input[1:3])
            elif k in ("QLinearMatMul", "QLinearAdd"):
                w.update(qi=q(*n.input[1:3]), qo=q(*n.input[6:8]))
                w.update({"w" if k == "QLinearMatMul" else "b": arr(n.input[3]), "qw" if k == "QLinearMatMul" else "qb": q(*n.input[4:6])})
            elif k == "QLinearSigmoid":
                w.update(qi=q(*n.input[1:3]), qo=q(*n.input[3:5]))
            else:
                w["names"] = (n.input[0], n.output[0])
            self.ops.append(w)
            i += 1
        self.sizes = {v.name: v.type.tensor_type.shape.dim[1].dim_value for v in list(m.graph.value_info) + list(m.graph.input) + list(m.graph.output)}


def real(c, ctx):
    m = load(os.path.join(REPO, c["model"]))
    b = Parsed(m)
    js = json.loads(json.dumps(conv.model2json(m)))
    check_json(ctx, js, b, m)
    n = m.graph.input[0].type.tensor_type.shape.dim[1].dim_value
    (s, z) = b.ops[0]["q"]
    x = np.concatenate([(stored.codes(n, False, 0, 255) - z) * s, np.stack([np.zeros(n), np.ones(n), np.linspace(-1, 1, n), np.arange(n) % 7 / 7, (np.arange(n) % 28 > 13) * 1.0, -np.ones(n) * 300])])
    outs = check_run(ctx, js, b.ops, x)
    ctx.state(outs); ctx.trace()


# ---- the command: converts every onnx file of the folder, touches nothing else
def folder_cases(tier):
    return [{"files": list(f)} for k in (1, 2, 3) for f in itertools.permutations(["mnist_tanh_uint8.onnx", "mnist_tanh_uint8.json", "b.onnx", "c.txt", "D.ONNX", "e.onnx.bak"], k) if "mnist_tanh_uint8.onnx" in f]


def folder(c, ctx):
    base = os.path.join(os.getcwd(), f"d{os.getpid()}")
    here, real_listdir = os.getcwd(), os.listdir
    os.makedirs(base + "/models/mnist/uint8"); os.makedirs(base + "/model_converters/onnx2json")
    try:
        want, keep = {}, {}
        for k, f in enumerate(c["files"]):
            p = f"{base}/models/mnist/uint8/{f}"
            if f.endswith(".onnx"):
                b = Build(2)
                b.quantize(QI[k]); b.matmul(QI[k], [[1, 2], [3, 4 + k]], QW[k], QI[k + 1]); b.dequantize(QI[k + 1])
                m = b.model()
                want[f[:-5] + ".json"] = converted(m)
                with open(p, "wb") as fh:
                    fh.write(encode(m))
            else:
                keep[f] = f"previous {f}"
                with open(p, "w") as fh:
                    fh.write(keep[f])
        os.chdir(base + "/model_converters/onnx2json")
        os.listdir = lambda p=".": list(c["files"]) if str(p).rstrip("/").endswith("uint8") else real_listdir(p)
        try:
            conv.main()
        finally:
            os.listdir = real_listdir
        d = f"{base}/models/mnist/uint8"
        for f in os.listdir(d):
            if f in want:
                with open(f"{d}/{f}") as fh:
                    t = fh.read()
                ctx.check(t == json.dumps(want[f]) or (t[:1] == "{" and json.loads(t) == want[f]), f"{f} is not the conversion of its model", got=t[:200])
            elif f in keep:
                with open(f"{d}/{f}") as fh:
                    ctx.check(fh.read() == keep[f], f"{f} was changed")
            else:
                ctx.check(f.endswith(".onnx") and f in c["files"], f"unexpected file {f}")
        ctx.check(set(want) <= set(os.listdir(d)), "a model was not converted")
        ctx.op(len(c["files"])); ctx.state(c["files"]); ctx.trace()
    finally:
        os.chdir(here)
        shutil.rmtree(base)


PROP = Property("M03", [
    Scenario("chains", chain_cases, chain, "all operator chains up to length 3 (5) x tails x input sizes, through the inference engine"),
    Scenario("orders", order_cases, orders, "orders in which a file lists its initializers and value infos"),
    Scenario("fields", field_cases, fields, "parameters of every operator, every table entry"),
    Scenario("names", name_cases, names, "14 ways of naming tensors x chains of length 2 x listing orders, names of the network's ends"),
    Scenario("shares", share_cases, shares, "scales and zero points stored once: all equalities between the operands of neighbouring operators"),
    Scenario("sizes", size_cases, sizes, "weights up to 64 Ki elements, up to 130 (600) operators, several network inputs and outputs"),
    Scenario("histories", history_cases, histories, "all sequences of 2 (3) activations out of 14 near-equal ones"),
    Scenario("models", real_cases, real, "the quantized ONNX models of the repository, through the inference engine"),
    Scenario("folder", folder_cases, folder, "the folder command: all listing orders of up to 3 files"),
], "model_checking", "state: converted model with its inference results; transition: operator, table entry or file compared with the source model; trace: one model converted",
    ["the onnx library is played by a decoder of its file format with its attribute names"])
