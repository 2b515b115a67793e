import itertools, json, os, re, shutil
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
import netref, ref, stored, tflitefb
import itcl_tflite2json
from itcl_tflite2json import convert
from itcl_tflite2json.util.enum2str import dtype2str, layers2str
from itcl_quantization.quantization.lut import ReducedLUT
from itcl_inference_engine.network.sequential import SequentialNetwork
from stubs import TFL_OPS, TFL_DTYPES, TFL_NP
from kit import REPO

f32 = lambda v: float(np.float32(v))
SETTINGS = {k: int(re.search(rf"^\s*{k}:\s*(-?\d+)", open(os.path.join(os.path.dirname(itcl_tflite2json.__file__), "settings.yaml")).read(), re.M).group(1)) for k in ("lut_depth", "min_removal")}


class Builder:
    """a tflite file: tensors, buffers, operators"""

    def __init__(self):
        self.tensors, self.buffers, self.ops, self.codes = [], [None], [], []

    def tensor(self, name, dtype, shape, q=None, data=None):
        """q: None (no quantization object), "empty" (object without parameters), (scale, zero_point) or {"scale": [...], "zero_point": [...]}"""
        b = 0
        if data is not None:
            b = len(self.buffers)
            self.buffers.append({"dtype": dtype, "data": np.asarray(data).flatten().tolist()})
        quant = None if q is None else {} if q == "empty" else {"scale": [q[0]], "zero_point": [q[1]]} if isinstance(q, tuple) else q
        self.tensors.append({"name": name, "dtype": dtype, "shape": list(shape), "buffer": b, "quantization": quant})
        return len(self.tensors) - 1

    def op(self, kind, ins, outs):
        c = TFL_OPS[kind]
        if c not in self.codes:
            self.codes.append(c)
        self.ops.append({"opcode": self.codes.index(c), "inputs": ins, "outputs": outs})

    def file(self, ins, outs, order=None):
        return {"version": 3, "tensors": self.tensors, "buffers": self.buffers, "operators": self.ops, "opcodes": self.codes, "inputs": ins, "outputs": outs, "details": order}


def converted(desc):
    src, dst = f"m{os.getpid()}.tflite", f"m{os.getpid()}.json"
    with open(src, "w") as f:
        json.dump(desc, f)
    convert(src, dst)
    with open(dst) as f:
        return json.load(f), dst


# ---- fields of every tensor
SHAPES = [[1], [3], [1, 4], [2, 3], [2, 1, 3], []]
QS = [None, "empty", (0.5, 0), (f32(0.1), -7), (f32(1e-6), 127), (f32(3e5), -128), (1.0, 5)]


def field_cases(tier):
    return [{"dtype": d, "q": i, "data": b} for d in ("FLOAT32", "INT8", "UINT8", "INT32", "INT16", "INT64", "BOOL", "FLOAT16", "FLOAT64") for i in range(len(QS)) for b in (False, True)]


def want_node(t, buffers):
    q = t["quantization"]
    data = None
    if t["buffer"]:
        data = np.array(buffers[t["buffer"]]["data"], dtype=TFL_NP[t["dtype"]]).reshape(t["shape"])
    return {"scale": q["scale"][0] if q else None, "zero_point": q["zero_point"][0] if q else None, "shape": t["shape"], "dtype": t["dtype"], "name": t["name"],
            "tensor": None if data is None else data.tolist()}


def check_node(ctx, n, t, buffers, msg):
    if t is None:
        ctx.check(n["scale"] is None and n["zero_point"] is None and n["tensor"]["tensor"] is None, f"{msg}: an input that is not present has parameters or data", got=n)
        return
    w = want_node(t, buffers)
    for k in ("scale", "zero_point"):
        ctx.check(n[k] == w[k] and (n[k] is None) == (w[k] is None), f"{msg}: {k} of {t['name']}", got=n[k], want=w[k])
    for k in ("shape", "dtype", "name", "tensor"):
        ctx.check(n["tensor"][k] == w[k], f"{msg}: {k} of {t['name']}", got=n["tensor"][k], want=w[k])


def fields(c, ctx):
    """shape, dtype, name, parameters and data of every tensor, whatever their order in the interpreter"""
    q = QS[c["q"]]
    for shapes in itertools.product(SHAPES, repeat=2):
        b = Builder()
        ids = []
        for k, sh in enumerate(shapes):
            n = int(np.prod(sh))
            data = (np.arange(n) * 3 + k + (0.25 if "FLOAT" in c["dtype"] else 0)) % 100 if c["data"] else None
            if c["dtype"] == "BOOL" and data is not None:
                data = (data.astype(int) % 2).astype(bool)
            ids.append(b.tensor(f"dense/{k};t{k}", c["dtype"], sh, q, data))
        ids.append(b.tensor("plain", "FLOAT32", [1, 2]))
        ids.append(b.tensor("const", "INT8", [2, 2], (f32(0.3), 4), [[1, -2], [3, -128]]))
        b.op("ADD", ids[:2], [ids[2]])
        b.op("MUL", [ids[2], ids[3]], [ids[0]])
        b.op("FULLY_CONNECTED", [ids[3], ids[0], ids[1]], [ids[2], ids[1]])
        for order in ([0, 1, 2, 3], [3, 1, 0, 2], [2, 3, 1, 0]):
            d = b.file([ids[1], ids[2]], [ids[0]], order)
            js, _ = converted(d)
            ctx.check(js["engine"].upper() == "TFLITE" and js["ir_version"] == 3 and js["operators"] == 3 and len(js["graph"]) == 3, "header", got=[js["engine"], js["operators"]])
            for got, idx, what in ((js["input"], d["inputs"], "input"), (js["output"], d["outputs"], "output")):
                ctx.check(len(got) == len(idx), "number of " + what + "s")
                for n, i in zip(got, idx):
                    check_node(ctx, n, d["tensors"][i], d["buffers"], what)
            for o, s, kind in zip(js["graph"], d["operators"], ("ADD", "MUL", "FULLY_CONNECTED")):
                ctx.check(o["op_type"] == kind, "operator type", got=o["op_type"], want=kind)
                ctx.check(len(o["inputs"]) == len(s["inputs"]) and len(o["outputs"]) == len(s["outputs"]), "number of tensors of an operator")
                for n, i in zip(o["inputs"] + o["outputs"], s["inputs"] + s["outputs"]):
                    check_node(ctx, n, d["tensors"][i], d["buffers"], kind)
            ctx.op(3); ctx.state((shapes, c["q"], c["dtype"], c["data"])); ctx.trace()


# ---- activation tables
def lut_cases(tier):
    return [{"kind": k, "in_s": s} for k in ("TANH", "LOGISTIC") for s in (1e-4, 0.01, 1 / 128, 0.03, 0.1, 0.5, 1.0, 5.0, 6.5, 40.0)]


FN = {"TANH": np.tanh, "LOGISTIC": lambda v: np.where(v >= 0, 1 / (1 + np.exp(-np.abs(v))), np.exp(-np.abs(v)) / (1 + np.exp(-np.abs(v))))}


def check_lut(ctx, lut, kind, si, zi, so, zo, msg):
    codes = np.arange(-128, 128)
    real = FN[kind](((codes - zi) * np.longdouble(si)).astype(np.float64))
    t = np.asarray(real, dtype=ref.LD) / ref.LD(so) + zo
    tol = np.abs(t - zo) * 1e-12 + 1e-9
    a, b = np.clip(np.floor(t - tol + ref.LD(0.5)), -128, 127), np.clip(np.floor(t + tol + ref.LD(0.5)), -128, 127)
    tab = np.array(lut["LUT"])
    ctx.check(tab.shape == (256,) and lut["offset"] == 128, msg + ": size or offset of the table")
    netref.between(ctx, tab, a.astype(float), b.astype(float), msg + ": table", si=si, zi=zi, so=so, zo=zo)
    r = ReducedLUT.deserialize(lut["reduced_LUT"])
    ctx.equal(np.array([r[i] for i in range(256)]), tab, msg + ": reduced table")
    ctx.check(lut["reduced_LUT"] == json.loads(json.dumps(ReducedLUT(lut["LUT"], SETTINGS["lut_depth"], SETTINGS["min_removal"]).serialize())),
              msg + ": the reduced table is not the one of the configured depth and minimum run", settings=SETTINGS)


def luts(c, ctx):
    """every entry of the tables of converted activations"""
    si = f32(c["in_s"])
    for zi in (-128, -100, -1, 0, 7, 127):
        for so, zo in ((1 / 128, 0), (1 / 256, -128), (f32(0.01), 20), (f32(0.001), -5), (1.0, 3), (f32(1e-4), -128), (f32(1e-5), -120), (f32(1e-6), 3)):
            b = Builder()
            i = b.tensor("in", "INT8", [1, 3], (si, zi)); o = b.tensor("out", "INT8", [1, 3], (so, zo))
            b.op(c["kind"], [i], [o])
            js, dst = converted(b.file([i], [o]))
            op = js["graph"][0]
            ctx.check(op["op_type"].upper() == {"TANH": "TANHLUT", "LOGISTIC": "SIGMOIDLUT"}[c["kind"]], "operator type", got=op["op_type"])
            check_node(ctx, op["inputs"][0], b.tensors[0], b.buffers, "activation input")
            check_node(ctx, op["outputs"][0], b.tensors[1], b.buffers, "activation output")
            check_lut(ctx, op["inputs"][0]["LUT"], c["kind"], si, zi, so, zo, c["kind"])
            ctx.op(256); ctx.state(op["inputs"][0]["LUT"]["LUT"]); ctx.trace()


# ---- whole models through the inference engine
def graph_cases(tier):
    kinds = ("FULLY_CONNECTED", "TANH", "LOGISTIC")
    out = []
    for n in range(0, 4 if tier == "quick" else 8):
        for seq in itertools.product(kinds, repeat=n):
            for v in range(3):
                out.append({"seq": list(seq), "variant": v})
                if "FULLY_CONNECTED" in seq:
                    out.append({"seq": list(seq), "variant": v, "nobias": True})
    return out


def graph(c, ctx):
    """a converted network loaded by the inference engine computes the integer semantics of the tflite operators"""
    v = c["variant"]
    b = Builder()
    N = 2
    ctr = itertools.count()
    S = [(f32(0.02), 3), (f32(0.037), -11), (f32(0.008), 60)]
    src, exp = [], []
    x0 = b.tensor("serving_default_x:0", "FLOAT32", [1, N])
    cur_q = S[v]
    cur = b.tensor(f"quant{next(ctr)}", "INT8", [1, N], cur_q)
    b.op("QUANTIZE", [x0], [cur])
    node = lambda i: {"scale": (b.tensors[i]["quantization"] or {"scale": [None]})["scale"][0], "zero_point": (b.tensors[i]["quantization"] or {"zero_point": [None]})["zero_point"][0],
                      "LUT": None, "tensor": {"dtype": b.tensors[i]["dtype"], "tensor": None if not b.tensors[i]["buffer"] else np.array(b.buffers[b.tensors[i]["buffer"]]["data"]).reshape(b.tensors[i]["shape"]).tolist()}}
    exp.append({"op_type": "QUANTIZE", "inputs": [node(x0)], "outputs": [node(cur)]})
    for k in c["seq"]:
        i = next(ctr)
        if k == "FULLY_CONNECTED":
            m = (3, 2, 1, 2)[(i + v) % 4]
            W = (np.arange(m * N) * 37 + i * 11 + v * 5).reshape(m, N) % 255 - 127
            B = (np.arange(m) * 977 + i * 31) % 2001 - 1000
            ws = f32(0.01 + 0.002 * v)
            w = b.tensor(f"w{i}", "INT8", [m, N], (ws, 0), W)
            bb = b.tensor(f"b{i}", "INT32", [m], (f32(ws * cur_q[0]), 0), B)
            q = S[(v + i) % 3]
            o = b.tensor(f"fc{i}", "INT8", [1, m], q)
            if c.get("nobias") and (i + v) % 2:
                b.op(k, [cur, w, -1], [o])
                exp.append({"op_type": k, "inputs": [node(cur), node(w)], "outputs": [node(o)]})
            else:
                b.op(k, [cur, w, bb], [o])
                exp.append({"op_type": k, "inputs": [node(cur), node(w), node(bb)], "outputs": [node(o)]})
            N = m
        else:
            q = (1 / 128, 0) if k == "TANH" else (1 / 256, -128)
            o = b.tensor(f"act{i}", "INT8", [1, N], q)
            b.op(k, [cur], [o])
            e = node(cur)
            t = FN[k]((np.arange(-128, 128) - cur_q[1]) * cur_q[0]) / q[0] + q[1]
            e["LUT"] = {"LUT": np.clip(np.floor(t + 0.5), -128, 127).astype(int).tolist(), "offset": 128}
            exp.append({"op_type": {"TANH": "TANHLUT", "LOGISTIC": "SIGMOIDLUT"}[k], "inputs": [e], "outputs": [node(o)]})
        cur, cur_q = o, q
    y = b.tensor("out", "FLOAT32", [1, N])
    b.op("DEQUANTIZE", [cur], [y])
    exp.append({"op_type": "DEQUANTIZE", "inputs": [node(cur)], "outputs": [node(y)]})
    n = len(b.tensors)
    js, dst = converted(b.file([x0], [y], list(range(n))[::-1]))
    x = np.array([[0.1, -0.2], [1.0, 2.0], [-3.0, 0.5], [0.0, 0.0], [2.3, -2.1]])
    outs = netref.prefixes(ctx, js, x)
    netref.check_ops(ctx, {"graph": exp}, x, "converted network", outs)
    ctx.equal(SequentialNetwork.from_json_file(dst).infer(x), outs[-1], "network loaded from the file")
    ctx.state([np.asarray(o).tolist() for o in outs]); ctx.trace()


# ---- the models of the repository
def model_cases(tier):
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith("."))
        out += [{"model": os.path.relpath(os.path.join(base, f), REPO)} for f in sorted(files) if f.endswith(".tflite")]
    return [{**c, "deep": tier == "thorough"} for c in out]


def models(c, ctx):
    """the .tflite files of the repository: every tensor and table of the converted file, then every operator on the codes the engine feeds into it"""
    with open(os.path.join(REPO, c["model"]), "rb") as f:
        data = f.read()
    d = tflitefb.decode(data)
    src, dst = f"r{os.getpid()}.tflite", f"r{os.getpid()}.json"
    with open(src, "wb") as f:
        f.write(data)
    convert(src, dst)
    with open(dst) as f:
        js = json.load(f)
    inv = {v: k for k, v in TFL_OPS.items()}
    T = d["tensors"]
    ctx.check(js["engine"].upper() == "TFLITE" and js["ir_version"] == d["version"] and js["operators"] == len(js["graph"]) == len(d["operators"]), "header", got=[js["engine"], js["operators"], js["ir_version"]])
    for got, idx, what in ((js["input"], d["inputs"], "input"), (js["output"], d["outputs"], "output")):
        ctx.check(len(got) == len(idx), "number of network " + what + "s")
        for n, i in zip(got, idx):
            check_node(ctx, n, T[i], d["buffers"], "network " + what)
    for k, (o, s) in enumerate(zip(js["graph"], d["operators"])):
        kind = inv[d["opcodes"][s["opcode"]]]
        ctx.check(o["op_type"].upper() == {"TANH": "TANHLUT", "LOGISTIC": "SIGMOIDLUT"}.get(kind, kind), "operator type", at=k, got=o["op_type"], want=kind)
        ctx.check(len(o["inputs"]) == len(s["inputs"]) and len(o["outputs"]) == len(s["outputs"]), "number of tensors of an operator", at=k)
        for n, i in zip(o["inputs"] + o["outputs"], s["inputs"] + s["outputs"]):
            check_node(ctx, n, T[i] if i >= 0 else None, d["buffers"], f"operator {k} {kind}")
        if kind in FN:
            (si, zi), (so, zo) = [(T[t]["quantization"]["scale"][0], T[t]["quantization"]["zero_point"][0]) for t in (s["inputs"][0], s["outputs"][0])]
            check_lut(ctx, o["inputs"][0]["LUT"], kind, si, zi, so, zo, f"operator {k} {kind}")
        ctx.op()
    t = T[d["inputs"][0]]
    quantized = t["dtype"] != "FLOAT32"
    if not quantized:
        t = T[d["operators"][0]["outputs"][0]]
    s, z = t["quantization"]["scale"][0], t["quantization"]["zero_point"][0]
    codes = stored.codes(t["shape"][-1], c["deep"])
    x = (codes - z) * s
    if not quantized:
        x = np.concatenate([x, x + 0.31 * s, x * 3 - 100 * s])
    net = js if not quantized else {**js, "graph": js["graph"]}
    outs = netref.prefixes(ctx, net, x)
    netref.check_ops(ctx, js, x, c["model"], outs, codes if quantized else None)
    ctx.equal(SequentialNetwork.from_json_file(dst).infer(x), outs[-1], "network loaded from the file")
    for o in outs:
        ctx.state(np.asarray(o))
    ctx.trace()


# ---- names of codes, and the command that converts a folder
def enum_cases(tier):
    return [{}]


def enums(c, ctx):
    for k, v in TFL_DTYPES.items():
        ctx.check(dtype2str(v) == k, "dtype name", code=v, got=dtype2str(v))
    for k, v in TFL_OPS.items():
        ctx.check(layers2str(v) == k, "operator name", code=v, got=layers2str(v))
    for v in (-1, 1000, 77):
        ctx.check(dtype2str(v) == "?" and layers2str(v) == "?", "unknown code", code=v)
    ctx.op(len(TFL_DTYPES) + len(TFL_OPS)); ctx.state("enum")
    from itcl_tflite2json import _tflite2json
    base = os.path.join(os.getcwd(), f"d{os.getpid()}")
    os.makedirs(base + "/models"); os.makedirs(base + "/run")
    here = os.getcwd()
    try:
        want = {}
        for i in range(3):
            b = Builder()
            x = b.tensor("x", "INT8", [1, 2], (f32(0.1 * (i + 1)), i)); y = b.tensor("y", "INT8", [1, 2], (1 / 128, 0))
            b.op(("TANH", "LOGISTIC", "SOFTMAX")[i], [x], [y])
            d = b.file([x], [y])
            want[f"n{i}"], _ = converted(d)
            with open(f"{base}/models/n{i}.tflite", "w") as f:
                json.dump(d, f)
        os.chdir(base + "/run")
        _tflite2json.main()
        for k, w in want.items():
            with open(f"{base}/models/{k}.json") as f:
                ctx.check(json.load(f) == w, "a model of the folder is converted differently", model=k)
            ctx.op()
    finally:
        os.chdir(here)
        shutil.rmtree(base)
    ctx.trace()


# ---- names of tensors
NAMES = ["x", "X", " x", "x ", "x\n", "caf\u00e9", "\u5c42/0", "sequential/lstm/while/lstm_cell/MatMul", "sequential/lstm/while/lstm_cell/MatMul_1", "sequential/lstm/while/lstm_cell/MatMul;Add",
         "StatefulPartitionedCall:0", "StatefulPartitionedCall:10", "?", "a" * 300, "a" * 299 + "b", "%d{}", "0", "1", "tfl.pseudo_qconst", "tfl.pseudo_qconst1"] + ["a" * k for k in (1, 8, 12, 16, 20, 24, 31, 32, 48, 63, 64, 100, 127, 128, 255, 256, 299)]


def name_cases(tier):
    return [{"a": a} for a in range(len(NAMES))]


def names(c, ctx):
    """two constants whose names are easily confused keep their own data, under every order of the interpreter, also when it numbers tensors with gaps"""
    for k in range(len(NAMES)):
        if k == c["a"]:
            continue
        for order in ([0, 1, 2, 3], [1, 0, 3, 2], [3, 2, 1, 0], [None, 2, None, 0, 1, 3], [1, None, 3, None, None, 2, 0], [2, 3, None, 0, None, 1]):
            b = Builder()
            i = b.tensor("the input", "INT8", [1, 2], (f32(0.1), 1))
            w = b.tensor(NAMES[c["a"]], "INT8", [2, 2], (f32(0.2), 0), [1, 2, 3, 4])
            v = b.tensor(NAMES[k], "INT32", [2], (f32(0.02), 0), [70000, -5])
            o = b.tensor("the output", "INT8", [1, 2], (f32(0.3), -3))
            b.op("FULLY_CONNECTED", [i, w, v], [o])
            js, _ = converted(b.file([i], [o], order))
            op = js["graph"][0]
            ctx.check(len(op["inputs"]) == 3, "number of tensors")
            for n, t in zip(op["inputs"] + op["outputs"], (i, w, v, o)):
                check_node(ctx, n, b.tensors[t], b.buffers, "constants")
            ctx.op(); ctx.state((c["a"], k)); ctx.trace()


# ---- parameters of other types, sizes of data
def wide_cases(tier):
    return [{"dtype": d, "zp": z} for d, z in (("UINT8", 128), ("UINT8", 255), ("UINT8", 200), ("INT16", 32767), ("INT16", -32768), ("INT16", 300), ("INT32", 2 ** 31 - 1), ("INT32", -2 ** 31), ("INT32", 1000), ("INT8", -128))] + \
        [{"dtype": d, "shape": s} for d in ("INT8", "INT32", "FLOAT32") for s in ([1, 255], [256, 3], [4097], [300, 230], [1, 65536], [65537, 1], [2, 3, 4, 5], [1, 1, 1, 1, 7])]


def wide(c, ctx):
    """zero points over the whole range of their type, constants from one element to beyond 64 Ki"""
    for s in (f32(0.05), f32(1e-7), 1.0, f32(123.456)) if "zp" in c else (f32(0.05),):
        shape = c.get("shape", [2, 2])
        n = int(np.prod(shape))
        data = (np.arange(n) * 37 + np.arange(n) // 251) % 251 - 100
        if c["dtype"] == "UINT8":
            data = data + 100
        elif c["dtype"] == "FLOAT32":
            data = data * 0.1
        elif c["dtype"] == "INT32":
            data = data * 8000001
        b = Builder()
        i = b.tensor("in", c["dtype"], [1, 2], (s, c.get("zp", 0)))
        w = b.tensor("w", c["dtype"], shape, (s, c.get("zp", 0)), data)
        o = b.tensor("out", c["dtype"], [1, 2], (f32(0.3), c.get("zp", 3)))
        b.op("FULLY_CONNECTED", [i, w], [o])
        js, _ = converted(b.file([i], [o]))
        for nd, t in zip(js["input"] + js["graph"][0]["inputs"] + js["graph"][0]["outputs"] + js["output"], (i, i, w, o, o)):
            check_node(ctx, nd, b.tensors[t], b.buffers, "tensor")
        ctx.op(); ctx.state((c, s)); ctx.trace()


# ---- the structure of larger graphs
KINDS = ["FULLY_CONNECTED", "ADD", "MUL", "QUANTIZE", "DEQUANTIZE", "RESHAPE", "SOFTMAX", "CONV_2D", "MAX_POOL_2D", "AVERAGE_POOL_2D", "CONCATENATION", "PAD", "SUB", "RELU", "TANH", "LOGISTIC", "GELU", "CONV_3D", "RELU6", "WHILE"]


def structure_cases(tier):
    top = 70 if tier == "quick" else 300
    return [{"ops": n, "step": s} for n in (0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 49, top) for s in (1, 3, 7)] + [{"ends": list(p)} for k in range(1, 4 if tier == "quick" else 5) for p in itertools.permutations(range(4), k)]


def structure(c, ctx):
    """every operator in order, whatever their number and kinds; the inputs and outputs of a network and of an operator in the order of the file, repeated ones included"""
    b = Builder()
    if "ops" in c:
        kinds = KINDS
        t = [b.tensor(f"t{i}", "INT8", [1, 2], (f32(0.01 * (i % 5 + 1)), i % 7)) for i in range(c["ops"] + 1)]
        seq = [kinds[(i * c["step"]) % len(kinds)] for i in range(c["ops"])]
        for i, k in enumerate(seq):
            b.op(k, [t[i]], [t[i + 1]])
        ins, outs = [t[0]], [t[-1]]
    else:
        t = [b.tensor(f"t{i}", "INT8", [1, i + 1], (f32(0.01 * (i + 1)), i)) for i in range(4)]
        ins, outs, seq = c["ends"], c["ends"][::-1], []
        for p in ([0, 0], [1, 0], [2, 2, 1], [3, 1, 3, 0], [0], [2, 1, 0], [0, -1], [-1, 3], [1, -1, 2], [-1, -1, 0, -1]):
            for r in ([v for v in p if v >= 0][:1], [v for v in p[::-1] if v >= 0], c["ends"]):
                b.op("CONCATENATION", p, list(r)); seq.append("CONCATENATION")
    d = b.file(ins, outs)
    js, _ = converted(d)
    NAMED = {"TANH": "TANHLUT", "LOGISTIC": "SIGMOIDLUT"}
    ctx.check([o["op_type"].upper() for o in js["graph"]] == [NAMED.get(k, k) for k in seq], "operators", got=[o["op_type"] for o in js["graph"]][:20], n=len(js["graph"]))
    ctx.check(js["operators"] == len(seq), "number of operators", got=js["operators"])
    for o, s in zip(js["graph"], d["operators"]):
        for got, want in ((o["inputs"], s["inputs"]), (o["outputs"], s["outputs"])):
            ctx.check(len(got) == len(want), "number of tensors of an operator", got=len(got), want=want)
            for n, i in zip(got, want):
                check_node(ctx, n, b.tensors[i] if i >= 0 else None, b.buffers, "tensor of an operator")
    for got, want in ((js["input"], ins), (js["output"], outs)):
        ctx.check(len(got) == len(want), "number of network inputs or outputs", got=len(got), want=want)
        for n, i in zip(got, want):
            check_node(ctx, n, b.tensors[i], b.buffers, "network input or output")
    ctx.op(len(seq)); ctx.state(c); ctx.trace()


# ---- several conversions, and several activations in one model
HIST = [("TANH", f32(0.03), 0, 1 / 128, 0), ("TANH", f32(0.03), 0, 1 / 128, -5), ("TANH", f32(0.03), 4, 1 / 128, 0), ("TANH", f32(0.0300004), 0, 1 / 128, 0), ("TANH", f32(0.03), 0, f32(1 / 128 + 4e-7), 0),
        ("LOGISTIC", f32(0.03), 0, 1 / 256, -128), ("LOGISTIC", f32(0.03), 0, 1 / 256, -100), ("LOGISTIC", f32(2e-7), 0, f32(3e-7), -128), ("LOGISTIC", f32(4e-7), 0, f32(3e-7), -128),
        ("TANH", f32(2e-7), 5, f32(1e-7), 0), ("TANH", f32(4e-7), 5, f32(1e-7), 0), ("LOGISTIC", f32(0.03), 3, 1 / 256, -128)]


def history_cases(tier):
    d = 2 if tier == "quick" else 3
    return [{"seq": list(s)} for s in itertools.product(range(len(HIST)), repeat=d)]


def histories(c, ctx):
    """the tables of an activation do not depend on the activations converted before it, in the same file or another one"""
    one = Builder()
    cur = one.tensor("first", "INT8", [1, 3], (f32(0.5), 0))
    first = cur
    for n, h in enumerate(c["seq"]):
        k, si, zi, so, zo = HIST[h]
        b = Builder()
        i = b.tensor("in", "INT8", [1, 3], (si, zi)); o = b.tensor("out", "INT8", [1, 3], (so, zo))
        b.op(k, [i], [o])
        js, _ = converted(b.file([i], [o]))
        check_lut(ctx, js["graph"][0]["inputs"][0]["LUT"], k, si, zi, so, zo, f"conversion {n} {k}")
        i = one.tensor(f"in{n}", "INT8", [1, 3], (si, zi)); o = one.tensor(f"out{n}", "INT8", [1, 3], (so, zo))
        one.op(k, [i], [o])
        ctx.op(); ctx.state(js["graph"][0]["inputs"][0]["LUT"]["LUT"])
    js, _ = converted(one.file([first], [o]))
    for n, h in enumerate(c["seq"]):
        k, si, zi, so, zo = HIST[h]
        check_lut(ctx, js["graph"][n]["inputs"][0]["LUT"], k, si, zi, so, zo, f"activation {n} of a model, {k}")
    ctx.trace()


PROP = Property("M02", [
    Scenario("fields", field_cases, fields, "tensors: dtypes x quantization x data x shapes x interpreter orders"),
    Scenario("luts", lut_cases, luts, "activation tables: parameters, every entry"),
    Scenario("graphs", graph_cases, graph, "all operator chains up to length 3 (7) through the inference engine"),
    Scenario("names", name_cases, names, "pairs of easily confused tensor names x interpreter numberings, with gaps"),
    Scenario("wide", wide_cases, wide, "zero points over their types' ranges, constants up to beyond 64 Ki elements"),
    Scenario("structure", structure_cases, structure, "up to 70 (300) operators of 20 kinds; orders and repetitions of inputs and outputs"),
    Scenario("histories", history_cases, histories, "all sequences of 2 (3) activations out of 12 near-equal ones"),
    Scenario("models", model_cases, models, "the .tflite models of the repository: all tensors, all tables, all operators on enumerated input codes"),
    Scenario("enums", enum_cases, enums, "code names and the folder command"),
], "model_checking", "state: converted model; transition: tensor, table entry or operator compared with the source model; trace: one model converted",
    ["tflite files and the interpreter are played by an in-memory flatbuffers API with the real one's methods"])
