import copy, itertools
import numpy as np
import stubs; stubs.install()
import robust
from kit import Property, Scenario
import ref
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase

# Values whose nearest policy differs from every explicit policy below under every scale of the alphabet, with on-grid,
# half-way and saturating elements.
FP = {
    "mixed": [0.5, -0.3, 1.2, -1.2, 0.0, 2.5, -2.4, 1e4],
    "grid": [1.0, -1.0, 0.5, 1.1, -0.75, 3.0, -64.0, 0.26],
    "tiny": [-1e-17, 1e-17, -1e-9, 0.9999999999999999, -0.9999999999999999, 0.3, 0.7, -0.4],
}
FP["huge"] = [0.5e9, -0.3, 1.2e9, -1.2, 0.0, 0.25e9, 0.9e9, 1e4]       # codes beyond 2**31 of unsigned dtypes
SHAPES = {"vec": (8,), "mat": (2, 4), "cube": (2, 2, 2)}
SCALES = [0.5, 0.3, 1.0]
ZPS = [0, 3, -5]


def policies(shape):
    n = int(np.prod(shape))
    return {"floor": np.zeros(n, int).reshape(shape), "ceil": np.ones(n, int).reshape(shape),
            "alt": (np.arange(n) % 2).reshape(shape)}


class Model:
    """Reference semantics of a tensor node."""

    def __init__(self, fp, s, z, lo, hi):
        self.fp, self.lo, self.hi = np.asarray(fp, dtype=np.float64), lo, hi
        self.s = self.os = s
        self.z = self.oz = z
        self.pol = None
        self.requant()

    def requant(self):
        t = self.fp / self.s + self.z
        c = np.floor(t + 0.5) if self.pol is None else np.floor(t) + self.pol
        self.codes = np.clip(c, self.lo, self.hi).astype(np.int64)
        if self.pol is None:
            b = np.floor(t + 0.5) - np.floor(t)
            self.shown = b.astype(int)
        else:
            self.shown = self.pol

    def key(self):
        return (self.s, self.z, None if self.pol is None else self.pol.tobytes(), self.codes.tobytes(), self.shown.tobytes())


def apply(model, op, pols):
    kind = op[0]
    if kind == "update":
        _, s, z, rq = op
        model.s, model.z = s, z
        if rq:
            model.requant()
    elif kind == "policy":
        model.pol = pols[op[1]]
        model.requant()
    elif kind == "reset_rounding":
        model.pol = None
        model.requant()
    elif kind == "reset_scale":
        model.s = model.os
    elif kind == "reset_zp":
        model.z = model.oz
    return model


def do(node, op, pols, ctx):
    kind = op[0]
    if kind == "update":
        _, s, z, rq = op
        if rq is True:
            node.update_quant_parameters(s, z)
        else:
            node.update_quant_parameters(s, z, requantize=False)
    elif kind == "policy":
        node.rounding_policy = pols[op[1]].copy()
    elif kind == "bad_policy":
        # of another size, and of the same size: flat, transposed, with another axis
        sh = node.fp_tensor.shape
        n = int(np.prod(sh))
        for bad in {(n + 1,), (n,), sh[::-1], (1, *sh), (*sh, 1)} - {sh}:
            try:
                node.rounding_policy = np.zeros(bad, int)
            except ValueError:
                pass
            else:
                ctx.check(False, "a rounding policy of the wrong shape was accepted", shape=bad, want=sh)
    else:
        getattr(node, kind)()
    ctx.op()


def observe(node, m, ctx, fp, tail):
    ctx.equal(node.quantized, m.codes, "codes of the node", after=tail)
    ctx.check(node.scale == m.s and node.zero_point == m.z, "scale/zero point of the node", got=(node.scale, node.zero_point), want=(m.s, m.z), after=tail)
    ctx.close(node.dequantized, (m.codes - m.z) * m.s, 1e-9, "dequantized tensor", after=tail)
    ctx.equal(np.asarray(node.rounding_policy), m.shown, "rounding policy in force", after=tail)
    ctx.check(np.array_equal(node.fp_tensor, fp), "float tensor changed", after=tail)
    j = node.as_json()
    ctx.check(j["scale"] == m.s and j["zero_point"] == m.z, "JSON scale/zero point", after=tail)
    ctx.equal(j["tensor"]["tensor"], m.codes, "JSON codes", after=tail)


OPS = [("update", s, z, rq) for s in SCALES for z in ZPS for rq in (True, False)] + \
      [("policy", p) for p in ("floor", "ceil", "alt")] + [("reset_rounding",), ("reset_scale",), ("reset_zp",), ("bad_policy",)]
OPS_SHORT = [("update", 0.5, 0, True), ("update", 0.3, 3, True), ("update", 0.3, 3, False), ("update", 1.0, -5, True), ("update", 1.0, -5, False),
             ("policy", "floor"), ("policy", "ceil"), ("policy", "alt"), ("reset_rounding",), ("reset_scale",), ("reset_zp",), ("bad_policy",)]


def make(c, ctx, log=None):
    q = Quantization(c["dtype"])
    fp = np.array(FP[c["fp"]], dtype=c["carrier"]).reshape(SHAPES[c["shape"]])
    node = NodeTensorBase(c["s"], c["z"], "n", q).with_tensor(fp)
    if log is not None:
        node.on_requantize.append(lambda n: log.append(("requantize", n.scale, n.zero_point)))
        node.on_quant_param_update.append(lambda n: log.append(("params", n.scale, n.zero_point)))
    lo, hi = ref.drange(c["dtype"])
    return node, Model(fp, c["s"], c["z"], lo, hi), fp


def closure_cases(tier):
    for fp in FP:
        for dtype in ("int8", "int4", "uint8", "int32") if tier == "quick" else ("int8", "int4", "uint8", "int32", "int16", "uint4", "uint32"):
            for s in SCALES[:2]:
                for z in ZPS[:2]:
                    yield {"fp": fp, "shape": "mat", "dtype": dtype, "carrier": "float32" if z else "float64", "s": s, "z": z}


def closure(c, ctx):
    """Every reachable state of the node under the whole operation alphabet (fixed point of the state graph)."""
    node, m, fp = make(c, ctx)
    pols = policies(SHAPES[c["shape"]])
    base = m.shown
    observe(node, m, ctx, fp, "construction")
    seen = {m.key()}
    frontier = [(node, m)]
    ctx.state(m.key())
    cap = 1200 if not ctx.thorough else 6000
    while frontier:
        nxt = []
        for node, m in frontier:
            for op in OPS:
                n2, m2 = copy.deepcopy(node), copy.copy(m)
                do(n2, op, pols, ctx)
                apply(m2, op, pols)
                k = m2.key()
                if k not in seen:
                    observe(n2, m2, ctx, fp, op)
                    seen.add(k); ctx.state(k)
                    if len(seen) < cap:
                        nxt.append((n2, m2))
                else:
                    ctx.equal(n2.quantized, m2.codes, "codes of the node", after=op)
            observe(node, m, ctx, fp, "a change of a copy")
        frontier = nxt
    ctx.trace(len(seen))


def seq_cases(tier):
    for fp in FP:
        for shape in SHAPES:
            for dtype in ("int8", "uint8"):
                yield {"fp": fp, "shape": shape, "dtype": dtype, "carrier": "float32" if shape == "mat" else "float64", "s": 0.5, "z": 0,
                       "n": 3 if tier == "quick" else 4}


def sequences(c, ctx):
    """Every operation sequence from scratch, hooks included: requantize hooks run once per requantizing update, parameter
    hooks once per update, both seeing the new parameters."""
    pols = policies(SHAPES[c["shape"]])
    for seq in itertools.product(OPS_SHORT, repeat=c["n"]):
        log, want = [], []
        node, m, fp = make(c, ctx, log)
        for op in seq:
            do(node, op, pols, ctx)
            apply(m, op, pols)
            if op[0] == "update":
                if op[3]:
                    want.append(("requantize", op[1], op[2]))
                want.append(("params", op[1], op[2]))
        ctx.check(log == want, "hooks", got=log, want=want, seq=seq)
        observe(node, m, ctx, fp, seq)
        ctx.trace(); ctx.state(m.key())


def json_cases(tier):
    for dtype in ("int8", "uint8", "int32", "int4", "uint32", "int16"):
        for shape in SHAPES:
            yield {"fp": "mixed" if dtype != "uint32" else "huge", "shape": shape, "dtype": dtype, "carrier": "float64", "s": 0.3, "z": 3}


def json_flags(c, ctx):
    """Every combination of the serialization flags, set before or after the tensor is attached."""
    for when in ("before", "after"):
        for ex_q, ex_b, ex_t in itertools.product((None, False, True), repeat=3):
            q = Quantization(c["dtype"])
            fp = np.array(FP[c["fp"]]).reshape(SHAPES[c["shape"]])
            base = NodeTensorBase(c["s"], c["z"], "first", q)
            arg = lambda v: () if v and when == "before" else (v,)      # excluding is the default
            if ex_q is not None and when == "before":
                ctx.check(base.exclude_quant_params(*arg(ex_q)) is base, "the node is returned")
            node = base.with_tensor(fp)
            if ex_q is not None and when == "after":
                ctx.check(node.exclude_quant_params(*arg(ex_q)) is node, "the node is returned")
            if ex_b is not None:
                ctx.check(node.exclude_batch_dimension(*arg(ex_b)) is node, "the node is returned")
            if ex_t is not None:
                ctx.check(node.exclude_tensor(*arg(ex_t)) is node, "the node is returned")
            node.name = "renamed"
            j = node.as_json()
            lo, hi = ref.drange(c["dtype"])
            m = Model(fp, c["s"], c["z"], lo, hi)
            ctx.check(j["scale"] == (None if ex_q else c["s"]) and j["zero_point"] == (None if ex_q else c["z"]), "JSON parameters", flags=(ex_q, ex_b, ex_t))
            t = j["tensor"]
            ctx.check(list(t["shape"]) == list(fp.shape)[1 if ex_b else 0:], "JSON shape", got=t["shape"], flags=(ex_q, ex_b, ex_t))
            ctx.check(t["dtype"] == c["dtype"] and t["name"] == "renamed", "JSON dtype/name", got=(t["dtype"], t["name"]))
            if ex_t:
                ctx.check(t["tensor"] is None, "an excluded tensor is serialized")
            else:
                ctx.equal(t["tensor"], m.codes, "JSON codes")
                ctx.check(isinstance(np.asarray(t["tensor"]).ravel().tolist()[0], int) and type(t["tensor"]) is list, "JSON codes are not plain ints")
            ctx.check(j["LUT"] is None, "a table appeared")
            ctx.check(node["scale"] == j["scale"], "item access")
            jb = base.as_json()
            ctx.check(jb["tensor"] is None and base.name == "first", "the base node changed")
            ctx.op(); ctx.trace(); ctx.state((when, ex_q, ex_b, ex_t, c["shape"], c["dtype"]))


def hook_cases(tier):
    return [{"n": n, "fp": f} for n in (1, 2, 3) for f in ("mixed", "grid")]


def hooks(c, ctx):
    """Every registration of up to three hooks on both events: each runs once per event, in order of registration, after the
    node has been brought up to date."""
    lo, hi = ref.drange("int8")
    for where in itertools.product(("requantize", "params"), repeat=c["n"]):
        for seq in itertools.product([("update", s, z, rq) for s, z in ((0.5, 0), (0.3, 3)) for rq in (True, False)], repeat=3):
            node, m, fp = make({"fp": c["fp"], "shape": "mat", "dtype": "int8", "carrier": "float64", "s": 1.0, "z": 1}, ctx)
            log, want = [], []
            for k, w in enumerate(where):
                L = node.on_requantize if w == "requantize" else node.on_quant_param_update
                L.append(lambda n, k=k: log.append((k, n is node, n.scale, n.zero_point, n.quantized.tolist())))
            for op in seq:
                do(node, op, {}, ctx); apply(m, op, {})
                for ev in ("requantize", "params"):
                    if ev == "params" or op[3]:
                        want += [(k, True, op[1], op[2], m.codes.tolist()) for k, w in enumerate(where) if w == ev]
            ctx.check(log == want, "hooks", got=log, want=want, seq=seq, hooks=where)
            ctx.state((where, seq)); ctx.trace()


def many_cases(tier):
    return [{"dtype": d, "shape": s} for d in ("int8", "int16") for s in SHAPES]


def many(c, ctx):
    """Any number of hooks: all of them run, in order of registration. One array reused for several policies: the codes are
    those of the values it holds when it is set."""
    lo, hi = ref.drange(c["dtype"])
    for n in (4, 5, 8, 9, 16, 17, 33, 64):
        node, m, fp = make({"fp": "mixed", "shape": c["shape"], "dtype": c["dtype"], "carrier": "float64", "s": 1.0, "z": 1}, ctx)
        log = []
        for k in range(n):
            node.on_requantize.append(lambda x, k=k: log.append(("r", k)))
            node.on_quant_param_update.append(lambda x, k=k: log.append(("p", k)))
        for s, z, rq in ((0.5, 0, True), (0.3, 3, False), (0.3, 3, True)):
            log.clear()
            do(node, ("update", s, z, rq), {}, ctx)
            ctx.check([k for e, k in log if e == "p"] == list(range(n)) and [k for e, k in log if e == "r"] == (list(range(n)) if rq else []), "hooks", got=log, hooks=n)
        ctx.state(n)
    pols = policies(np.shape(fp))
    for seq in itertools.product(pols, repeat=3):
        node, m, fp = make({"fp": "mixed", "shape": c["shape"], "dtype": c["dtype"], "carrier": "float64", "s": 0.5, "z": 1}, ctx)
        pol = np.zeros(np.shape(fp), int)
        for name in seq:
            pol[...] = pols[name]
            node.rounding_policy = pol
            apply(m, ("policy", name), pols); ctx.op()
            ctx.equal(node.quantized, m.codes, "codes under a policy whose array was reused", seq=seq)
        ctx.state(seq); ctx.trace()


def snapshot_cases(tier):
    return [{"dtype": d, "shape": s} for d in ("int8", "uint32", "int32") for s in SHAPES]


def snapshot(c, ctx):
    """Whatever a node hands out is the caller's: overwriting it, before or after any operation, changes nothing."""
    pols = policies(SHAPES[c["shape"]])
    for seq in itertools.product(OPS_SHORT[:8] + [None], repeat=2):
        node, m, fp = make({"fp": "mixed", "shape": c["shape"], "dtype": c["dtype"], "carrier": "float64", "s": 0.5, "z": 1}, ctx)
        for op in (None,) + seq:
            if op is not None:
                do(node, op, pols, ctx); apply(m, op, pols)
            j = node.as_json()

            def poison(t):
                for i, v in enumerate(t):
                    if isinstance(v, list):
                        poison(v)
                    else:
                        t[i] = 99
            keep = copy.deepcopy(j)
            poison(j["tensor"]["tensor"]); poison(j["tensor"]["shape"]); j["scale"] = j["zero_point"] = -1
            node.dequantized[...] = 7.0
            observe(node, m, ctx, fp, (seq, "the caller overwrote what it was given"))
            ctx.check(node.as_json() == keep, "the JSON of a node changed although the node did not", seq=seq)
        ctx.trace(); ctx.state((seq, c["shape"]))


def tensor_cases(tier):
    return [{"s": s, "z": z, "dtype": d} for s in (0.013, 2.5e-5, 310.0) for z in (0, -7) for d in ("int8", "int16", "int32")]


def tensors(c, ctx):
    """Tensors of every size, memory layout and carrier: the codes are those of every element's own value."""
    lo, hi = ref.drange(c["dtype"])
    q = Quantization(c["dtype"])

    def one(fp, what):
        keep = np.array(fp, copy=True)
        node = NodeTensorBase(1.0, 0, "n", q).with_tensor(fp)
        for s, z in ((c["s"], c["z"]), (c["s"] * 1.5, c["z"] + 1)):
            node.update_quant_parameters(s, z)
            ref.check_quantized(ctx, node.quantized, keep, z, s, lo, hi, f"codes of {what}")
            ctx.equal(np.array(node.as_json()["tensor"]["tensor"]), node.quantized, f"JSON codes of {what}")
            node.rounding_policy = np.zeros(keep.shape, int)
            t = np.asarray(keep, np.float64) / s + z
            ctx.equal(node.quantized, np.clip(np.floor(t), lo, hi), f"floor of {what}")
            node.reset_rounding()           # a policy of one's own survives an update
            pol = 1 - np.array(node.rounding_policy).astype(int)
            node.rounding_policy = pol
            node.update_quant_parameters(s * 2, z)
            t = np.asarray(keep, np.float64) / (s * 2) + z
            ctx.equal(node.quantized, np.clip(np.floor(t) + pol, lo, hi), f"{what} after an update under a policy")
            node.update_quant_parameters(s, z)
            node.reset_rounding()
            ctx.op(3)
        ctx.check(np.array_equal(keep, fp), f"{what} changed")
    span = c["s"] * min(hi, 10 ** 6)
    for n in robust.sizes(ctx.tier, 80):
        v = np.sin(np.arange(n) * 1.7 + 0.3) * span
        for dt in ("float64", "float32"):
            one(v.astype(dt), f"a {dt} vector of {n}")
        if n % 2 == 0:
            one(v.reshape(2, -1), f"a matrix of 2x{n // 2}")
    v = np.sin(np.arange(120) * 0.9) * span
    layouts = {"C": v.reshape(4, 5, 6), "F": np.asfortranarray(v.reshape(4, 5, 6)), "transposed": v.reshape(6, 5, 4).T, "strided": np.repeat(v, 2)[::2].reshape(4, 5, 6),
               "reversed": v[::-1].reshape(4, 5, 6)[::-1], "scalar-like": v[:1].reshape(1, 1), "float16": v.astype("float16") if span < 6e4 else v, "zero-d": np.array(v[3])}
    for k, fp in layouts.items():
        one(fp, f"a {k} tensor")
        ctx.state((k, c["s"], c["z"], c["dtype"]))
    ctx.trace()


PROP = Property("T01", [
    Scenario("closure", closure_cases, closure, "all reachable node states under the whole alphabet"),
    Scenario("sequences", seq_cases, sequences, "all operation sequences from scratch, with hooks"),
    Scenario("hooks", hook_cases, hooks, "all registrations of hooks x update sequences"),
    Scenario("many", many_cases, many, "numbers of hooks; one array reused for all policy sequences"),
    Scenario("snapshot", snapshot_cases, snapshot, "results overwritten by the caller between all pairs of operations"),
    Scenario("tensors", tensor_cases, tensors, "tensor sizes, memory layouts and carriers"),
    Scenario("json", json_cases, json_flags, "all serialization flag combinations"),
], "model_checking", "state: (scale, zero point, rounding policy, codes) of the node; transition: one public operation; trace: operation sequence in lockstep with the reference node")
