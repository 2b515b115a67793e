import itertools, json, os
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario, REPO
from choose import explore, controlled, Landscape
from stubs import Dense, LSTM, Model, MODELS
import simanneal
import itcl_quantizer.equalizers.param_equalizer.abstract_param_optimizer as apo_mod
import itcl_quantizer.equalizers.adaround.annealer as annealer_mod
from itcl_quantizer.config.models.keras import QuantizerCfg, KerasDenseCfg, QuantizeCfg, DequantizeCfg, ParamEqualizerCfg, RoundingAnnealerCfg, RoundingMinimaCfg, RoundingQUBOCfg
from itcl_quantizer.equalizers.adaround.adaround import AdaroundNet
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
from itcl_quantizer.equalizers.param_equalizer.param_equalizer import ParamEqualizerFullNet
from itcl_quantizer.tensor_extractor.keras import keras_builder
from props import K01, K02
from props.A01 import VALUES, accepting, set_accept

MODS = [apo_mod, annealer_mod]
DENSE = dict(activation_dtype="int8", bias_add_dtype="int8", bias_dtype="int32", kernel_dtype="int8", kernel_symmetric=False)
ADA = {
    "none": None,
    "annealer": {"optimizer": "annealer", "t_min": 0.5, "t_max": 77.0, "updates": 3, "steps": 2, "max_retries": 1},
    "annealer-default": {"optimizer": "annealer"},
    "base": {"optimizer": "base", "max_retries": 2},
    "base-default": {"optimizer": "base"},
    "qubo": {"optimizer": "qubo"},
}
ADA_FULL = {     # with the defaults of the schema filled in
    "annealer-default": {"optimizer": "annealer", "t_min": 0.1, "t_max": 25000, "updates": 100, "steps": 5000, "max_retries": 100},
    "base-default": {"optimizer": "base", "max_retries": 100},
}
PEQ = {"none": None, "default": {"optimizer": "base"}, "given": {"optimizer": "base", "max_retries": 3}}
PEQ_FULL = {"default": {"optimizer": "base", "max_retries": 100}}
CLS = {"annealer": RoundingAnnealerCfg, "base": RoundingMinimaCfg, "qubo": RoundingQUBOCfg}
NET = [([[0.9, -1.1], [-0.4, 0.6]], [0.1, -0.2], "tanh"), ([[0.5, 0.3], [-0.7, 0.2]], [0.0, 0.4], "linear")]
TINY = [([[0.9, -1.1]], [0.1, -0.2], "tanh")]


def key(k):
    return k if k.isidentifier() else f"'{k}'"


def to_yaml(d, ind=0):
    out = []
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out += [" " * ind + f"{key(k)}:"] + to_yaml(v, ind + 2)
        else:
            out.append(" " * ind + f"{key(k)}: " + ({True: "true", False: "false", None: "null"}[v] if v is None or isinstance(v, bool) else "{}" if v == {} else repr(v) if not isinstance(v, str) else v))
    return out


def forms(spec):
    """The same configuration given in every way there is."""
    name = f"cfg{os.getpid()}"
    with open(name + ".json", "w", encoding="utf-8") as f:
        json.dump(spec, f, ensure_ascii=False)
    with open(name + ".yml", "w", encoding="utf-8") as f:
        f.write("\n".join(to_yaml(spec)) + "\n")
    o = {}
    if "dense" in spec:
        o["dense"] = KerasDenseCfg(**spec["dense"])
    if "quantize" in spec:
        o["quantize"] = QuantizeCfg(**spec["quantize"])
    if "dequantize" in spec:
        o["dequantize"] = DequantizeCfg()
    for k in ("ada_round_net",):
        if spec.get(k):
            o[k] = CLS[spec[k]["optimizer"]](**{a: b for a, b in spec[k].items() if a != "optimizer"})
    if spec.get("param_equalizer"):
        o["param_equalizer"] = ParamEqualizerCfg(**{a: b for a, b in spec["param_equalizer"].items() if a != "optimizer"})
    if spec.get("specific_layers"):
        o["specific_layers"] = {k: KerasDenseCfg(**v) for k, v in spec["specific_layers"].items()}
    return {"objects": QuantizerCfg(**o), "dictionary": QuantizerCfg(**json.loads(json.dumps(spec))), "json": QuantizerCfg.from_json(name + ".json"), "yaml": QuantizerCfg.from_yml(name + ".yml")}


def full(spec, ada="none", peq="none"):
    d = {"dense": {**DENSE, **spec.get("dense", {})}, "quantize": {"dtype": "int8", **spec.get("quantize", {})}, "ada_round_net": ADA_FULL.get(ada, ADA[ada]), "param_equalizer": PEQ_FULL.get(peq, PEQ[peq]),
         "specific_layers": {k: {**DENSE, **v} for k, v in spec.get("specific_layers", {}).items()}}
    return d


def shown(cfg):
    """What a configuration says, without settings that have no meaning here."""
    def dense(d):
        return {k: d[k] for k in DENSE}
    d = cfg.dict()
    return {"dense": dense(d["dense"]), "quantize": {"dtype": d["quantize"]["dtype"]}, "ada_round_net": d["ada_round_net"], "param_equalizer": d["param_equalizer"],
            "specific_layers": {k: dense(v) for k, v in d["specific_layers"].items()}}


def dtypes(js):
    """(input dtype, per dense layer: kernel, bias, sum, activation or None, kernel zero point)"""
    t = lambda n: n["tensor"]["dtype"]
    g = js["graph"]
    out, k = [t(g[0]["outputs"][0])], 1
    while k < len(g) - 1:
        op = g[k]; k += 1
        lut = k < len(g) - 1 and g[k]["op_type"].upper() in ("TANHLUT", "SIGMOIDLUT")
        out.append((t(op["inputs"][1]), t(op["inputs"][2]), t(op["outputs"][0]), t(g[k]["outputs"][0]) if lut else None, int(op["inputs"][1]["zero_point"])))
        k += lut
    return out


def strip(js):
    return {k: v for k, v in js.items() if k != "generated_at"}


def spec_cases(tier):
    ks = ["int4", "int8", "int16"] if tier == "thorough" else ["int4", "int8"]
    out = []
    for k, b, ba, a, s in itertools.product(ks, ("int32", "int24"), ks, ("int8", "int6"), (False, True)):
        out.append({"dense": dict(kernel_dtype=k, bias_dtype=b, bias_add_dtype=ba, activation_dtype=a, kernel_symmetric=s)})
    return out


def partials():
    """Which parts of a configuration are given at all."""
    for q in (None, {"dtype": "int6"}):
        for sp in (None, {}, {"L0": {"kernel_dtype": "int5"}}, {"L1": {"kernel_symmetric": True}}, {"L0": {"bias_add_dtype": "int7"}, "L1": {"kernel_dtype": "int3", "activation_dtype": "int5"}}, {"other": {"kernel_dtype": "int2"}}):
            yield {k: v for k, v in (("quantize", q), ("specific_layers", sp)) if v is not None}


def specs(c, ctx):
    """Every form of a configuration says the same and quantizes every layer with the settings that apply to it."""
    x = K01.data("mixed", 2)
    for part in partials():
        for keys in (list(c["dense"]), list(c["dense"])[::2], []):
            spec = dict(part)
            if keys:
                spec["dense"] = {k: c["dense"][k] for k in keys}
            want = full(spec)
            nets = {}
            for form, cfg in forms(spec).items():
                ctx.check(shown(cfg) == want, f"the {form} form is another configuration", got=shown(cfg), want=want)
                nets[form] = strip(K01.quantize(NET, x, cfg).as_json())
                ctx.check(shown(cfg) == want, "quantizing changed the configuration")
                ctx.op()
            ctx.check(all(n == nets["objects"] for n in nets.values()), "forms of one configuration give different networks")
            got = dtypes(nets["objects"])
            ctx.check(got[0] == want["quantize"]["dtype"], "input dtype", got=got[0])
            for i, (g, layer) in enumerate(zip(got[1:], NET)):
                d = want["specific_layers"].get(f"L{i}", want["dense"])
                exp = (d["kernel_dtype"], d["bias_dtype"], d["bias_add_dtype"], d["activation_dtype"] if layer[2] == "tanh" else None)
                ctx.check(g[:4] == exp, f"dtypes of layer {i}", got=g[:4], want=exp)
                ctx.check(not d["kernel_symmetric"] or g[4] == 0, f"layer {i}: symmetric kernel with a zero point", got=g[4])
            ctx.state((spec, got)); ctx.trace()


def build(cfg, layers, x, loss, name="m"):
    MODELS[name] = Model([Dense(np.shape(w)[1], act, weights=[np.array(w), np.array(b)], name=f"L{i}") for i, (w, b, act) in enumerate(layers)])
    return keras_builder.build(name, f"out{os.getpid()}.json", x, loss, cfg)


def opt_cases(tier):
    return [{"ada": a, "peq": p, "loss": l} for a in ADA for p in PEQ for l in (True, False) if a not in ("annealer-default", "base-default") and p != "default"] + \
        [{"ada": a, "peq": p, "loss": True} for a, p in (("base-default", "none"), ("annealer-default", "none"), ("none", "default"), ("base-default", "default"))]


def factory(ada):
    f = ADA_FULL.get(ada, ADA[ada])
    if f["optimizer"] == "qubo":
        return QUBOAnnealer
    if f["optimizer"] == "base":
        return lambda: RoundingAnnealer(t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=f["max_retries"])
    return lambda: RoundingAnnealer(t_min=f["t_min"], t_max=f["t_max"], updates=f["updates"], steps=f["steps"], max_retries=f["max_retries"])


class Schedules:
    """Records the schedule every annealing runs with (simanneal's public attributes)."""

    def __enter__(self):
        self.seen, A = [], simanneal.Annealer
        self.old = A.anneal
        old, seen = self.old, self.seen

        def anneal(o):
            seen.append((float(o.Tmin), float(o.Tmax), int(o.updates), int(o.steps)))
            return old(o)
        A.anneal = anneal
        return self.seen

    def __exit__(self, *a):
        simanneal.Annealer.anneal = self.old


def optimizers(c, ctx):
    """A configured network equals the plain one on which exactly the configured optimizers were run, in order, with the given
    parameters, for every sequence of random decisions and costs; without a loss function nothing is tuned."""
    big = "default" in c["ada"] or c["peq"] == "default"
    spec = {k: v for k, v in (("ada_round_net", ADA[c["ada"]]), ("param_equalizer", PEQ[c["peq"]])) if v is not None}
    layers = TINY
    x = np.array([[-1.0], [0.5], [2.0]])
    want = full(spec, c["ada"], c["peq"])
    cfgs = forms(spec)
    for form, cfg in cfgs.items():
        ctx.check(shown(cfg) == want, f"the {form} form is another configuration", got=shown(cfg), want=want)
    if "default" in c["ada"] and c["ada"].startswith("annealer"):
        # 5000 steps: only the schedule is compared
        with Schedules() as seen:
            o = cfgs["json"].ada_round_net.build()
            a = (float(o.Tmin), float(o.Tmax), int(o.updates), int(o.steps))
        ctx.check(a == (0.1, 25000.0, 100, 5000), "default annealing schedule", got=a)
        ctx.op(); ctx.trace()
        return
    depth = {"rnd": 1, "cost": 1, "acc": 1} if big else {"rnd": 2, "cost": 2, "acc": 1}
    if ctx.thorough and not big:
        depth = {"rnd": 3, "cost": 3, "acc": 1}
    n = 0
    for ch in explore(depth):
        picks = []

        def session(fn):
            """Runs fn(loss) with the decisions recorded in `picks` (first run) or replayed."""
            sub = Replay(ch, picks)
            land = Landscape(sub, VALUES)
            calls = []

            def loss(net):
                g = net.infer(x)
                calls.append(np.asarray(g).tobytes())
                return land(calls[-1])
            set_accept(accepting(sub))
            with controlled(sub, MODS, unit=[0.25, 0.75]), Schedules() as seen:
                net = fn(loss)
            return strip(net.as_json()), calls, list(seen)

        def on_disk():
            with open(f"out{os.getpid()}.json") as f:
                return strip(json.load(f))
        form = list(cfgs)[n % 4]
        auto = session(lambda loss: build(cfgs[form], layers, x, loss if c["loss"] else None))
        ctx.check(on_disk() == json.loads(json.dumps(auto[0])), "the file written is not the network returned", form=form)
        ctx.check(shown(cfgs[form]) == want, "building a network changed its configuration", form=form, got=shown(cfgs[form]), want=want)

        def manual(loss):
            net = build(QuantizerCfg(), layers, x, None)
            if c["loss"]:
                if want["param_equalizer"]:
                    ParamEqualizerFullNet(net, loss, lambda: BFSEqualizer(want["param_equalizer"]["max_retries"])).equalize()
                if want["ada_round_net"]:
                    AdaroundNet(net, loss, factory(c["ada"])).round()
            return net
        exp = session(manual)
        ctx.check(auto[0] == exp[0], "the built network is not the one its configuration describes", form=form)
        ctx.check(auto[1] == exp[1], "other networks were evaluated", got=len(auto[1]), want=len(exp[1]))
        ctx.check(auto[2] == exp[2], "annealing schedules", got=auto[2], want=exp[2])
        if not c["loss"] or not (want["param_equalizer"] or want["ada_round_net"]):
            ctx.check(not auto[1], "the loss was evaluated although nothing is to be tuned")
        n += 1
        ctx.op(len(auto[1])); ctx.state((c, [hash(v) for v in auto[1]])); ctx.trace()
        if not picks:
            break


class Replay:
    """A chooser whose decisions can be taken again: the first session explores, later ones replay it."""

    def __init__(self, ch, picks):
        self.ch, self.picks, self.i, self.record = ch, picks, 0, not picks

    def pick(self, n, kind=None):
        if self.record:
            v = self.ch.pick(n, kind)
            self.picks.append((n, kind, v))
            return v
        if self.i >= len(self.picks) or self.picks[self.i][:2] != (n, kind):
            self.i += 1
            return (self.i * 5 + 1) % n          # diverged: the comparison below reports it
        v = self.picks[self.i][2]
        self.i += 1
        return v


def tflite_cases(tier):
    return [{"dense": d["dense"]} for d in spec_cases(tier)] + [{"dense": {"kernel_dtype": k}} for k in ("INT8", "Int16", "uint8", "UINT4")]


def tflite(c, ctx):
    """tflite() makes the dense kernels symmetric and drops the optimizers, nothing else; configurations are independent."""
    x = K01.data("mixed", 2)
    for ada, peq in itertools.product(("none", "annealer", "base", "qubo"), ("none", "given")):
        for q in (None, "int6"):
            spec = {"dense": c["dense"], "ada_round_net": ADA[ada], "param_equalizer": PEQ[peq]}
            if q:
                spec["quantize"] = {"dtype": q}
            other, cfgs = QuantizerCfg(), forms(spec)
            keep = shown(cfgs["objects"])
            want = full(spec, "none", "none")
            want["dense"] = {**want["dense"], "kernel_symmetric": True}
            cfgs["json"].tflite()
            ctx.check(shown(cfgs["json"]) == want, "tflite()", got=shown(cfgs["json"]), want=want)
            ctx.check(shown(cfgs["objects"]) == keep == shown(cfgs["yaml"]) and shown(other) == full({}) == shown(QuantizerCfg()), "tflite() of one configuration changed another")
            calls = []
            MODELS["t"] = Model([Dense(2, a, weights=[np.array(w), np.array(b)], name=f"L{i}") for i, (w, b, a) in enumerate(NET)])
            net = keras_builder.build("t", f"out{os.getpid()}.json", x, lambda n: calls.append(1) or 0.0, cfgs["json"])
            ctx.check(not calls, "a tflite configuration tunes the network")
            ctx.check(all(d[4] == 0 for d in dtypes(net.as_json())[1:]), "a tflite network has kernels with zero points")
            ctx.op(4); ctx.state((spec, dtypes(net.as_json()))); ctx.trace()


NAMES = ["dense", "dense_1", "dense_2", "Dense_1", "a/dense", "b/dense", "dense_10", "capa_\u00f1", "\u5c42", "L 0", "lstm", "0", "dense:0", "DENSE"]


def name_cases(tier):
    return [{"given": list(g)} for n in (1, 2) for g in itertools.combinations(NAMES, n)] + [{"given": NAMES[i:] + NAMES[:i]} for i in range(len(NAMES))]


def names(c, ctx):
    """A layer gets the settings given for exactly its name; every other layer gets the common ones."""
    kinds = ["int3", "int5", "int6", "int7", "int9", "int10", "int11", "int12", "int13", "int14", "int15", "int16", "int4", "int2"]
    spec = {"dense": {"kernel_dtype": "int8"}, "specific_layers": {k: {"kernel_dtype": kinds[NAMES.index(k)], "kernel_symmetric": i % 2 == 0} for i, k in enumerate(c["given"])}}
    want = full(spec)
    x = K01.data("mixed", 2)
    sets = [NAMES[i:] + NAMES[:i] for i in ((0, 5) if len(c["given"]) < 3 else range(len(NAMES)))]
    for form, cfg in forms(spec).items():
        ctx.check(shown(cfg) == want, f"the {form} form is another configuration", got=shown(cfg), want=want)
        for order in sets:
            MODELS["n"] = Model([Dense(2, "linear", weights=[np.array(NET[0][0]), np.array(NET[0][1])], name=n) for n in order])
            net = keras_builder.build("n", f"out{os.getpid()}.json", x, None, cfg)
            got = dtypes(net.as_json())[1:]
            for n, g in zip(order, got):
                d = want["specific_layers"].get(n, want["dense"])
                ctx.check(g[0] == d["kernel_dtype"], f"kernel type of layer {n!r}", got=g[0], want=d["kernel_dtype"])
                ctx.check(not d["kernel_symmetric"] or g[4] == 0, f"layer {n!r}: symmetric kernel with a zero point", got=g[4])
            ctx.check(len(got) == len(order), "number of layers", got=len(got))
            ctx.op(); ctx.state((c, got))
    ctx.trace()


AXES = {"t_min": (0.1, 0.5, 1, 3.25), "t_max": (0.5, 77.25, 25000, 1e6), "updates": (0, 1, 100), "steps": (0, 1, 2, 7, 5000, 20000), "max_retries": (0, 1, 2, 7, 1000)}


def value_cases(tier):
    return [{"t_min": a, "t_max": b, "updates": u} for a in AXES["t_min"] for b in AXES["t_max"] for u in AXES["updates"] if a < b]


def values(c, ctx):
    """Every value of every optimizer setting, 0 and fractions included, is the one the optimizer runs with."""
    for steps, retries in itertools.product(AXES["steps"], AXES["max_retries"]):
        ada = {"optimizer": "annealer", **c, "steps": steps, "max_retries": retries}
        spec = {"ada_round_net": ada, "param_equalizer": {"optimizer": "base", "max_retries": retries}}
        for form, cfg in forms(spec).items():
            got = cfg.dict()
            ctx.check(got["ada_round_net"] == ada and got["param_equalizer"] == spec["param_equalizer"], f"settings in the {form} form", got=got["ada_round_net"], want=ada)
            o = cfg.ada_round_net.build()
            a = (float(o.Tmin), float(o.Tmax), int(o.updates), int(o.steps))
            ctx.check(a == (c["t_min"], c["t_max"], c["updates"], steps), f"schedule in the {form} form", got=a, want=ada)
            ctx.op()
        ctx.state((c, steps, retries))
    ctx.trace()


def limit_cases(tier):
    out = []
    for r in (0, 1, 2, 4) + ((7,) if tier == "thorough" else ()):
        out += [{"ada": {"optimizer": "base", "max_retries": r}, "peq": None}, {"ada": None, "peq": {"optimizer": "base", "max_retries": r}}]
        out += [{"ada": {"optimizer": "annealer", "t_min": 0.5, "t_max": 0.75, "updates": 0, "steps": s, "max_retries": r}, "peq": None} for s in (0, 1, 3)]
        out.append({"ada": {"optimizer": "base", "max_retries": 1}, "peq": {"optimizer": "base", "max_retries": r}})
    return out


def limits(c, ctx):
    """Retry and step limits are honoured at 0 and above: exactly the evaluations of the optimizer run by hand, on costs that never,
    always or every other time improve."""
    spec = {k: v for k, v in (("ada_round_net", c["ada"]), ("param_equalizer", c["peq"])) if v is not None}
    x = np.array([[-1.0], [0.5], [2.0]])
    ada = c["ada"]
    for pattern, unit in itertools.product(("never", "always", "alternate", "equal"), (0.25, 0.75)):
        class Fixed:
            def pick(self, n, kind=None):
                return 0

        def session(fn):
            calls = []

            def loss(net):
                calls.append(np.asarray(net.infer(x)).tobytes())
                k = len(calls)
                return {"never": k, "always": -min(k, 6), "alternate": (-min(k, 6) if k % 2 else k), "equal": 1}[pattern] * 1.0
            set_accept(accepting(Fixed()))
            with controlled(Fixed(), MODS, unit=[unit]), Schedules() as seen:
                net = fn(loss)
            return strip(net.as_json()), calls, list(seen)

        def manual(loss):
            net = build(QuantizerCfg(), TINY, x, None)
            if c["peq"]:
                ParamEqualizerFullNet(net, loss, lambda: BFSEqualizer(c["peq"]["max_retries"])).equalize()
            if ada:
                s = (0.1, 0.1, 100, 0) if ada["optimizer"] == "base" else (ada["t_min"], ada["t_max"], ada["updates"], ada["steps"])
                AdaroundNet(net, loss, lambda: RoundingAnnealer(t_min=s[0], t_max=s[1], updates=s[2], steps=s[3], max_retries=ada["max_retries"])).round()
            return net
        exp = session(manual)
        for form, cfg in forms(spec).items():
            got = session(lambda loss: build(cfg, TINY, x, loss))
            ctx.check(got[1] == exp[1], f"evaluations with the {form} form", got=len(got[1]), want=len(exp[1]), pattern=pattern)
            ctx.check(got[0] == exp[0], f"network built with the {form} form", pattern=pattern)
            ctx.check(got[2] == exp[2], "annealing schedules", got=got[2], want=exp[2])
            ctx.op(len(got[1])); ctx.state((c, pattern, len(got[1])))
    ctx.trace()


def reuse_cases(tier):
    pairs = [(a, p) for a in (None, "base", "annealer") for p in (None, "given") if a or p]
    return [{"ada": a, "peq": p, "first": f, "n": 3 if tier == "quick" else 4} for a, p in pairs for f in range(4)]


def reuse(c, ctx):
    """One configuration object used for several builds, with and without a loss function and for different models: every
    build gives the network a fresh configuration gives, and the configuration still says the same."""
    ada = {"base": {"optimizer": "base", "max_retries": 2}, "annealer": {"optimizer": "annealer", "t_min": 0.5, "t_max": 0.75, "updates": 0, "steps": 2, "max_retries": 1}}.get(c["ada"])
    spec = {k: v for k, v in (("ada_round_net", ada), ("param_equalizer", PEQ["given"] if c["peq"] else None), ("specific_layers", {"L0": {"kernel_dtype": "int5"}})) if v is not None}
    x = {"TINY": np.array([[-1.0], [0.5], [2.0]]), "NET": K01.data("mixed", 2)}
    ops = [("TINY", False), ("TINY", True), ("NET", False), ("NET", True)]

    def session(cfg, op):
        calls = []

        class Fixed:
            def pick(self, n, kind=None):
                return 0

        def loss(net):
            calls.append(np.asarray(net.infer(x[op[0]])).tobytes())
            return -1.0 * min(len(calls), 4)
        set_accept(accepting(Fixed()))
        with controlled(Fixed(), MODS, unit=[0.25]):
            net = build(cfg, TINY if op[0] == "TINY" else NET, x[op[0]], loss if op[1] else None)
        with open(f"out{os.getpid()}.json") as f:
            ctx.check(strip(json.load(f)) == strip(json.loads(json.dumps(net.as_json()))), "the file written is not the network returned", op=op)
        return strip(net.as_json()), calls
    want = [session(QuantizerCfg(**json.loads(json.dumps(spec))), op) for op in ops]
    for rest in itertools.product(range(4), repeat=c["n"] - 1):
        seq = (c["first"],) + rest
        for form, cfg in forms(spec).items():
            says = shown(cfg)
            for i, k in enumerate(seq):
                got = session(cfg, ops[k])
                ctx.op(len(got[1]) + 1)
                ctx.check(got[1] == want[k][1], "other networks were evaluated by a configuration used before", history=seq[:i + 1], form=form, got=len(got[1]), want=len(want[k][1]))
                ctx.check(got[0] == want[k][0], "a configuration used before gives another network", history=seq[:i + 1], form=form)
                ctx.check(shown(cfg) == says, "building a network changed its configuration", history=seq[:i + 1], got=shown(cfg), want=says)
            if c["n"] > 2 and form == "dictionary":
                break
        ctx.state((c, seq)); ctx.trace()


def sample_cases(tier):
    d = os.path.join(REPO, "quantizer/itcl_quantizer/config/samples")
    return [{"name": n[:-5]} for n in sorted(os.listdir(os.path.join(d, "json"))) if n.endswith(".json")]


def samples(c, ctx):
    """The sample files mean the same in both formats, and every field they contain is a setting that is read."""
    d = os.path.join(REPO, "quantizer/itcl_quantizer/config/samples")
    raw = json.load(open(f"{d}/json/{c['name']}.json"))
    a, b = QuantizerCfg.from_json(f"{d}/json/{c['name']}.json"), QuantizerCfg.from_yml(f"{d}/yaml/{c['name']}.yaml")
    ctx.check(shown(a) == shown(b), "JSON and YAML samples differ", got=shown(b), want=shown(a))

    def inside(x, y, at):
        for k, v in x.items():
            ctx.check(k in y, f"the sample sets {at}{k}, which is not a setting")
            if isinstance(v, dict) and isinstance(y[k], dict):
                inside(v, y[k], at + k + ".")
            else:
                ctx.check(v == y[k], f"the sample sets {at}{k}", got=y[k], want=v)
    inside(raw, a.dict(), "")
    x = K01.data("mixed", 2)
    ctx.check(strip(K01.quantize(NET, x, a).as_json()) == strip(K01.quantize(NET, x, b).as_json()), "the samples give different networks")
    if c["name"] == "tflite":
        t = QuantizerCfg(); t.tflite()
        ctx.check(shown(a) == shown(t), "the tflite sample is not the tflite configuration")
    ctx.op(2); ctx.trace(); ctx.state(shown(a))


def refuse_cases(tier):
    return [{"k": k} for k in ("ada_round_net", "param_equalizer")]


def refusals(c, ctx):
    """An optimizer of a name that does not exist is refused in every form."""
    for name in ("anneal", "Annealer", "BASE", "", "qubo ", "greedy", "none"):
        spec = {c["k"]: {"optimizer": name}}
        with open(f"r{os.getpid()}.json", "w") as f:
            json.dump(spec, f)
        for how, fn in (("dictionary", lambda: QuantizerCfg(**spec)), ("json", lambda: QuantizerCfg.from_json(f"r{os.getpid()}.json"))):
            try:
                fn()
            except ValueError:
                ctx.op()
                continue
            ctx.check(False, f"optimizer {name!r} of {c['k']} accepted ({how})")
    ctx.trace(); ctx.state(c["k"])


PROP = Property("G01", [
    Scenario("specs", spec_cases, specs, "all dtype settings x parts given x per-layer overrides, in four forms"),
    Scenario("optimizers", opt_cases, optimizers, "all optimizer settings x random decisions x costs, against the optimizers run by hand"),
    Scenario("names", name_cases, names, "all pairs of layer names given settings (prefixes, suffixes, case, other alphabets), in four forms"),
    Scenario("values", value_cases, values, "all combinations of optimizer settings, 0 and fractions included"),
    Scenario("limits", limit_cases, limits, "retry and step limits from 0 on, on costs that never, always or alternately improve"),
    Scenario("reuse", reuse_cases, reuse, "all sequences of builds with one configuration object, with and without a loss, two models"),
    Scenario("tflite", tflite_cases, tflite, "all settings through tflite()"),
    Scenario("samples", sample_cases, samples, "the sample files"),
    Scenario("refusals", refuse_cases, refusals, "optimizer names that do not exist"),
], "model_checking", "state: configuration and the network it builds, or the sequence of networks evaluated; transition: one build or one evaluated network; trace: one configuration in all its forms compared with the reference, or one complete tuning run",
    ["pydantic and PyYAML are stand-ins with their documented coercions", "the per-layer adaround_optimizer and lut_cfg settings have no effect in the code and are not covered", "tflite() with per-layer settings is not covered"])
