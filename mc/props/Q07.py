import itertools, json
import numpy as np
from kit import Property, Scenario
from itcl_quantization import Quantization
from itcl_quantization.quantization.lut import ReducedLUT


def pruned(lut, depth):
    """Entries covered by the first `depth` runs."""
    runs = [len(list(g)) for _, g in itertools.groupby(lut)]
    return sum(runs[:depth])


def verify(ctx, lut, depth, minr, asym):
    src = list(lut)
    r = ReducedLUT(lut, depth, minr, asym)
    n = len(lut)
    d = dict(lut=src if n < 40 else f"{n} entries", depth=depth, min_reduce=minr, asymmetric=asym)
    ctx.check(lut == src, "the source table was modified", **d)
    g = [r[i] for i in range(n)]
    ctx.check(g == src, "lookup differs from the full table", got=g if n < 40 else "...", **d)
    ctx.check(list(r) == src, "iteration differs from the full table", got=list(r) if n < 40 else "...", **d)
    s = r.serialize()
    text = json.dumps(s)
    ctx.check(s["reduced_lut_len"] == len(s["reduced_lut"]) and s["head"]["tuples_len"] == len(s["head"]["tuples"]) and s["tail"]["tuples_len"] == len(s["tail"]["tuples"]),
              "announced lengths are wrong", **d)
    ctx.check(s["depth"] == depth and s["min_reduce"] == minr and bool(s["asymmetric"]) == bool(asym), "settings are not preserved", **d)
    hs, ts = s["head"]["shift"], s["tail"]["shift"]
    if depth:
        h = pruned(src, depth)
        w = h, pruned(src[h:][::-1] if asym else src[::-1], depth)
        ctx.check((hs, ts) == w, "entries pruned from the head and the tail", got=(hs, ts), want=w, **d)
    ctx.check(s["reduced_lut"] == src[hs:max(hs, n - ts)], "the body is not what lies between the pruned head and tail", got=s["reduced_lut"] if n < 40 else "...", **d)
    for src_json in (s, json.loads(text)):
        b = ReducedLUT.deserialize(src_json)
        gb = [b[i] for i in range(n)]
        ctx.check(gb == src, "deserialized lookup differs from the full table", got=gb if n < 40 else "...", **d)
        ctx.check(list(b) == src, "deserialized iteration differs from the full table", **d)
        ctx.check(json.loads(json.dumps(b.serialize())) == json.loads(text), "serialize(deserialize(x)) != x", **d)
    ctx.check([r[i] for i in range(n)] == src, "lookups changed after serialization", **d)
    ctx.op(5 * n + 4)
    ctx.state((tuple(map(tuple, map(list, s["head"]["tuples"]))), tuple(map(tuple, s["tail"]["tuples"])), tuple(s["reduced_lut"])))
    ctx.trace()


def small_cases(tier):
    spec = [(2, 9), (3, 7), (4, 5)] if tier == "quick" else [(2, 12), (3, 9), (4, 7), (5, 6)]
    for k, nmax in spec:
        for depth in range(0, 7):
            for asym in (False, True):
                yield {"values": k, "max_len": nmax, "depth": depth, "asym": asym}


def small(case, ctx):
    """Every table over k values up to the length bound."""
    for n in range(0, case["max_len"] + 1):
        for lut in itertools.product(range(case["values"]), repeat=n):
            if n == 0:
                continue
            verify(ctx, [v * 3 - 4 for v in lut], case["depth"], n % 3, case["asym"])


def run_cases(tier):
    for depth in range(0, 6):
        for asym in (False, True):
            yield {"depth": depth, "asym": asym, "runs": 5 if tier == "quick" else 7, "len": 3}


def runs(case, ctx):
    """Every run-length profile: up to R runs of length 1..3, distinct or alternating values."""
    for nr in range(1, case["runs"] + 1):
        for lens in itertools.product(range(1, case["len"] + 1), repeat=nr):
            for vals in ([i for i in range(nr)], [i % 2 for i in range(nr)], [-i for i in range(nr)]):
                lut = [v for v, l in zip(vals, lens) for _ in range(l)]
                verify(ctx, lut, case["depth"], 1, case["asym"])


def real_cases(tier):
    for d in ("int4", "int8", "uint8", "np.uint8", "int10"):
        for f in ("tanh", "sig", "relu", "sin", "const", "id", "clip"):
            yield {"dtype": d, "fn": f}


def real(case, ctx):
    """Tables generated for activation functions, all depths 0..8 and one beyond the number of values."""
    q = Quantization(np.uint8 if case["dtype"] == "np.uint8" else case["dtype"])
    lo, hi = q.min_value(), q.max_value()
    f = {"tanh": np.tanh, "sig": lambda x: 1 / (1 + np.exp(-x)), "relu": lambda x: max(0.0, x), "sin": np.sin, "const": lambda x: 0.5, "id": lambda x: x,
         "clip": lambda x: min(1.0, max(-1.0, x))}[case["fn"]]
    for in_s, out_s in itertools.product([0.01, 0.05, 1.0], [0.0078, 0.05, 1.0]):
        for izp, ozp in itertools.product([lo, 0, hi], [lo, 0]):
            lut = q.create_LUT(f, in_s, izp, out_s, ozp)
            for depth in (0, 1, 2, 3, 5, 8, 300):
                for asym in (False, True):
                    verify(ctx, list(lut), depth, 0, asym)


def alive_cases(tier):
    return [{"k": 0}]


def alive(case, ctx):
    """Two reduced tables alive together, in every construction / deserialization order; deserialization does not alias."""
    tabs = [[0, 0, 1, 2, 2], [5, 5, 5, 5], [3, 2, 1, 0, 0, 0], [7], [1, 2, 3, 4, 5, 6, 7, 8]]
    for a, b in itertools.product(tabs, tabs):
        for da, db in itertools.product((1, 2, 3), repeat=2):
            ra = ReducedLUT(list(a), da, 0); sa = json.loads(json.dumps(ra.serialize()))
            rb = ReducedLUT(list(b), db, 0); sb = json.loads(json.dumps(rb.serialize()))
            xb = ReducedLUT.deserialize(sb); xa = ReducedLUT.deserialize(sa)
            for _ in range(2):
                for r, t in ((ra, a), (rb, b), (xa, a), (xb, b), (ra, a)):
                    ctx.check([r[i] for i in range(len(t))] == t, "tables alive together interfere", a=a, b=b)
                    ctx.check(list(r) == t, "iteration of tables alive together interferes", a=a, b=b)
                    ctx.op(len(t))
            src = list(a)
            own = ReducedLUT(src, da, 0)
            src[0] = 99
            ctx.check(own[0] == a[0], "a reduced table follows later edits of its source", a=a)
            ctx.state((tuple(a), tuple(b), da, db)); ctx.trace()


def usage_cases(tier):
    return [{"what": w} for w in ("edits", "pairs")] + [{"what": "sizes", "part": k} for k in range(4)]


def usage(case, ctx):
    """Source lists edited after construction (values, growth, truncation), ordered pairs of tables differing in one entry or setting,
    every table length, long runs, more runs than any fixed bound."""
    if case["what"] == "edits":
        edits = [lambda t: t.append(9), lambda t: t.clear(), lambda t: t.reverse(), lambda t: t.__setitem__(0, 99), lambda t: t.__setitem__(-1, 99), lambda t: t.__setitem__(len(t) // 2, 99), lambda t: t.insert(0, 5),
                 lambda t: t.pop(), lambda t: t.extend([1, 2, 3])]
        for src in ([0, 0, 1, 2, 2], [5, 5, 5, 5], [3, 2, 1, 0, 0, 0], [7], list(range(8)), [0] * 5 + list(range(20)) + [19] * 5):
            for e, depth, asym in itertools.product(edits, (0, 1, 2, 3), (False, True)):
                own = list(src)
                r = ReducedLUT(own, depth, 0, asym)
                s = json.loads(json.dumps(r.serialize()))
                e(own)
                ctx.check([r[i] for i in range(len(src))] == src and list(r) == src, "a reduced table follows later edits of its source", src=src, depth=depth, asym=asym)
                ctx.check(json.loads(json.dumps(r.serialize())) == s, "the serialized form follows later edits of the source", src=src)
                b = ReducedLUT.deserialize(s)
                b2 = ReducedLUT.deserialize(json.loads(json.dumps(s)))
                ctx.check(list(b) == src and list(b2) == src, "deserialization after an edit", src=src)
                ctx.op(4); ctx.state((tuple(src), depth, asym))
        ctx.trace()
    elif case["what"] == "pairs":
        base = [0, 0, 0, 1, 2, 3, 4, 4, 4]
        V = [(base, 2, 0, False), (base, 3, 0, False), (base, 2, 1, False), (base, 2, 0, True), ([1] + base[1:], 2, 0, False), (base[:-1] + [5], 2, 0, False), (base[:4] + [9] + base[5:], 2, 0, False), (base + [4], 2, 0, False), (base[::-1], 2, 0, False)]
        for a, b in itertools.permutations(V, 2):
            ra, rb = ReducedLUT(list(a[0]), *a[1:]), ReducedLUT(list(b[0]), *b[1:])
            xa, xb = ReducedLUT.deserialize(json.loads(json.dumps(ra.serialize()))), ReducedLUT.deserialize(json.loads(json.dumps(rb.serialize())))
            for r, t in ((ra, a), (rb, b), (xa, a), (xb, b), (ra, a)):
                ctx.check([r[i] for i in range(len(t[0]))] == t[0] and list(r) == t[0], "two tables alive together interfere", a=a, b=b); ctx.op(len(t[0]))
            verify(ctx, list(a[0]), *a[1:]); verify(ctx, list(b[0]), *b[1:])
    else:
        import robust
        ns = robust.sizes("quick")
        for n in [v for i, v in enumerate(ns) if i % 4 == case["part"]]:
            tabs = [list(range(n)), [3] * n, [0] * (n // 2) + [1] * (n - n // 2), [i // 3 for i in range(n)], [i % 2 for i in range(n)], [0] * max(0, n - 3) + [1, 2, 3][: min(n, 3)], [1, 2, 3][: min(n, 3)] + [0] * max(0, n - 3)]
            for t, depth, asym in itertools.product(tabs, (1, 2, 20, n) if n <= 300 else (2,), (False, True)):
                verify(ctx, t, depth, 0, asym)


PROP = Property("Q07", [
    Scenario("small", small_cases, small, "every table over k values up to length n, depth 0..6, both symmetries"),
    Scenario("runs", run_cases, runs, "every run-length profile"),
    Scenario("real", real_cases, real, "generated activation tables"),
    Scenario("usage", usage_cases, usage, "edited source lists, ordered pairs of tables, every table length"),
    Scenario("alive", alive_cases, alive, "several reduced tables alive together"),
], "model_checking", "state: distinct reduced form (head intervals, body, tail intervals); transition: one lookup / iteration step / (de)serialization; trace: one table "
   "checked against the full table", ["indices outside the table are not covered"])
