import itertools, re
import numpy as np
from kit import Property, Scenario
from itcl_quantization import Quantization
from itcl_quantization.quantization.operators import GenericDtype
import ref

ALPH = ["i", "n", "t", "u", "8", "0", "1", "-", "I", "U", " ", "."]
GOOD = re.compile(r"u?int[1-9][0-9]*", re.I)


def string_cases(tier):
    n = 6 if tier == "thorough" else 5
    for a in ALPH:
        for b in (ALPH if n == 6 else [None]):
            yield {"prefix": a + (b or ""), "len": n}
    yield {"prefix": "", "len": 0}


def accept(name):
    """None if rejected, else what it reports."""
    try:
        d = GenericDtype(name)
    except Exception:
        return None
    return d


def verify(ctx, name, ctor):
    good = bool(GOOD.fullmatch(name))
    try:
        d = ctor(name)
    except Exception:
        d = None
    ctx.op()
    if not good:
        ctx.check(d is None, "a malformed dtype name was accepted", name=name)
        ctx.state("rejected")
        return
    ctx.check(d is not None, "a valid dtype name was rejected", name=name)
    lo, hi = ref.drange(name)
    g = d.dtype if isinstance(d, Quantization) else d
    mn, mx, st = g.min(), g.max(), str(g)
    ctx.check((mn, mx) == (lo, hi), "wrong range", name=name, got=[mn, mx], want=[lo, hi])
    ctx.check(type(mn) is int and type(mx) is int, "range is not made of Python ints", name=name)
    ctx.check(st == name.lower() and repr(g) == name.lower(), "wrong canonical name", name=name, got=st)
    ctx.state((lo, hi, st))


def strings(case, ctx):
    """Every string over the alphabet up to the length bound (u?int<bits> is spelled by it), against the grammar."""
    p = case["prefix"]
    if case["len"] == 0:
        for k in range(0, 2):
            for t in itertools.product(ALPH, repeat=k):
                verify(ctx, "".join(t), GenericDtype)
        return
    for k in range(0, case["len"] - len(p) + 1):
        for t in itertools.product(ALPH, repeat=k):
            verify(ctx, p + "".join(t), GenericDtype)
    ctx.trace()


def names_cases(tier):
    return [{"kind": "int"}, {"kind": "uint"}, {"kind": "edit"}, {"kind": "numpy"}]


def names(case, ctx):
    """Every width 1..64 in every letter case; every single-character edit of every name; the numpy types."""
    if case["kind"] in ("int", "uint"):
        k = case["kind"]
        for b in range(1, 65):
            for c in itertools.product(*[(ch, ch.upper()) for ch in k]):
                for ctor in (GenericDtype, Quantization):
                    verify(ctx, "".join(c) + str(b), ctor)
            q = Quantization(k + str(b))
            lo, hi = ref.drange(k + str(b))
            ctx.check(q.min_value() == lo and q.max_value() == hi and q.dtype_str() == k + str(b), "helper range or name", bits=b, kind=k)
            ctx.trace()
    elif case["kind"] == "edit":
        for base in ("int8", "uint8", "int16", "uint4", "int32", "uint12"):
            for ch in [chr(c) for c in range(33, 127)] + [" ", "\t", "\n"]:
                for i in range(len(base) + 1):
                    for s in (base[:i] + ch + base[i:], base[:i] + ch + base[i + 1:]):
                        verify(ctx, s, GenericDtype)
            for i in range(len(base)):
                verify(ctx, base[:i] + base[i + 1:], GenericDtype)
            ctx.trace()
    else:
        for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64):
            d = GenericDtype(t)
            lo, hi = ref.drange(t.__name__)
            ctx.check((d.min(), d.max()) == (lo, hi), "numpy type range", t=t.__name__)
            ctx.check(str(d) == t.__name__, "numpy type name", t=t.__name__)
            q = Quantization(t)
            ctx.check(q.min_value() == lo and q.max_value() == hi and q.dtype_str() == t.__name__, "numpy type helper", t=t.__name__)
            s = Quantization(t.__name__)
            ctx.check((s.min_value(), s.max_value(), s.dtype_str()) == (q.min_value(), q.max_value(), q.dtype_str()), "numpy type and its name disagree", t=t.__name__)
            ctx.op(4); ctx.state((lo, hi, t.__name__))
        for bad in (np.float32, np.float64, np.bool_, np.complex64, np.str_, 8, 8.0, None, [], {}, object(), b"int8", ("int8",)):
            try:
                GenericDtype(bad)
                ok = False
            except TypeError:
                ok = True
            ctx.op(); ctx.check(ok, "an unusable type was not rejected with TypeError", bad=repr(bad))
        ctx.trace()


def alive_cases(tier):
    return [{"n": 2}, {"n": 3}]


def alive(case, ctx):
    """Several descriptors alive at once, created in every order: each keeps its own range."""
    pool = ["int8", "uint8", "int4", "uint16", "np.int8", "np.uint32", "int32"]
    for seq in itertools.permutations(pool, case["n"]):
        ds = [Quantization(ref.mkdtype(n)) for n in seq]
        ctx.op(len(ds))
        for n, d in zip(seq, ds):
            lo, hi = ref.drange(n)
            ctx.check((d.min_value(), d.max_value()) == (lo, hi), "range changed by another descriptor", seq=seq)
            ctx.check(d.dtype_str() == n.replace("np.", ""), "name changed by another descriptor", seq=seq)
        ctx.state(seq); ctx.trace()


PROP = Property("Q04", [
    Scenario("strings", string_cases, strings, "all strings over a 12-letter alphabet up to length 5 (thorough: 6)"),
    Scenario("names", names_cases, names, "all widths 1..64, all letter cases, all one-character edits, numpy types"),
    Scenario("alive", alive_cases, alive, "descriptors alive together in every order"),
], "model_checking", "state: distinct (min, max, name) verdicts; transition: one name parsed; trace: one family of names compared with the grammar u?int<bits>",
   ["'float<bits>' names, which the code tolerates, are not covered by the statement and not spelled by the alphabet"])
