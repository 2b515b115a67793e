import itertools
import numpy as np
from kit import Property, Scenario
from itcl_quantization.quantization import operators as lib
from itcl_quantization.quantization.operators import Dtype
import ref

TYPES = ["int8", "int16", "int32"]
UT = ["uint8", "uint16", "uint32"]
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}


def pts(t, n):
    lo, hi = ref.drange(t)
    base = {lo, lo + 1, lo // 2, -2, -1, 0, 1, 2, 3, hi // 2, hi // 2 + 1, hi - 1, hi, 100, -100, 11, -12}
    for k in range(4, hi.bit_length() + 1, 3):
        base |= {2 ** k, -(2 ** k), 2 ** k - 1}
    return sorted(p for p in base if lo <= p <= hi)


def rng(d):
    return int(d.min()), int(d.max())


def verify(ctx, r, exact, ta, tb, **d):
    """The value is exact, its dtype contains it, is of the operands' kind, and at least as wide as both."""
    v = np.asarray(r.value)
    ex = np.asarray(exact, dtype=object)
    ctx.check(v.shape == ex.shape, "result shape", got=v.shape, want=ex.shape, **d)
    ok = all(int(x) == int(y) for x, y in zip(v.ravel().tolist(), ex.ravel().tolist()))
    ctx.check(ok, "inexact result", got=v, want=ex.tolist(), **d)
    lo, hi = rng(r)
    flat = [int(x) for x in ex.ravel().tolist()]
    ctx.check(not flat or (lo <= min(flat) and max(flat) <= hi), "result dtype cannot hold the result", dtype=str(r), **d)
    ba, bb = int(ta.lstrip("uint")), int(tb.lstrip("uint"))
    ctx.check(str(r).rstrip("0123456789") == ta.rstrip("0123456789"), "result changed kind", dtype=str(r), **d)
    ctx.check(r.bits >= max(ba, bb) and r.bits <= 2 * max(ba, bb), "result width", bits=r.bits, **d)
    if ta == tb:
        l, h = ref.drange(ta)
        fits = not flat or (l <= min(flat) and max(flat) <= h)
        ctx.check(r.bits == (ba if fits else 2 * ba), "width must grow exactly when the result overflows", bits=r.bits, fits=fits, **d)


def scalar_cases(tier):
    for ta, tb in itertools.product(TYPES, TYPES):
        yield {"a": ta, "b": tb}
    for ta, tb in itertools.product(UT, UT):
        yield {"a": ta, "b": tb}


def scalars(case, ctx):
    """Every pair of boundary values, every operator, both operand orders."""
    ta, tb = case["a"], case["b"]
    for x, y in itertools.product(pts(ta, 0), pts(tb, 0)):
        for o, f in OPS.items():
            ex = f(x, y)
            if ta[0] == "u" and ex < 0:
                continue
            a, b = Dtype(x, ta), Dtype(y, tb)
            r = f(a, b)
            ctx.op()
            verify(ctx, r, ex, ta, tb, op=o, a=x, b=y, pair=[ta, tb])
            ctx.check(int(a.value) == x and int(b.value) == y and str(a) == ta and str(b) == tb, "an operand was modified", op=o)
            ctx.state((o, ex, str(r)))
    ctx.trace()


def array_cases(tier):
    for t in ["int8", "int16", "int32"]:
        for k in range(0, 256, 16):
            yield {"t": t, "from": k}


def arrays(case, ctx):
    """int8: all 65536 pairs, as arrays and as array-with-scalar; wider types: scaled copies of the same grid."""
    t = case["t"]
    mul = {"int8": 1, "int16": 257, "int32": 16843009}[t]
    lo, hi = ref.drange(t)
    allv = [min(hi, max(lo, v * mul)) for v in range(-128, 128)]
    for i in range(case["from"], case["from"] + 16):
        x = allv[i]
        for o, f in OPS.items():
            ya = np.array(allv, dtype=np.int64).astype(t)
            xa = np.full(len(allv), x, dtype=t)
            ex = [f(x, y) for y in allv]
            r = f(Dtype(xa, t), Dtype(ya, t))
            ctx.op(len(allv))
            verify(ctx, r, ex, t, t, op=o, x=x, t=t)
            sel = [v for v, e in zip(allv, ex) if lo <= e <= hi]     # an array no element of which overflows keeps its type
            if sel:
                r = f(Dtype(np.full(len(sel), x, dtype=t), t), Dtype(np.array(sel, dtype=t), t))
                ctx.op(len(sel)); verify(ctx, r, [f(x, y) for y in sel], t, t, op=o, x=x)
            if len(sel) < len(allv) and sel:                          # one overflowing element at either end widens all
                bad = next(v for v, e in zip(allv, ex) if not lo <= e <= hi)
                for arr in ([bad] + sel, sel + [bad]):
                    r = f(Dtype(np.full(len(arr), x, dtype=t), t), Dtype(np.array(arr, dtype=t), t))
                    ctx.op(len(arr)); verify(ctx, r, [f(x, y) for y in arr], t, t, op=o, x=x)
            ctx.check(np.array_equal(ya, np.array(allv)) and np.all(xa == x), "operand array modified", op=o)
            ctx.state((o, x, str(r), np.asarray(r.value)))
    ctx.trace()


def chain_cases(tier):
    for o in itertools.product("+-*", repeat=3 if tier == "thorough" else 2):
        yield {"ops": "".join(o)}


def chains(case, ctx):
    """Expression chains ((a o b) o c)...: every operand tuple of the alphabet; plain numbers on the right."""
    vals = [-128, -127, -3, 0, 1, 64, 127]
    for vs in itertools.product(vals, repeat=len(case["ops"]) + 1):
        acc, ex = Dtype(vs[0], "int8"), vs[0]
        for o, v in zip(case["ops"], vs[1:]):
            prev = acc
            acc = OPS[o](acc, Dtype(v, "int8"))
            ex = OPS[o](ex, v)
            ctx.op()
            ctx.check(int(acc.value) == ex, "chained expression is inexact", ops=case["ops"], values=vs, got=int(acc.value), want=ex)
            lo, hi = rng(acc)
            ctx.check(lo <= ex <= hi, "chained result does not fit its dtype", ops=case["ops"], values=vs, dtype=str(acc))
            ctx.check(acc.bits >= prev.bits, "a chain narrowed its dtype", ops=case["ops"], values=vs)
        for o, f in OPS.items():
            verify(ctx, f(Dtype(vs[0], "int8"), vs[1]), f(vs[0], vs[1]), "int8", "int8", lit=o, a=vs[0], b=vs[1])
        ctx.state((case["ops"], ex, str(acc))); ctx.trace()


SHAPES = [(), (1,), (3,), (1, 1), (2, 3), (3, 1), (2, 1, 3), (0,), (2, 0)]
FORMS = {"str": lambda t: t, "upper": lambda t: t.upper(), "class": lambda t: getattr(np, t), "dtype": np.dtype}


def rank_cases(tier):
    for t in TYPES + UT:
        for f in FORMS:
            yield {"t": t, "form": f}


def ranks(case, ctx):
    """Every pair of broadcastable shapes (rank 0-3, also empty), every operator, every position of one extreme
    element; operands as Dtype or plain array/number; the dtype named every way numpy and the library name one."""
    t = case["t"]
    dt = FORMS[case["form"]](t)
    lo, hi = ref.drange(t)
    d = Dtype(3, dt)
    ctx.check(str(d) == t and d.bits == int(t.lstrip("uint")) and rng(d) == (lo, hi), "dtype named this way is misread",
              form=case["form"], got=[str(d), d.bits, rng(d)])
    inferred = Dtype(np.dtype(t).type(5))
    ctx.check(str(inferred) == t and rng(inferred) == (lo, hi), "dtype inferred from a numpy value", got=str(inferred))
    for sa, sb in itertools.product(SHAPES, SHAPES):
        try:
            so = np.broadcast_shapes(sa, sb)
        except ValueError:
            continue
        na, nb = int(np.prod(sa)), int(np.prod(sb))
        for o, f in OPS.items():
            for pos in range(-1, na):
                a = [7 + i for i in range(na)]
                b = [2 + (i % 3) for i in range(nb)]
                if pos >= 0:
                    a[pos] = hi if o != "-" or t[0] == "u" else lo
                A, B = np.array(a, dtype=t).reshape(sa), np.array(b, dtype=t).reshape(sb)
                want = f(np.array(a, dtype=object).reshape(sa), np.array(b, dtype=object).reshape(sb))
                for other in ("Dtype", "plain"):
                    for infer in (False, True):
                        x = Dtype(A.copy()) if infer else Dtype(A.copy(), dt)
                        y = Dtype(B.copy(), dt) if other == "Dtype" else (int(B) if sb == () else B.copy())
                        r = f(x, y)
                        ctx.op()
                        ctx.check(np.asarray(r.value).shape == so, "result shape", a=sa, b=sb, got=np.asarray(r.value).shape)
                        verify(ctx, r, want, t, t, op=o, a=a, b=b, shapes=[sa, sb], other=other)
                        ctx.check(np.array_equal(x.value, A), "operand modified", op=o)
                        ctx.state((o, sa, sb, pos, str(r)))
    ctx.trace()


def usage_cases(tier):
    return [{"what": w} for w in ("helpers", "augmented", "buffers")] + [{"what": "sizes", "part": k} for k in range(4)]


def usage(case, ctx):
    """The widening helpers on all pairs, augmented assignment, refilled operands, every array length with one overflowing element."""
    if case["what"] == "helpers":
        for bits, nm in ((8, "int8"), (16, "int16"), (32, "int32")):
            v = pts(nm, 0) if bits > 8 else list(range(-128, 128))
            for o, f, h in (("+", lambda a, b: a + b, getattr(lib, f"{nm}_addition")), ("*", lambda a, b: a * b, getattr(lib, f"{nm}_multiplication"))):
                A, B = (np.array(g, dtype=nm) for g in np.meshgrid(v, v, indexing="ij"))
                for x, y in ((A, B), (A.astype(np.int64), B.astype(np.int64)), (A.ravel(), B.ravel())):
                    r = np.asarray(h(x, y))
                    ctx.equal(r.astype(np.int64).reshape(A.shape), f(A.astype(np.int64), B.astype(np.int64)), f"{nm} {o} helper")
                    ctx.check(r.dtype == np.dtype(f"int{bits * 2}"), f"{nm} {o} helper returns {r.dtype}"); ctx.op(r.size)
                for x, y in itertools.product(v if bits > 8 else v[::5], repeat=2):
                    ctx.check(int(h(x, y)) == f(x, y) and int(h(np.dtype(nm).type(x), np.dtype(nm).type(y))) == f(x, y), f"{nm} {o} helper on {x}, {y}"); ctx.op(2)
                ctx.state((nm, o)); ctx.trace()
    elif case["what"] == "augmented":
        for t in TYPES:
            for x, y in itertools.product(pts(t, 0), repeat=2):
                for o, f in OPS.items():
                    for arr in (False, True):
                        a0 = Dtype(np.array([x, 1], dtype=t) if arr else x, t)
                        a, b = a0, Dtype(np.array([y, 1], dtype=t) if arr else y, t)
                        if o == "+":
                            a += b
                        elif o == "-":
                            a -= b
                        else:
                            a *= b
                        ex = [f(x, y), f(1, 1)] if arr else f(x, y)
                        verify(ctx, a, np.array(ex, dtype=object) if arr else ex, t, t, op=o + "=", a=x, b=y)
                        ctx.check(np.array_equal(a0.value, [x, 1] if arr else x) and str(a0) == t, "augmented assignment modified its left operand", op=o, a=x, b=y)
                        ctx.op()
            ctx.state(t); ctx.trace()
    elif case["what"] == "buffers":
        for t in TYPES:
            lo, hi = ref.drange(t)
            vecs = [[hi, 1, lo], [1, 2, 3], [lo, lo, hi], [0, -1, 5]]
            for seq in itertools.product(range(4), repeat=3):
                buf, other = np.zeros(3, dtype=t), Dtype(np.array([3, 2, -1], dtype=t), t)
                for o, f in OPS.items():
                    outs = []
                    for k in seq:
                        buf[...] = vecs[k]
                        r = f(Dtype(buf, t), other)
                        ex = [f(a, b) for a, b in zip(vecs[k], (3, 2, -1))]
                        verify(ctx, r, np.array(ex, dtype=object), t, t, op=o, seq=seq); outs.append((r, ex)); ctx.op()
                    for r, ex in outs:
                        verify(ctx, r, np.array(ex, dtype=object), t, t, op=o, note="earlier result")
            ctx.state(t); ctx.trace()
    else:
        import robust
        ns = robust.sizes("thorough")
        for n in [v for i, v in enumerate(ns) if i % 4 == case["part"]]:
            for t in ("int8", "int16") if n > 300 else TYPES:
                lo, hi = ref.drange(t)
                for o, f in OPS.items():
                    for pos in {0, n // 2, n - 1} | {-1}:
                        a = np.arange(n) % 11 - 5; b = np.arange(n) % 7 - 3
                        if pos >= 0:
                            a[pos] = lo; b[pos] = 1 if o == "-" else -1 if o == "+" else 2
                        r = f(Dtype(a.astype(t), t), Dtype(b.astype(t), t))
                        ex = f(a, b)
                        ctx.equal(np.asarray(r.value).astype(np.int64), ex, f"{n} elements, {o}")
                        ctx.check(r.bits == int(t[3:]) * (2 if pos >= 0 else 1), "width must grow exactly when the result overflows", n=n, pos=pos, bits=r.bits, t=t)
                        ctx.op(n)
            ctx.state(n)
        ctx.trace()


PROP = Property("Q05", [
    Scenario("scalars", scalar_cases, scalars, "boundary pairs of every pair of widths of one kind"),
    Scenario("arrays", array_cases, arrays, "all 65536 int8 pairs (scaled to 16/32 bits), overflow at any position"),
    Scenario("ranks", rank_cases, ranks, "every pair of broadcastable shapes up to rank 3, every position of an extreme element, every way of naming the dtype"),
    Scenario("usage", usage_cases, usage, "widening helpers on all pairs, augmented assignment, refilled operands, every array length"),
    Scenario("chains", chain_cases, chains, "all 2-operator (thorough: 3) chains"),
], "model_checking", "state: distinct (operator, result, dtype); transition: one element computed; trace: one operand family compared with Python's exact integers",
   ["unsigned subtraction with a negative result and 64-bit operands are outside the statement"])
