import itertools
from fractions import Fraction
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.util.floating import FloatingIntegerApprox

MAN = [1.0, 1 + 2.0 ** -52, 1 + 2.0 ** -31, 1 + 2.0 ** -30, 1.25, 4 / 3, 1.5, 1.7, 2 - 2.0 ** -30, 2 - 2.0 ** -31, 2 - 2.0 ** -32,
       2 - 2.0 ** -40, 2 - 2.0 ** -52] + [1 + k / 32 for k in range(32)]


def cases(tier):
    for lo in range(-31, 29, 5 if tier == "quick" else 1):
        yield {"elo": lo, "ehi": min(lo + (5 if tier == "quick" else 1), 29)}


def values(fp, dense):
    out = set(range(-300, 301)) if dense else set()
    F = Fraction(fp)
    for t in (0, 1, -1, 2, 7, -100, 127, 255, 1000, -32768, 32767, 2 ** 20):
        base = int((Fraction(2 * t + 1, 2)) / F) if F else 0
        for d in (-2, -1, 0, 1, 2):
            out.add(base + d)
    for k in range(32):
        out |= {2 ** k, -2 ** k, 2 ** k - 1, 1 - 2 ** k}
    return sorted(v for v in out if abs(v) < 2 ** 31)


def nearest(fp, v):
    """(least, greatest) acceptable integer for fp*v, rounding halves up; the multiplier has 31 significant bits"""
    t = Fraction(fp) * v
    m = Fraction(fp)
    tol = abs(t) / 2 ** 31 if m.numerator & (m.numerator - 1) else 0
    h = Fraction(1, 2)
    return (t - tol + h).__floor__(), (t + tol + h).__floor__()


def scan(case, ctx):
    """Integer and float mode over every binade, mantissa grid, half-way points; python ints and arrays agree."""
    for e in range(case["elo"], case["ehi"]):
        for m in MAN:
            fp = m * 2.0 ** e
            vs = values(fp, e % 5 == 0)
            I, Fm = FloatingIntegerApprox(fp, integer_only=True), FloatingIntegerApprox(fp, integer_only=False)
            want = [nearest(fp, v) for v in vs]
            got = []
            for v, (a, b) in zip(vs, want):
                g = I * v
                ctx.check(a <= g <= b, f"integer multiplication by {fp!r} of {v}: {g}, expected {a}..{b}")
                ctx.check(Fm * v == v * fp, f"float multiplication by {fp!r} of {v}: {Fm * v}")
                got.append(int(g))
            arr = np.array(vs, dtype=np.int64)
            keep = arr.copy()
            ctx.equal(np.asarray(I * arr), np.array(got), f"integer multiplication by {fp!r}: array differs from scalars")
            ctx.equal(np.asarray(I * arr.reshape(1, -1)), np.array(got).reshape(1, -1), "2-D array")
            ctx.equal(np.asarray(Fm * arr), arr * fp, f"float multiplication by {fp!r} of an array")
            ctx.check(np.array_equal(arr, keep), "operand modified")
            ctx.op(4 * len(vs)); ctx.trace(); ctx.state((fp, tuple(got)))


def default_cases(tier):
    return [{}]


def default(case, ctx):
    """The default mode is integer-only; two values alive at once do not influence each other."""
    fps = [0.3, 0.5, 1.0, 2.0 ** -20, 100.25]
    for seq in itertools.product(range(len(fps)), repeat=3):
        A = [FloatingIntegerApprox(f) for f in fps]
        for k in seq:
            for v in (-1001, -3, -1, 0, 1, 5, 255, 123456):
                a, b = nearest(fps[k], v)
                g = A[k] * v
                ctx.check(a <= g <= b and int(g) == g, f"{fps[k]} * {v} = {g}, expected {a}..{b}")
                ctx.op()
            ctx.state((k, int(A[k] * 1000)))
        ctx.trace()


def usage_cases(tier):
    return [{"what": w} for w in ("pairs", "arrays")]


def usage(case, ctx):
    """Ordered pairs of nearly equal multipliers in both modes; every array length, rank and integer carrier; refilled operands."""
    import robust
    if case["what"] == "pairs":
        fps = [(f, m) for f in (0.3, 0.3 * (1 + 2.0 ** -20), 0.30000001, 0.6, 0.15, 3.0, 2.0 ** -3, 2.0 ** -4) for m in (True, False)]
        vs = [-1000000007, -5, -1, 1, 3, 255, 70000, 2 ** 31 - 1]

        def judge(o, f, m):
            for v in vs:
                g = o * v
                if m:
                    a, b = nearest(f, v)
                    ctx.check(a <= g <= b and int(g) == g, f"{f!r} * {v} = {g}, expected {a}..{b}")
                else:
                    ctx.check(g == v * f, f"{f!r} * {v} = {g} in float mode")
                ctx.op()
        for (f, m), (f2, m2) in itertools.permutations(fps, 2):
            A = FloatingIntegerApprox(f, integer_only=m); judge(A, f, m)
            B = FloatingIntegerApprox(f2, integer_only=m2); judge(B, f2, m2); judge(A, f, m)
            ctx.trace(); ctx.state((f, m, f2, m2))
        return
    for f in (0.3, 2.0 ** -10, 7.7):
        I = FloatingIntegerApprox(f)
        for n in robust.sizes(ctx.tier):
            x = (np.arange(n, dtype=np.int64) * 104729 + 17 * n) % 200001 - 100000
            for xx in (x, x.reshape(1, n), x.reshape(n, 1)) + ((x.reshape(2, -1),) if n % 2 == 0 else ()):
                g = np.asarray(I * xx).reshape(-1)
                t = np.asarray(x, dtype=np.longdouble) * np.longdouble(f)
                tol = np.abs(t) * np.longdouble(2.0) ** -31
                bad = ~((g >= np.floor(t - tol + 0.5)) & (g <= np.floor(t + tol + 0.5)))
                ctx.check(not bad.any() and np.shape(I * xx) == xx.shape, f"{f!r} * array of shape {xx.shape}: {int(bad.sum())} wrong elements")
                ctx.op(n)
        buf = np.zeros(4, dtype=np.int64)
        for vals in itertools.product((-7, 0, 1, 100), repeat=4):
            buf[...] = vals
            g = np.asarray(I * buf)
            for v, r in zip(vals, g):
                a, b = nearest(f, v)
                ctx.check(a <= r <= b, f"{f!r} * {v} = {r} after the operand was refilled")
            ctx.op(4)
        ctx.trace(); ctx.state(f)


PROP = Property("E03", [
    Scenario("binades", cases, scan, "every binade x mantissa grid x half-way points"),
    Scenario("usage", usage_cases, usage, "ordered pairs of nearly equal multipliers, every array length, refilled operands"),
    Scenario("default", default_cases, default, "sequences over several live multipliers"),
], "model_checking", "state: (multiplier, results); transition: one multiplication compared with the exact rational product; trace: one multiplier against its model",
   ["0 < multiplier in [2^-31, 2^29); int32 operands"])
