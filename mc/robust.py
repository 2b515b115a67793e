"""Usage patterns every stateless operator must survive, explored exhaustively over a set of variants of one operator.

A variant is (label, make, judge): make() builds a new operator through the public API, judge(ctx, out, x, msg) compares
one result with the reference.  The patterns:
  pairs   every ordered pair of variants alive together, built one after the other and used alternately (anything shared
          between instances: class attributes, module level caches keyed by too little)
  buffers one input array refilled in place between calls, results overwritten by the caller between calls
  sizes   every batch length / width of the list below, one after the other on one live operator, descending as well
"""
import itertools
import numpy as np

SMALL = list(range(1, 301))
LARGE = [500, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097]


HUGE = [10007, 65536, 131101]


def sizes(tier="quick", dense=300, huge=HUGE):
    return SMALL[:dense] + LARGE + ([8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537] if tier == "thorough" else []) + huge


def pairs(ctx, V, X, infer=lambda L, x: L.infer(x)):
    for (la, ma, ja), (lb, mb, jb) in itertools.permutations(V, 2):
        A = ma()
        for x in X:
            ja(ctx, infer(A, x.copy()), x, f"{la} before {lb} exists")
        B = mb()
        for x in X:
            jb(ctx, infer(B, x.copy()), x, f"{lb} next to {la}")
            ja(ctx, infer(A, x.copy()), x, f"{la} next to {lb}")
            ctx.op(3)
        del A
        A = ma()
        for x in X:
            ja(ctx, infer(A, x.copy()), x, f"{la} rebuilt next to {lb}")
        ctx.trace(); ctx.state((la, lb))


def buffers(ctx, V, X, infer=lambda L, x: L.infer(x)):
    """X: inputs of one shape and dtype."""
    for (l, mk, jd), seq in itertools.product(V, itertools.product(range(len(X)), repeat=3)):
        L = mk()
        buf = X[seq[0]].copy()
        outs = []
        for i in seq:
            buf[...] = X[i]
            out = infer(L, buf)
            jd(ctx, out, X[i], f"{l}: input buffer refilled in place {seq}")
            ctx.check(np.array_equal(buf, X[i]), f"{l}: the input buffer was modified")
            outs.append((out, np.array(out)))
            ctx.op()
        for out, keep in outs:
            ctx.equal(out, keep, f"{l}: an earlier result changed when the input buffer was refilled {seq}")
        L = mk()
        for i in seq:       # results overwritten by their owner
            x = X[i].copy()
            out = infer(L, x)
            jd(ctx, out, X[i], f"{l}: inference after the caller overwrote an earlier result {seq}")
            if isinstance(out, np.ndarray) and out.flags.writeable and not np.shares_memory(out, x):
                out[...] = 0
            ctx.op()
        ctx.trace(); ctx.state((l, seq))


def batches(ctx, V, gen, ns, infer=lambda L, x: L.infer(x)):
    """gen(n): a batch of n samples."""
    for l, mk, jd in V:
        L = mk()
        for n in itertools.chain(ns, reversed(ns[::7])):
            x = gen(n)
            out = infer(L, x.copy())
            ctx.check(len(out) == n, f"{l}: a batch of {n} gave {len(out)} results")
            jd(ctx, out, x, f"{l}: batch of {n}")
            ctx.op(n)
        ctx.trace(); ctx.state((l, len(ns)))
