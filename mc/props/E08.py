import itertools
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario
from itcl_inference_engine.layers.itclq.lstm import LSTM
import lstmref, robust
from props.E07 import ZPS


def mk(zps, seq, exact, F=2, U=2, kind="wild"):
    return LSTM.from_model(lstmref.operator(lstmref.params(F, U, kind, ZPS[zps], exact, seq=seq)))


def batch_cases(tier):
    for z in ZPS:
        for seq in (True, False):
            for exact in (True, False):
                yield {"zps": z, "seq": seq, "exact": exact}


SAMPLES = [[[1, 2], [3, 4], [-128, 127]], [[0, 0], [0, 0], [0, 0]], [[127, 127], [-128, -128], [5, -5]], [[-1, 1], [100, -100], [7, 7]]]


def batching(c, ctx):
    """Every sub-batch (every subset and order of the samples) gives each sample the result it has alone."""
    alone = [np.asarray(mk(c["zps"], c["seq"], c["exact"]).infer(np.array([s])))[0] for s in SAMPLES]
    for n in range(1, 5):
        for sel in itertools.permutations(range(4), n):
            L = mk(c["zps"], c["seq"], c["exact"])
            x = np.array([SAMPLES[i] for i in sel]); keep = x.copy()
            y = np.asarray(L.infer(x))
            ctx.check(len(y) == n, f"batch of {n} gave {len(y)} results")
            for k, i in enumerate(sel):
                ctx.equal(y[k], alone[i], "a sample's result depends on the rest of its batch", order=sel)
            ctx.check(np.array_equal(keep, x), "input modified")
            ctx.op(n); ctx.trace(); ctx.state((sel, y))
    for n in (5, 8):
        x = np.array([SAMPLES[i % 4] for i in range(n)])
        y = np.asarray(mk(c["zps"], c["seq"], c["exact"]).infer(x))
        for k in range(n):
            ctx.equal(y[k], alone[k % 4], "a sample's result depends on its batch")
    if c["seq"]:     # causality and prefix property
        full = np.asarray(mk(c["zps"], True, c["exact"]).infer(np.array(SAMPLES)))
        for w in (1, 2):
            ctx.equal(np.asarray(mk(c["zps"], True, c["exact"]).infer(np.array(SAMPLES)[:, :w])), full[:, :w], "the output at a step depends on later steps")
            ctx.equal(np.asarray(mk(c["zps"], False, c["exact"]).infer(np.array(SAMPLES)[:, :w])), full[:, w - 1], "last output differs from the sequence's last element")
            ctx.op(2)


def hist_cases(tier):
    for z in ("zero", "all"):
        for seq in (True, False):
            yield {"zps": z, "seq": seq, "n": 3 if tier == "quick" else 4}


def history(c, ctx):
    """Every inference sequence over two live layers and windows/batches of different lengths equals fresh inference."""
    xs = [np.array(SAMPLES[:1]), np.array(SAMPLES[1:3]), np.array(SAMPLES)[:, :1], np.array(SAMPLES[2:4])[:, ::-1]]
    make = lambda: [mk(c["zps"], c["seq"], True), mk("real", True, True, kind="real")]
    fresh = {(l, i): np.asarray(make()[l].infer(xs[i])).copy() for l in range(2) for i in range(len(xs))}
    ps = [lstmref.params(2, 2, "wild", ZPS[c["zps"]], True, seq=c["seq"]), lstmref.params(2, 2, "real", ZPS["real"], True, seq=True)]
    for (l, i), y in fresh.items():
        want = lstmref.run(ps[l], xs[i])[0]
        ctx.equal(y, want if ps[l]["seq"] else want[:, -1], "a new LSTM, first inference")
    menu = sorted(fresh)
    for seq in itertools.product(range(len(menu)), repeat=c["n"]):
        L = make(); outs = []
        for k in seq:
            l, i = menu[k]
            y = L[l].infer(xs[i])
            ctx.equal(np.asarray(y), fresh[menu[k]], "LSTM inference depends on earlier inferences", seq=seq)
            outs.append((y, menu[k])); ctx.op(); ctx.state((k, np.asarray(y)))
        for y, k in outs:
            ctx.equal(np.asarray(y), fresh[k], "an earlier result changed", seq=seq)
        ctx.trace()


def long_cases(tier):
    return [{"zps": z, "seq": s, "exact": e} for z in ("zero", "all", "real") for s in (True, False) for e in (True, False)]


def lengths(c, ctx):
    """Every batch length up to 300 and window length up to 300 (quick: the dense range to 71 and the marked ones): each sample as alone, each step as in the window cut there;
    refilled and overwritten buffers."""
    pat = lambda *sh: (np.arange(int(np.prod(sh))).reshape(sh) * 7919 + 13) % 256 - 128
    L = mk(c["zps"], c["seq"], c["exact"])
    pool = pat(7, 2, 2)
    alone = [np.asarray(mk(c["zps"], c["seq"], c["exact"]).infer(s[None]))[0] for s in pool]
    ns = robust.sizes(ctx.tier, 300 if c["exact"] else 70)
    for n in ns + ns[::-9]:
        k = (np.arange(n) * 3) % 7
        y = np.asarray(L.infer(pool[k]))
        ctx.equal(y, np.array(alone)[k], f"a sample's result depends on its batch of {n}"); ctx.op(n)
    full = np.asarray(mk(c["zps"], True, c["exact"]).infer(pat(2, 300, 2)))
    for w in range(1, 301) if ctx.thorough else [*range(1, 72), 99, 100, 127, 128, 129, 199, 255, 256, 257, 300]:
        y = np.asarray(L.infer(pat(2, 300, 2)[:, :w]))
        ctx.equal(y, full[:, :w] if c["seq"] else full[:, w - 1], f"window of {w} steps"); ctx.op()
    jd = lambda ctx, y, x, m: ctx.equal(np.asarray(y), np.asarray(mk(c["zps"], c["seq"], c["exact"]).infer(x.copy())), m)
    robust.buffers(ctx, [("LSTM", lambda: mk(c["zps"], c["seq"], c["exact"]), jd)], [pool[:2], pool[2:4], pool[4:6]])
    robust.buffers(ctx, [("LSTM", lambda: mk(c["zps"], c["seq"], c["exact"]), jd)], [pool[:1], pool[2:3]])
    robust.buffers(ctx, [("LSTM", lambda: mk(c["zps"], c["seq"], c["exact"]), jd)], [pool[:2, :1], pool[2:4, :1]])
    ctx.state(full); ctx.trace()


PROP = Property("E08", [
    Scenario("batching", batch_cases, batching, "all sub-batches in all orders, causality"),
    Scenario("lengths", long_cases, lengths, "every batch and window length up to 300, refilled buffers"),
    Scenario("history", hist_cases, history, "all inference sequences over two live layers"),
], "model_checking", "state: (batch order, result); transition: one sample / one inference; trace: one batch or history compared with isolated inference")
