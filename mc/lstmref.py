"""Reference model of the quantized LSTM operator (JSON form) and a builder of operators for it."""
import itertools
import numpy as np
from fractions import Fraction
import ref

GATES = 4


def table(kind, in_dt, out_dt, k):
    lo, hi = ref.drange(in_dt); olo, ohi = ref.drange(out_dt)
    n = hi - lo + 1
    v = np.arange(lo, hi + 1)
    if kind == "wild":     # every entry distinct-ish, distinguishes the gates from each other
        return [int(((x * (2 * k + 3) * 5 + 17 * k) % (ohi - olo + 1)) + olo) for x in v]
    if kind == "sigmoid":
        return [int(np.clip(np.floor(1 / (1 + np.exp(-x / (8 + k))) * 256 - 128 + .5), olo, ohi)) for x in v]
    if kind == "tanh":
        return [int(np.clip(np.floor(np.tanh(x / (16 + k)) * 128 + .5), olo, ohi)) for x in v]
    if kind == "edge":
        return [int(olo if x < 0 else ohi) for x in v]
    raise ValueError(kind)


def node(s, zp, t=None, dtype="int8", lut=None, off=0, shape=None):
    a = None if t is None else np.array(t)
    return {"scale": s, "zero_point": zp,
            "tensor": {"tensor": None if t is None else a.tolist(), "shape": list(a.shape) if a is not None else (shape or [1]), "dtype": dtype, "name": "n"},
            "LUT": None if lut is None else {"LUT": lut, "reduced_LUT": None, "offset": off}}


def operator(p):
    """p: dict of everything (see E07); with p["bare"] zero points of 0 of nodes without tensor are left out (None)."""
    nd = (lambda s, zp, *a, **k: node(s, zp or None, *a, **k)) if p.get("bare") else node
    i = [nd(p["in_s"], p["in_zp"])]
    for part, s, z in (("K", "k_s", "k_zp"), ("U", "u_s", "u_zp")):
        i += [node(p[s][g], p[z][g], p[part][g]) for g in range(4)]
    i += [node(p["in_s"] * p["k_s"][g], p.get("b_zp", [0] * 4)[g], p["B"][g], "int32") for g in range(4)]
    i += [nd(p["u_s"][g] * p["h_s"], 0, None, "int32") for g in range(4)]
    i += [nd(p["ra_s"][g], p["ra_zp"][g], None, p["ra_dt"]) for g in range(4)]
    i += [nd(p["c_s"], p["c_zp"], None, p["c_dt"])]
    lo = ref.drange(p["ra_dt"])[0]
    for g in range(4):
        i += [nd(p["ra_s"][g], p["ra_zp"][g], None, p["ra_dt"], p["lut"][g], -lo), nd(p["g_s"][g], p["g_zp"][g])]
    i += [nd(p["c_s"], p["c_zp"], None, p["c_dt"], p["lut"][4], -ref.drange(p["c_dt"])[0]), nd(p["ca_s"], p["ca_zp"], None, p["c_dt"])]
    return {"op_type": p.get("op_type", "LSTM"), "name": "lstm", "description": "lstm", "inputs": i, "outputs": [nd(p["h_s"], p["h_zp"], None, p["h_dt"])],
            "attributes": {"return_sequences": {"value": [p["seq"]], "dtype": "bool"}, "n_cells": {"value": [np.array(p["K"][0]).shape[1]], "dtype": "int"}}}


class Ambiguous(Exception):
    """a rescaled value is within float noise of an integer: the truncated code is not determined"""


class Oracle:
    """Resolves undetermined truncations: replays a prefix of choices, then takes the first option of every new one."""

    def __init__(self, prefix):
        self.prefix, self.taken = prefix, []

    def __call__(self):
        i = len(self.taken)
        self.taken.append(self.prefix[i] if i < len(self.prefix) else 0)
        return self.taken[-1]

    def next(self):
        """Next prefix in depth first order, or None."""
        t = list(self.taken)
        while t and t[-1] == 1:
            t.pop()
        return t[:-1] + [1] if t else None


def trunc(v, exact, zero, oracle=None):
    """v: longdouble array; zero: mask of entries whose rescaled part is exactly zero"""
    if not exact:
        near = (np.abs(v - np.rint(v)) < 1e-9 * (1 + np.abs(v))) & ~zero
        if np.any(near):
            if oracle is None:
                raise Ambiguous()
            r = np.trunc(v).astype(np.int64)
            for i in np.argwhere(near):
                i = tuple(i)
                k = int(np.rint(v[i]))
                a, b = int(np.trunc(k - 0.5)), int(np.trunc(k + 0.5))     # truncation just below / just above the integer
                first = int(r[i])
                r[i] = first if not oracle() else (a + b - first)
            return r
    return np.trunc(v).astype(np.int64)


def explains(p, x, got, cap=4096):
    """Whether every sample's hidden state sequence `got` (batch, window, units; or the last step) is an outcome of the
    recurrence.  Truncations that float arithmetic does not determine are explored both ways."""
    for b in range(len(x)):
        prefix, n = [], 0
        while True:
            o = Oracle(prefix)
            H, _ = run(p, x[b:b + 1], o)
            H = H[0] if p["seq"] else H[0, -1]
            n += 1
            if np.array_equal(H, got[b]):
                break
            prefix = o.next()
            if prefix is None or n >= cap:
                return None if n >= cap else (b, H)
    return True


def run(p, x, oracle=None, inter=None):
    """x: int64 (batch, window, features) -> hidden states (batch, window, units) and the visited (h, c) states;
    inter: list that receives the intermediate codes of every step"""
    LD = np.longdouble
    ex = p.get("exact", True)
    x = np.asarray(x).astype(np.int64) - p["in_zp"]
    B, W, _ = x.shape
    n = np.array(p["K"][0]).shape[1]
    h = np.full((B, n), p["h_zp"], dtype=np.int64); c = np.full((B, n), p["c_zp"], dtype=np.int64)
    K = [np.array(p["K"][g], dtype=np.int64) - p["k_zp"][g] for g in range(4)]
    U = [np.array(p["U"][g], dtype=np.int64) - p["u_zp"][g] for g in range(4)]
    M1 = [LD(p["k_s"][g] * p["in_s"] / (p["h_s"] * p["u_s"][g])) for g in range(4)]
    M2 = [LD(p["u_s"][g] * p["h_s"] / p["ra_s"][g]) for g in range(4)]
    M3, M4, M5 = LD(p["g_s"][1]), LD(p["g_s"][0] * p["g_s"][2] / p["c_s"]), LD(p["g_s"][3] * p["ca_s"] / p["h_s"])
    rlo, rhi = ref.drange(p["ra_dt"]); clo, chi = ref.drange(p["c_dt"]); hlo, hhi = ref.drange(p["h_dt"])
    H, S = [], []
    for t in range(W):
        act, d = [], {"bias_add": [], "recurrent_add": [], "act": []}
        for g in range(4):
            a = x[:, t] @ K[g] + np.array(p["B"][g], dtype=np.int64) - p.get("b_zp", [0] * 4)[g]
            ba = trunc(a * M1[g], ex, a == 0, oracle)
            r = (h - p["h_zp"]) @ U[g] + ba
            v = np.clip(r * M2[g] + p["ra_zp"][g], rlo, rhi)
            ra = trunc(v, ex, (r == 0) | (v == rlo) | (v == rhi), oracle)
            code = np.array(p["lut"][g])[ra - rlo]
            act.append(code - p["g_zp"][g])
            d["bias_add"].append(ba); d["recurrent_add"].append(ra); d["act"].append(code)
        fz = act[1] * (c - p["c_zp"]); ig = act[0] * act[2]
        v = p["c_zp"] + M3 * fz + M4 * ig
        c = np.clip(trunc(v, ex, ((fz == 0) & (ig == 0)) | (v > chi + 1) | (v < clo - 1), oracle), clo, chi)
        ca = np.array(p["lut"][4])[c - clo]
        o = act[3] * (ca - p["ca_zp"])
        v = p["h_zp"] + M5 * o
        h = np.clip(trunc(v, ex, (o == 0) | (v > hhi + 1) | (v < hlo - 1), oracle), hlo, hhi)
        H.append(h); S.append((h, c))
        if inter is not None:
            d.update(cell_state=c, cell_state_act=ca, hidden_state=h)
            inter.append(d)
    return np.array(H).swapaxes(0, 1), S


def params(F, U_, kind="wild", zps=None, exact=True, ra_dt="int8", c_dt="int8", h_dt="int8", seed=0, seq=True, scales=None):
    """A deterministic family of LSTMs: weights a fixed arithmetic pattern, four distinguishable gates."""
    z = dict(in_zp=0, h_zp=0, c_zp=0, ca_zp=0, k_zp=[0] * 4, u_zp=[0] * 4, ra_zp=[0] * 4, g_zp=[0] * 4)
    z.update(zps or {})
    s = dict(in_s=2.0 ** -4, h_s=2.0 ** -7, c_s=2.0 ** -5, ca_s=2.0 ** -7, k_s=[2.0 ** -6, 2.0 ** -7, 2.0 ** -5, 2.0 ** -6],
             u_s=[2.0 ** -6, 2.0 ** -6, 2.0 ** -7, 2.0 ** -5], ra_s=[2.0 ** -4, 2.0 ** -3, 2.0 ** -4, 2.0 ** -5], g_s=[2.0 ** -8, 2.0 ** -7, 2.0 ** -7, 2.0 ** -8])
    if not exact:
        s = dict(in_s=0.031, h_s=0.0079, c_s=0.0233, ca_s=0.00783, k_s=[0.0143, 0.0081, 0.0217, 0.0119], u_s=[0.0151, 0.0093, 0.0187, 0.0139],
                 ra_s=[0.0571, 0.0433, 0.0617, 0.0377], g_s=[0.00391, 0.00389, 0.00787, 0.00393])
    s.update(scales or {})
    pat = lambda sh, k: ((np.arange(int(np.prod(sh))) * (7919 + 2 * k) + 1201 * k + 37 * seed) % 255 - 127).reshape(sh)
    p = dict(z); p.update(s)
    p.update(K=[pat((F, U_), g) for g in range(4)], U=[pat((U_, U_), g + 5) for g in range(4)],
             B=[(pat((U_,), g + 11) * 31) for g in range(4)], ra_dt=ra_dt, c_dt=c_dt, h_dt=h_dt, seq=seq, exact=exact,
             lut=[table(kind if kind != "real" else ("tanh" if g == 2 else "sigmoid"), ra_dt, "int8", g) for g in range(4)]
                 + [table("tanh" if kind == "real" else kind, c_dt, "int8", 4)])
    return p
