"""Decoder of .tflite files (flatbuffers), just what the converter needs: the same description the stand-ins of stubs.py play."""
import struct
import numpy as np

TYPES = {0: "FLOAT32", 1: "FLOAT16", 2: "INT32", 3: "UINT8", 4: "INT64", 5: "STRING", 6: "BOOL", 7: "INT16", 8: "COMPLEX64", 9: "INT8", 10: "FLOAT64"}
NP = {"FLOAT32": "<f4", "FLOAT16": "<f2", "INT32": "<i4", "UINT8": "u1", "INT64": "<i8", "BOOL": "?", "INT16": "<i2", "INT8": "i1", "FLOAT64": "<f8"}


class Table:
    def __init__(self, b, pos):
        self.b, self.pos = b, pos
        self.vt = pos - struct.unpack_from("<i", b, pos)[0]
        self.n = (struct.unpack_from("<H", b, self.vt)[0] - 4) // 2

    def at(self, i):
        o = struct.unpack_from("<H", self.b, self.vt + 4 + 2 * i)[0] if i < self.n else 0
        return self.pos + o if o else None

    def num(self, i, fmt, default=0):
        p = self.at(i)
        return default if p is None else struct.unpack_from("<" + fmt, self.b, p)[0]

    def ref(self, i):
        p = self.at(i)
        return None if p is None else p + struct.unpack_from("<I", self.b, p)[0]

    def table(self, i):
        p = self.ref(i)
        return None if p is None else Table(self.b, p)

    def string(self, i):
        p = self.ref(i)
        return "" if p is None else self.b[p + 4:p + 4 + struct.unpack_from("<I", self.b, p)[0]].decode("utf8")

    def vec(self, i, fmt):
        p = self.ref(i)
        if p is None:
            return None
        n = struct.unpack_from("<I", self.b, p)[0]
        return list(struct.unpack_from(f"<{n}{fmt}", self.b, p + 4))

    def tables(self, i):
        p = self.ref(i)
        if p is None:
            return []
        return [Table(self.b, q + struct.unpack_from("<I", self.b, q)[0]) for q in range(p + 4, p + 4 + 4 * struct.unpack_from("<I", self.b, p)[0], 4)]


def decode(data):
    data = bytes(data)
    m = Table(data, struct.unpack_from("<I", data, 0)[0])
    codes = [max(c.num(0, "b"), c.num(3, "i")) for c in m.tables(1)]
    stored = [(c.num(0, "b"), c.num(3, "i")) for c in m.tables(1)]
    g = m.tables(2)[0]
    raw = [t.vec(0, "B") for t in m.tables(4)]
    tensors, used = [], {}
    for t in g.tables(0):
        q = t.table(4)
        quant = None
        if q is not None:
            s, z = q.vec(2, "f"), q.vec(3, "q")
            quant = {} if not s and not z else {"scale": [float(np.float32(v)) for v in s or []], "zero_point": z or []}
        d = {"name": t.string(3), "dtype": TYPES[t.num(1, "b")], "shape": t.vec(0, "i") or [], "buffer": t.num(2, "I"), "quantization": quant}
        if raw[d["buffer"]]:
            used[d["buffer"]] = d["dtype"]
        tensors.append(d)
    buffers = [None if not r else {"dtype": used.get(i, "UINT8"), "data": np.frombuffer(bytes(r), dtype=NP[used.get(i, "UINT8")]).tolist()} for i, r in enumerate(raw)]
    for t in tensors:
        if buffers[t["buffer"]] is None:
            t["buffer"] = 0
    ops = [{"opcode": o.num(0, "I"), "inputs": o.vec(1, "i") or [], "outputs": o.vec(2, "i") or []} for o in g.tables(3)]
    return {"version": m.num(0, "I"), "tensors": tensors, "buffers": buffers, "operators": ops, "opcodes": codes, "stored_codes": stored, "inputs": g.vec(1, "i") or [], "outputs": g.vec(2, "i") or [], "details": None}
