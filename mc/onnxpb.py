"""The part of the ONNX protobuf format the converter reads, decoded with the attribute names of the onnx library."""
import struct
from types import SimpleNamespace

STR, MSG, INT, FLOATS, INTS, BYTES = range(6)
DIM = {1: ("dim_value", INT, False), 2: ("dim_param", STR, False)}
SHAPE = {1: ("dim", DIM, True)}
TENSORTYPE = {1: ("elem_type", INT, False), 2: ("shape", SHAPE, False)}
TYPE = {1: ("tensor_type", TENSORTYPE, False)}
VALUE = {1: ("name", STR, False), 2: ("type", TYPE, False)}
TENSOR = {1: ("dims", INTS, True), 2: ("data_type", INT, False), 4: ("float_data", FLOATS, True), 5: ("int32_data", INTS, True), 8: ("name", STR, False), 9: ("raw_data", BYTES, False)}
NODE = {1: ("input", STR, True), 2: ("output", STR, True), 3: ("name", STR, False), 4: ("op_type", STR, False), 7: ("domain", STR, False)}
GRAPH = {1: ("node", NODE, True), 2: ("name", STR, False), 5: ("initializer", TENSOR, True), 11: ("input", VALUE, True), 12: ("output", VALUE, True), 13: ("value_info", VALUE, True)}
MODEL = {1: ("ir_version", INT, False), 7: ("graph", GRAPH, False)}


def _varint(b, i):
    r = s = 0
    while True:
        c = b[i]
        i += 1
        r |= (c & 127) << s
        s += 7
        if c < 128:
            return (r - (1 << 64) if r >> 63 else r), i


def blank(spec):
    o = SimpleNamespace()
    for name, kind, rep in spec.values():
        setattr(o, name, [] if rep else blank(kind) if isinstance(kind, dict) else "" if kind == STR else b"" if kind == BYTES else 0)
    return o


def decode(b, spec=MODEL):
    o, i = blank(spec), 0
    while i < len(b):
        key, i = _varint(b, i)
        f, w = key >> 3, key & 7
        if w == 0:
            v, i = _varint(b, i)
        elif w == 2:
            n, i = _varint(b, i)
            v, i = b[i:i + n], i + n
        elif w == 5:
            v, i = b[i:i + 4], i + 4
        elif w == 1:
            v, i = b[i:i + 8], i + 8
        else:
            raise ValueError(f"wire type {w}")
        if f not in spec:
            continue
        name, kind, rep = spec[f]
        if isinstance(kind, dict):
            v = decode(v, kind)
        elif kind == STR:
            v = v.decode()
        elif kind == FLOATS:
            v = list(struct.unpack(f"<{len(v) // 4}f", v))
        elif kind == INTS:
            if w == 2:
                vs, j = [], 0
                while j < len(v):
                    x, j = _varint(v, j)
                    vs.append(x)
                v = vs
            else:
                v = [v]
        if rep:
            getattr(o, name).extend(v if kind in (FLOATS, INTS) else [v])
        else:
            setattr(o, name, v)
    return o


def load(path):
    with open(path, "rb") as f:
        return decode(f.read())


def _v(n):
    n &= (1 << 64) - 1
    b = bytearray()
    while n > 127:
        b.append(n & 127 | 128)
        n >>= 7
    b.append(n)
    return bytes(b)


def _len(f, b):
    return _v(f << 3 | 2) + _v(len(b)) + b


def encode(o, spec=MODEL):
    out = b""
    for f, (name, kind, rep) in spec.items():
        v = getattr(o, name)
        if kind == FLOATS:
            out += _len(f, struct.pack(f"<{len(v)}f", *v)) if v else b""
        elif kind == INTS:
            out += b"".join(_v(f << 3) + _v(x) for x in v)
        else:
            for x in v if rep else [v]:
                if isinstance(kind, dict):
                    b = encode(x, kind)
                    out += _len(f, b) if b or rep else b""
                elif kind == INT:
                    out += _v(f << 3) + _v(x) if x else b""
                elif x or rep:
                    out += _len(f, x.encode() if kind == STR else x)
    return out


def value(name, shape, elem=1):
    v = blank(VALUE)
    v.name, v.type.tensor_type.elem_type = name, elem
    for d in shape:
        x = blank(DIM)
        if isinstance(d, str):
            x.dim_param = d
        else:
            x.dim_value = d
        v.type.tensor_type.shape.dim.append(x)
    return v


def tensor(name, dims=(), data_type=1, **kw):
    t = blank(TENSOR)
    t.name, t.dims, t.data_type = name, list(dims), data_type
    for k, v in kw.items():
        setattr(t, k, v)
    return t


def node(op, ins, outs):
    n = blank(NODE)
    n.op_type, n.input, n.output = op, list(ins), list(outs)
    return n
