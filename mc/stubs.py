"""Stand-ins for the third-party packages that are not installed here (TensorFlow, pydantic, PyYAML, simanneal, dimod,
neal, greedy, D-Wave, Qiskit, paho, onnx, tflite).  They only provide what the code under test touches, with the
documented behaviour of the real package for it; `install()` puts them in sys.modules unless the real one exists."""
import copy as _copy, functools, importlib, math, sys, types
import numpy as np


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__mc_stub__ = True
    m.__path__ = []
    sys.modules[name] = m
    if "." in name:
        parent, child = name.rsplit(".", 1)
        if parent in sys.modules:
            setattr(sys.modules[parent], child, m)
    return m


def _have(name):
    if name in sys.modules:
        return True
    try:
        importlib.import_module(name)
        return True
    except Exception:
        return False


# ---------------------------------------------------------------- keras
def _np_sigmoid(x):
    return 1.0 / (1.0 + np.exp(-np.asarray(x, dtype=float)))


def sigmoid(x):
    return _np_sigmoid(x)


def tanh(x):
    return np.tanh(np.asarray(x, dtype=float))


def relu(x):
    return np.maximum(np.asarray(x, dtype=float), 0.0)


def relu6(x):
    return np.clip(np.asarray(x, dtype=float), 0.0, 6.0)


def linear(x):
    return x


def softmax(x):
    e = np.exp(np.asarray(x) - np.max(x, axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


def elu(x):
    x = np.asarray(x, dtype=float)
    return np.where(x > 0, x, np.expm1(np.minimum(x, 0)))


ACT = {"sigmoid": sigmoid, "tanh": tanh, "relu": relu, "relu6": relu6, "linear": linear, "softmax": softmax, "elu": elu}
FLOAT = np.float32


class Variable(np.ndarray):
    """a weight as keras shows it: an array with .numpy()"""
    def __new__(cls, w):
        return np.array(w).view(cls)

    def numpy(self):
        return np.array(self)


class Layer:
    _n = 0

    def __init__(self, name=None, **kw):
        if name is None:
            Layer._n += 1
            name = f"{type(self).__name__.lower()}_{Layer._n}"
        self.name = name
        self.input_shape = kw.get("input_shape")
        self.output_shape = kw.get("output_shape")

    def get_weights(self):
        return [w.copy() for w in self._w]

    @property
    def weights(self):
        return [Variable(w) for w in self._w]

    trainable_weights = trainable_variables = variables = weights

    @property
    def kernel(self):
        return Variable(self._w[0])

    @property
    def recurrent_kernel(self):
        return Variable(self._w[1])

    @property
    def bias(self):
        return Variable(self._w[-1]) if getattr(self, "use_bias", len(self._w) > 1) else None

    def call(self, *a, **k):
        return self(*a, **k)

    def get_config(self):
        name = lambda v: getattr(v, "__name__", v)
        return {k: name(v) for k, v in vars(self).items() if not k.startswith("_") and k not in ("input_shape", "output_shape")}

    def count_params(self):
        return sum(w.size for w in self._w)

    def set_weights(self, ws):
        if len(ws) != len(self._w):
            raise ValueError("wrong number of weights")
        for a, b in zip(ws, self._w):
            if np.asarray(a).shape != b.shape:
                raise ValueError("wrong weight shape")
        self._w = [np.array(w, dtype=FLOAT) for w in ws]


class Dense(Layer):
    def __init__(self, units, activation="linear", use_bias=True, weights=None, **kw):
        super().__init__(**kw)
        self.units = units
        self.use_bias = use_bias
        self.activation = ACT[activation] if isinstance(activation, str) else (activation or linear)
        self._w = [np.array(w, dtype=FLOAT) for w in weights]
        self.input_shape = (None, self._w[0].shape[0])
        self.output_shape = (None, self._w[0].shape[1])

    def __call__(self, x):
        x = np.asarray(x, dtype=FLOAT)
        y = x @ self._w[0]
        if len(self._w) > 1:
            y = y + self._w[1]
        a = self.activation
        return np.asarray(y if a is None else a(y), dtype=FLOAT)


class LSTM(Layer):
    def __init__(self, units, weights, return_sequences=False, activation="tanh", recurrent_activation="sigmoid", use_bias=True, **kw):
        super().__init__(**kw)
        self.units, self.return_sequences = units, return_sequences
        self.activation, self.recurrent_activation = ACT[activation], ACT[recurrent_activation]
        self.use_bias = use_bias
        self._w = [np.array(w, dtype=FLOAT) for w in weights]

    def __call__(self, x):
        x = np.asarray(x, dtype=FLOAT)
        W, U, b = self._w if len(self._w) > 2 else [*self._w, 0]
        n = self.units
        h = np.zeros((x.shape[0], n)); c = np.zeros((x.shape[0], n)); out = []
        for t in range(x.shape[1]):
            z = x[:, t] @ W + h @ U + b
            i, f, g, o = (z[:, k * n:(k + 1) * n] for k in range(4))
            c = self.recurrent_activation(f) * c + self.recurrent_activation(i) * self.activation(g)
            h = self.recurrent_activation(o) * self.activation(c)
            out.append(h)
        return np.swapaxes(np.array(out), 0, 1) if self.return_sequences else h


class InputLayer(Layer):
    _w = []


class Input(Layer):
    _w = []


class Dropout(Layer):
    _w = []

    def __call__(self, x):
        return x


class Flatten(Layer):
    _w = []


class MaxPool2D(Layer):
    _w = []

    def __init__(self, pool_size=(2, 2), strides=None, padding="valid", **kw):
        super().__init__(**kw)
        self.pool_size = pool_size
        self.strides = strides or pool_size
        self.padding = padding


class Conv2D(Layer):
    def __init__(self, filters, kernel_size, strides=(1, 1), padding="valid", activation="linear", use_bias=True, weights=None, **kw):
        super().__init__(**kw)
        self.filters, self.kernel_size, self.strides, self.padding, self.use_bias = filters, kernel_size, strides, padding, use_bias
        self.activation = ACT[activation]
        self._w = [np.array(w, dtype=FLOAT) for w in weights]


class Model:
    def __init__(self, layers):
        self.layers = list(layers)

    def __call__(self, x, *a, **k):
        for l in self.layers:
            if isinstance(l, (InputLayer, Input)):
                continue
            x = l(x)
        return x

    predict = call = __call__

    def get_layer(self, name=None, index=None):
        return self.layers[index] if index is not None else next(l for l in self.layers if l.name == name)

    def get_weights(self):
        return [w for l in self.layers for w in l.get_weights()]


Sequential = Model
MODELS = {}


def load_model(path, compile=True):
    return MODELS[path]


def install_tensorflow():
    if _have("tensorflow"):
        return
    tf = _mod("tensorflow")
    math_ = _mod("tensorflow.math", sigmoid=sigmoid, tanh=tanh)
    keras = _mod("tensorflow.keras")
    acts = _mod("tensorflow.keras.activations", **ACT)
    acts.get = lambda a: ACT[a] if isinstance(a, str) else linear if a is None else a
    acts.serialize = lambda a: a.__name__
    acts.deserialize = acts.get
    _mod("tensorflow.keras.layers", Layer=Layer, Dense=Dense, LSTM=LSTM, InputLayer=InputLayer, Input=Input, Dropout=Dropout,
         Flatten=Flatten, MaxPool2D=MaxPool2D, MaxPooling2D=MaxPool2D, Conv2D=Conv2D)
    _mod("tensorflow.keras.models", load_model=load_model, Sequential=Sequential, Model=Model)
    keras.Model, keras.Sequential = Model, Sequential
    tf.nn = types.SimpleNamespace(sigmoid=sigmoid, relu=relu, relu6=relu6, tanh=tanh, softmax=softmax)
    tf.sigmoid, tf.tanh = sigmoid, tanh
    tf.matmul, tf.transpose, tf.concat, tf.stack, tf.clip_by_value = np.matmul, np.transpose, np.concatenate, np.stack, np.clip
    tf.constant = tf.convert_to_tensor = lambda v, dtype=None, **k: np.array(v, dtype=dtype)
    tf.float32, tf.float64 = np.float32, np.float64


# ---------------------------------------------------------------- pydantic (v2 subset)
class FieldInfo:
    def __init__(self, default=..., default_factory=None, **kw):
        self.default, self.factory, self.kw = default, default_factory, kw


def Field(default=..., default_factory=None, **kw):
    return FieldInfo(default, default_factory, **kw)


class ValidationError(ValueError):
    pass


def _coerce(t, v, strict=False):
    """Value v as a field of type t: (value, exactness); raises ValidationError.  Lax mode of pydantic 2."""
    import typing
    origin, args = typing.get_origin(t), typing.get_args(t)
    if t is typing.Any:
        return v
    if origin is typing.Literal:
        if any(v == a and type(v) is type(a) for a in args):
            return v
        raise ValidationError(f"literal error: {v!r} not in {args}")
    if origin is typing.Union or origin is types.UnionType:
        for a in args:                                  # an instance of a member is kept
            if isinstance(a, type) and type(v) is a:
                return v
        if v is None:
            if type(None) in args:
                return None
            raise ValidationError("none not allowed")
        best = None
        for a in args:                                  # smart mode: the member that uses most of the given fields
            if a is type(None):
                continue
            try:
                r = _coerce(a, v)
            except ValidationError:
                continue
            used = len(set(v) & set(_hints(a))) if isinstance(v, dict) and isinstance(a, type) and issubclass(a, BaseModel) else 0
            if best is None or used > best[0]:
                best = (used, r)
        if best is None:
            raise ValidationError(f"{v!r} fits no member of {t}")
        return best[1]
    if origin in (dict, list):
        if not isinstance(v, origin):
            raise ValidationError(f"{v!r} is not a {origin}")
        if origin is dict:
            return {_coerce(args[0], k): _coerce(args[1], x) for k, x in v.items()}
        return [_coerce(args[0], x) for x in v]
    if isinstance(t, type) and issubclass(t, BaseModel):
        if isinstance(v, t):
            return v
        if isinstance(v, dict):
            return t(**v)
        raise ValidationError(f"{v!r} is not a {t.__name__}")
    if t is bool:
        if isinstance(v, bool) or v in (0, 1):
            return bool(v)
        raise ValidationError(f"{v!r} is not a bool")
    if t is int:
        if isinstance(v, (int, float, np.integer)) and int(v) == v:
            return int(v)
        raise ValidationError(f"{v!r} is not an int")
    if t is float:
        if isinstance(v, (int, float, np.number)):
            return float(v)
        raise ValidationError(f"{v!r} is not a float")
    if t is str:
        if isinstance(v, str):
            return v
        raise ValidationError(f"{v!r} is not a str")
    return v


@functools.lru_cache(None)
def _hints(cls):
    import typing
    return {k: t for k, t in typing.get_type_hints(cls).items() if not k.startswith("_") and k != "Config" and typing.get_origin(t) is not typing.ClassVar}


class BaseModel:
    def __init__(self, **data):
        for k, t in _hints(type(self)).items():
            if k in data:
                v = _coerce(t, data[k])
            else:
                d = getattr(type(self), k, ...)
                if isinstance(d, FieldInfo):
                    d = d.factory() if d.factory else d.default
                if d is ...:
                    raise ValidationError(f"field required: {k}")
                v = _copy.deepcopy(d)
            self.__dict__[k] = v

    @classmethod
    def parse_obj(cls, d):
        return cls(**d)

    model_validate = parse_obj

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def dict(self):
        f = lambda v: v.dict() if isinstance(v, BaseModel) else {k: f(x) for k, x in v.items()} if isinstance(v, dict) else [f(x) for x in v] if isinstance(v, list) else v
        return {k: f(v) for k, v in self.__dict__.items()}

    def model_dump(self, **k):
        return self.dict()

    def json(self, **k):
        import json
        return json.dumps(self.dict())

    model_dump_json = json

    @classmethod
    def model_validate_json(cls, text):
        import json
        return cls(**json.loads(text))

    parse_raw = model_validate_json

    def copy(self, deep=False):
        return _copy.deepcopy(self) if deep else _copy.copy(self)

    model_copy = copy


def stack_parent(stack, ind, root):
    while stack and stack[-1][0] >= ind:
        stack.pop()
    return stack[-1][1] if stack else root


def simple_yaml(src):
    """Nested mappings of scalars: all the settings files here contain."""
    text = src if isinstance(src, str) else src.read()
    root, stack = {}, []
    for line in text.splitlines():
        if not line.strip() or line.strip().startswith("#") or line.strip() == "---":
            continue
        ind = len(line) - len(line.lstrip())
        line = line.strip()
        if line[0] in "'\"":                              # a quoted key
            end = line.index(line[0], 1)
            k, v = line[1:end], line[end + 1:].strip()[1:]
        else:
            k, _, v = line.partition(":")
        v = v.split(" #")[0].strip()
        if len(v) > 1 and v[0] == v[-1] and v[0] in "'\"":  # a quoted text
            parent = stack_parent(stack, ind, root)
            parent[k] = v[1:-1]
            continue
        parent = stack_parent(stack, ind, root)
        if v == "":
            parent[k] = {}
            stack.append((ind, parent[k]))
        else:
            low = v.lower()
            parent[k] = {"true": True, "false": False, "null": None, "~": None, "{}": {}, "[]": []}.get(low, v) if low != "{}" else {}
            if parent[k] == v and isinstance(v, str):
                for conv in (int, float):
                    try:
                        parent[k] = conv(v)
                        break
                    except ValueError:
                        pass
    return root


class DataFrame:
    """pandas.DataFrame(data, columns): only its contract on shapes."""

    def __init__(self, data=None, index=None, columns=None, **kw):
        a = np.asarray(data)
        if a.ndim != 2:
            raise ValueError("Must pass 2-d input")
        if columns is not None and len(columns) != a.shape[1]:
            raise ValueError(f"Shape of passed values is {a.shape}, indices imply {(a.shape[0], len(columns))}")
        self.values, self.columns, self.shape = a, list(columns) if columns is not None else list(range(a.shape[1])), a.shape

    def __getitem__(self, k):
        return self.values[:, self.columns.index(k)]


def install_misc():
    if not _have("pandas"):
        _mod("pandas", DataFrame=DataFrame)
    if not _have("pydantic"):
        ident = lambda *a, **k: (lambda f: f)
        _mod("pydantic", BaseModel=BaseModel, Field=Field, ValidationError=ValidationError, validator=ident, root_validator=ident, field_validator=ident, model_validator=ident, ConfigDict=dict, Extra=types.SimpleNamespace(forbid="forbid"))
    if not _have("yaml"):
        _mod("yaml", safe_load=simple_yaml, load=lambda s, Loader=None: simple_yaml(s), full_load=simple_yaml, dump=lambda *a, **k: "", SafeLoader=None, CSafeLoader=None, FullLoader=None, Loader=None)


# ---------------------------------------------------------------- annealers and samplers
class Annealer:
    """simanneal.Annealer's contract: anneal() runs `steps` moves from self.state under the Metropolis rule and
    returns the best state visited with its energy.  Temperatures here are fixed extremes decided by `accept`."""
    Tmax, Tmin, steps, updates = 25000.0, 2.5, 50000, 100
    copy_strategy = "deepcopy"
    accept = staticmethod(lambda dE, T: dE <= 0)

    def copy_state(self, s):
        return _copy.deepcopy(s)

    def anneal(self):
        T = self.Tmax
        E = self.energy()
        prev = self.copy_state(self.state); pE = E
        best = self.copy_state(self.state); bE = E
        for step in range(int(self.steps)):
            dE = self.move()
            E = self.energy()
            if Annealer.accept(E - pE, T):
                prev = self.copy_state(self.state); pE = E
                if E < bE:
                    best = self.copy_state(self.state); bE = E
            else:
                self.state = self.copy_state(prev); E = pE
        self.state = self.copy_state(best)
        return self.state, bE

    def update(self, *a, **k):
        pass

    def set_schedule(self, schedule):
        self.Tmax, self.Tmin, self.steps, self.updates = schedule["tmax"], schedule["tmin"], int(schedule["steps"]), int(schedule["updates"])


class BQM:
    """A binary quadratic model: {(u, v): bias}; the exact sampler enumerates every assignment."""

    def __init__(self, linear, quadratic=None, offset=0.0, vartype=None):
        self.Q = {(k, k): v for k, v in dict(linear).items()}
        for k, v in dict(quadratic or {}).items():
            self.Q[k] = self.Q.get(k, 0) + v
        self.offset = offset

    @classmethod
    def from_qubo(cls, Q, offset=0.0):
        return cls({}, Q, offset)


class _First:
    def __init__(self, sample, energy):
        self.sample, self.energy = sample, energy


class SampleSet:
    def __init__(self, pairs):
        self.pairs = sorted(pairs, key=lambda p: p[1])
        self.first = _First(*self.pairs[0])
        self.record = types.SimpleNamespace(sample=[list(p[0].values()) for p in self.pairs], energy=[p[1] for p in self.pairs])

    def lowest(self, *a, **k):
        return self

    def __iter__(self):
        return iter([p[0] for p in self.pairs])

    def samples(self, *a, **k):
        return iter([p[0] for p in self.pairs])

    def data(self, *a, **k):
        return iter([_First(*p) for p in self.pairs])


LAST_QUBO = []


def exact_minimum(Q):
    import itertools
    import numpy as np
    vs = list(dict.fromkeys(v for k in Q for v in k))
    try:
        vs = sorted(vs)         # SampleSet.from_samples(sort_labels=True), what the samplers of dwave-neal return
    except TypeError:
        pass                    # not comparable: order of first appearance
    n, pos = len(vs), {v: i for i, v in enumerate(vs)}
    if n > 14:
        lin, quad = {v: 0.0 for v in vs}, {v: {} for v in vs}
        for (u, v), b in Q.items():
            if u == v:
                lin[u] += b
            else:
                quad[u][v] = quad[u].get(v, 0.0) + b
                quad[v][u] = quad[v].get(u, 0.0) + b
        best, e = branch(lin, quad)
        return {v: best[v] for v in vs}, e
    M = np.zeros((n, n))
    for (u, v), b in Q.items():
        M[pos[u], pos[v]] += b
    bits = (np.arange(2 ** n)[:, None] >> np.arange(n - 1, -1, -1)) & 1         # all assignments, in order
    e = ((bits[:, :, None] * M).sum(1) * bits).sum(1)
    k = int(np.argmin(e))
    return dict(zip(vs, bits[k].tolist())), float(e[k])


def branch(lin, quad):
    """Exact minimum of a sparse problem: independent parts are solved on their own, a connected one by fixing its most connected variable."""
    todo, out, total = set(lin), {}, 0.0
    while todo:
        part, front = set(), [next(iter(todo))]
        while front:
            v = front.pop()
            if v not in part:
                part.add(v)
                front += [u for u, b in quad[v].items() if b and u in todo]
        todo -= part
        if len(part) == 1:
            v, = part
            out[v] = int(lin[v] < 0)
            total += min(lin[v], 0.0)
            continue
        h = max(sorted(part, key=str), key=lambda v: sum(1 for b in quad[v].values() if b))
        if len(part) > 14 and sum(1 for u, b in quad[h].items() if b and u in part) < 2:
            raise ValueError("too connected")
        best = None
        for bit in (0, 1):
            l = {v: lin[v] + (quad[h].get(v, 0.0) if bit else 0.0) for v in part if v != h}
            sol, e = branch(l, {v: {u: b for u, b in quad[v].items() if u in part and u != h} for v in l})
            e += lin[h] * bit
            if best is None or e < best[1]:
                best = ({**sol, h: bit}, e)
        out.update(best[0])
        total += best[1]
    return out, total


class ExactSampler:
    def __init__(self, *a, **k):
        pass

    def sample_qubo(self, Q, **k):
        LAST_QUBO.append(dict(Q))
        return SampleSet([exact_minimum(Q)])

    def sample(self, bqm, **k):
        return self.sample_qubo(bqm.Q)


def install_annealers():
    if not _have("simanneal"):
        _mod("simanneal", Annealer=Annealer)
    if not _have("dimod"):
        _mod("dimod", BinaryQuadraticModel=BQM, BQM=BQM, ExactSolver=ExactSampler, BINARY="BINARY", SampleSet=SampleSet)
    if not _have("neal"):
        _mod("neal", SimulatedAnnealingSampler=ExactSampler)
    if not _have("greedy"):
        _mod("greedy", SteepestDescentSolver=ExactSampler, SteepestDescentSampler=ExactSampler)
    if not _have("dwave"):
        _mod("dwave")
        _mod("dwave.system", DWaveSampler=ExactSampler, EmbeddingComposite=ExactSampler, LeapHybridSampler=ExactSampler)
        _mod("dwave.samplers", SimulatedAnnealingSampler=ExactSampler)
    for name in ("qiskit", "qiskit_optimization", "qiskit_aer", "qiskit_ibm_runtime"):
        if not _have(name):
            install_qiskit()
            break


class _Any:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return _Any()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


class _AnyModule(types.ModuleType):
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any


class _AnyFinder:
    """Any submodule of the packages below imports as an empty shell."""
    ROOTS = ("qiskit", "qiskit_optimization", "qiskit_aer", "qiskit_ibm_runtime", "qiskit_algorithms")

    def find_spec(self, name, path=None, target=None):
        import importlib.machinery
        if name.split(".")[0] in self.ROOTS:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return _AnyModule(spec.name)

    def exec_module(self, module):
        if module.__name__ == "qiskit.visualization":      # the real one exports the modules it imports
            import os
            module.os = os


def install_qiskit():
    if not any(isinstance(f, _AnyFinder) for f in sys.meta_path):
        sys.meta_path.append(_AnyFinder())


# ---------------------------------------------------------------- paho
class MQTTMessage:
    def __init__(self, topic="", payload=b"", qos=0, retain=False):
        self.topic, self.payload, self.qos, self.retain = topic, payload, qos, retain


class MQTTClient:
    """paho.mqtt.client.Client for one thread: callbacks are registered here and fired by whoever plays the broker."""

    def __init__(self, client_id="", clean_session=True, **kw):
        self.client_id, self.callbacks, self.subscriptions, self.published, self.on_publish_hook = client_id, [], [], [], None
        self.suppress_exceptions = False
        self.calls = []
        self.on_message = None

    def subscribe(self, topic, qos=0, **kw):
        self.subscriptions.append((topic, qos))
        return 0, 1

    def message_callback_add(self, sub, callback):
        self.callbacks.append((sub, callback))

    def publish(self, topic, payload=None, qos=0, retain=False):
        self.published.append((topic, payload, qos))
        if self.on_publish_hook:
            self.on_publish_hook(topic, payload, qos)
        return types.SimpleNamespace(rc=0, mid=len(self.published), wait_for_publish=lambda *a: None, is_published=lambda: True)

    def deliver(self, topic, payload):
        """as loop() does: topic filters first, then on_message"""
        msg = MQTTMessage(topic, payload if isinstance(payload, bytes) else payload.encode())
        if topic not in [t for t, _ in self.subscriptions]:
            return
        hit = False
        for sub, cb in self.callbacks:
            if sub == topic:
                hit = True
                try:
                    cb(self, None, msg)
                except Exception:
                    if not self.suppress_exceptions:
                        raise
        if not hit and self.on_message:
            self.on_message(self, None, msg)

    def reinitialise(self, client_id="", clean_session=True, userdata=None):
        self.calls.append(("reinitialise", client_id, clean_session))

    def username_pw_set(self, user, password=None):
        self.calls.append(("auth", user, password))

    def connect(self, host, port=1883, keepalive=60):
        self.calls.append(("connect", host, port, keepalive))
        return 0

    def loop_forever(self, *a, **k):
        pass

    loop_start = loop_stop = disconnect = loop_forever


def install_paho():
    if not _have("paho.mqtt.client"):
        for n in ("paho", "paho.mqtt"):
            if n not in sys.modules:
                _mod(n)
        _mod("paho.mqtt.client", Client=MQTTClient, MQTTMessage=MQTTMessage)


# ---------------------------------------------------------------- tflite, onnx
TFL_DTYPES = {"FLOAT32": 0, "FLOAT16": 1, "INT32": 2, "UINT8": 3, "INT64": 4, "STRING": 5, "BOOL": 6, "INT16": 7, "COMPLEX64": 8, "INT8": 9, "FLOAT64": 10}
TFL_NP = {"FLOAT32": np.float32, "FLOAT16": np.float16, "INT32": np.int32, "UINT8": np.uint8, "INT64": np.int64, "BOOL": np.bool_, "INT16": np.int16, "INT8": np.int8, "FLOAT64": np.float64}
TFL_OPS = {"ADD": 0, "CONV_2D": 3, "DEQUANTIZE": 6, "FULLY_CONNECTED": 9, "LOGISTIC": 14, "MUL": 18, "RELU": 19, "RELU6": 21, "RESHAPE": 22, "SOFTMAX": 25, "TANH": 28, "QUANTIZE": 114,
           "UNIDIRECTIONAL_SEQUENCE_LSTM": 44, "AVERAGE_POOL_2D": 1, "CONCATENATION": 2, "DEPTHWISE_CONV_2D": 4, "MAX_POOL_2D": 17, "CUSTOM": 32, "PAD": 34, "MEAN": 40, "SUB": 41, "WHILE": 119,
           "PLACEHOLDER_FOR_GREATER_OP_CODES": 127, "CONV_3D": 132, "GELU": 150}


class _FB:
    """an object of the flatbuffers API: attribute f of the description is read by method F()"""

    def __init__(self, **methods):
        for k, v in methods.items():
            setattr(self, k, v)


def _tfl_tensor(t):
    q = t.get("quantization")
    quant = None if q is None else _FB(**_vector("Scale", q.get("scale"), np.float32, float), **_vector("ZeroPoint", q.get("zero_point"), np.int64, int), QuantizedDimension=lambda: 0)
    return _FB(Name=lambda: t["name"].encode("utf8"), Buffer=lambda: t["buffer"], Quantization=lambda: quant, Type=lambda: TFL_DTYPES[t["dtype"]],
               **_vector("Shape", t["shape"], np.int32, int))


def _vector(name, v, dtype, kind):
    """the accessors flatbuffers generates for a vector field"""
    at = lambda i: kind(np.asarray(v, dtype=dtype)[_at(i, len(v))]) if v is not None else 0
    return {name: at, name + "AsNumpy": lambda: 0 if v is None else np.array(v, dtype=dtype), name + "Length": lambda: 0 if v is None else len(v), name + "IsNone": lambda: v is None}


def _at(i, n):
    if not 0 <= i < n:
        raise IndexError(f"no element {i} in a flatbuffers vector of {n}")
    return i


def _tfl_description(buf):
    """the models of the checks are JSON descriptions; real .tflite files are decoded into the same form"""
    import json, tflitefb
    buf = bytes(buf)
    return json.loads(buf.decode()) if buf[:1] == b"{" else tflitefb.decode(buf)


class TfliteModel:
    @classmethod
    def GetRootAsModel(cls, buf, offset=0):
        if offset != 0:
            raise ValueError("no model at this offset")
        d = _tfl_description(buf)

        def op(o):
            return _FB(OpcodeIndex=lambda: o["opcode"], **_vector("Inputs", o["inputs"], np.int32, int), **_vector("Outputs", o["outputs"], np.int32, int))
        sub = _FB(Name=lambda: b"main", **_vector("Inputs", d["inputs"], np.int32, int), **_vector("Outputs", d["outputs"], np.int32, int),
                  Tensors=lambda i: _tfl_tensor(d["tensors"][_at(i, len(d["tensors"]))]), TensorsLength=lambda: len(d["tensors"]), Operators=lambda i: op(d["operators"][i]), OperatorsLength=lambda: len(d["operators"]))

        def buffer(i):
            b = d["buffers"][i]
            data = None if b is None else np.frombuffer(np.array(b["data"], dtype=TFL_NP[b["dtype"]]).tobytes(), dtype=np.uint8)
            return _FB(DataAsNumpy=lambda: 0 if data is None else data, DataLength=lambda: 0 if data is None else len(data), DataIsNone=lambda: data is None, Data=lambda i: int(data[i]))
        m = cls()
        m.Version = lambda: d["version"]
        m.Subgraphs = lambda i: [sub][_at(i, 1)]
        m.SubgraphsLength = lambda: 1
        m.OperatorCodes = lambda i: _FB(BuiltinCode=lambda: d["opcodes"][i], DeprecatedBuiltinCode=lambda: d["stored_codes"][i][0] if "stored_codes" in d else min(d["opcodes"][i], 127))
        m.OperatorCodesLength = lambda: len(d["opcodes"])
        m.Buffers = buffer
        m.BuffersLength = lambda: len(d["buffers"])
        return m

    GetRootAs = GetRootAsModel


class TfliteInterpreter:
    """its own tensor indices, which need not be those of the file: `details` lists the file's tensors in the interpreter's order"""

    def __init__(self, model_path=None, model_content=None, **kw):
        self.d = _tfl_description(open(model_path, "rb").read() if model_path else model_content)
        self.order = self.d.get("details") or list(range(len(self.d["tensors"])))
        self.allocated = False

    def allocate_tensors(self):
        self.allocated = True

    def get_tensor_details(self):
        # an index that no tensor has is not listed
        return [{"name": self.d["tensors"][t]["name"], "index": i} for i, t in enumerate(self.order) if t is not None]

    def get_tensor(self, index):
        if not self.allocated:
            raise RuntimeError("tensors are not allocated")
        t = self.d["tensors"][self.order[index]]
        b = self.d["buffers"][t["buffer"]]
        if b is None:
            raise ValueError("Tensor data is null.")
        return np.array(b["data"], dtype=TFL_NP[t["dtype"]]).reshape(t["shape"])


def install_converters():
    if not _have("tflite"):
        _mod("tflite", Model=TfliteModel, Operator=_FB, Tensor=_FB, TensorType=type("TensorType", (), dict(TFL_DTYPES)), BuiltinOperator=type("BuiltinOperator", (), dict(TFL_OPS)))
    if "tensorflow.lite" not in sys.modules and getattr(sys.modules.get("tensorflow"), "__mc_stub__", False):
        _mod("tensorflow.lite", Interpreter=TfliteInterpreter)
    if not _have("onnx"):
        import onnxpb
        _mod("onnx", load=onnxpb.load)


def install():
    install_paho()
    install_tensorflow()
    install_misc()
    install_annealers()
    install_converters()
