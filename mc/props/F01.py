import itertools, json
import numpy as np
import stubs; stubs.install()
from kit import Property, Scenario, REPO
import choose, sched
from demo_lib import fpga
from demo_lib.fpga import InferFPGAMQTT, LossFPGA, Input, Output, InputOutput
from demo_lib.mqtt import create_client, TOPICS, Client

INF = float("inf")
QOS, TIMEOUT = (1, 2, 0), 7
R, M, I = "T/RESULT", "T/MODEL", "T/INFER"


class Net:
    def __init__(self, i):
        self.schema = {"engine": "tflite", "id": i, "graph": [{"name": f"op{i}", "weights": [1, 2, i]}]}


def f(i, x):
    """what the device computes: two outputs per sample, different for every network"""
    x = np.asarray(x, dtype=float).reshape(len(x), -1)
    return np.stack([x.sum(axis=1) + 1000.0 * i, x[:, 0] * 2], axis=1)


BAD = {"bad": "{nonsense", "bad-empty": "{}", "bad-text": json.dumps({"id": "0", "shape": "x", "tensor": None, "loss": "abc"}),
       "bad-null": json.dumps({"id": "0", "shape": [1, 1], "loss": None}), "bad-other": json.dumps([1, 2]),
       "bad-shape": json.dumps({"id": "0", "shape": [3, 7], "tensor": [1.0], "loss": [0.25]})}


class World:
    """broker and device.  plan(k): what happens to the k-th request: ok, lost, bad (garbage), bad_ok (garbage, then the
    answer), late (the answer comes after the next request was sent), dup (again, after the next request was sent)."""

    def __init__(self, client, plan, loss=False):
        self.c, self.plan, self.loss = client, plan, loss
        self.net, self.queue, self.held, self.requests, self.models, self.qos = None, [], [], [], [], set()
        client.on_publish_hook = self.publish

    def publish(self, topic, payload, qos):
        self.qos.add(qos)
        if topic == M:
            self.net = json.loads(payload)
            self.models.append(self.net)
            if self.loss:
                self.request(json.dumps({"loss": self.net["id"] + 0.5}))
        elif topic == I:
            d = json.loads(payload)["input"]
            self.requests.append((self.net["id"] if self.net else None, d))
            y = f(self.net["id"], np.array(d["tensor"]).reshape(d["shape"]))
            self.request(json.dumps({"id": d["id"], "shape": list(y.shape), "tensor": y.flatten().tolist()}))
        else:
            raise AssertionError(f"published to {topic}")

    def request(self, answer):
        k = self.plan(len(self.requests) - 1 if not self.loss else len(self.models) - 1)
        held, self.held = self.held, []
        self.queue += held
        if k in ("ok", "dup", "bad_ok"):
            if k == "bad_ok":
                self.queue.append("{nonsense")
            self.queue.append(answer)
        if k.startswith("bad") and k != "bad_ok":
            self.queue.append(BAD[k])
        if k in ("late", "dup"):
            self.held.append(answer)


def execute(ch, calls, plan, maxb, opcodes=False, loss=False):
    """two tasks: the caller, and the network thread that fires the callbacks.  -> outcomes of the calls, world, schedule"""
    s = sched.Scheduler(ch, [REPO + "/demo/"], opcodes)
    with sched.patched(s, fpga):
        client = Client("c")
        client.suppress_exceptions = True
        qos = QOS[(maxb or 0) % 3]
        remote = LossFPGA(client, R, M, qos=qos, timeout=TIMEOUT) if loss else InferFPGAMQTT(client, result_topic=R, model_topic=M, infer_topic=I, max_batch_size=maxb, qos=qos, timeout=TIMEOUT)
        w = World(client, plan, loss)
        w.want = qos
        out = []

        def caller():
            for i, x in calls:
                try:
                    out.append(("value", remote(Net(i)) if loss else remote(Net(i), x)))
                except Exception as e:
                    out.append(("raised", type(e).__name__))

        def network():
            while True:
                s.block(lambda: bool(w.queue), False)
                client.deliver(R, w.queue.pop(0))
        s.spawn("caller", caller)
        s.spawn("network", network, daemon=True)
        s.run()
    if s.tasks[1].error is not None:
        raise s.tasks[1].error
    return out, w, s


def correct(ctx, out, calls, plan_of, w, maxb, loss, sch, silent=0):
    """every call returns exactly its own answers, or fails if one of them never came"""
    ctx.check(len(out) == len(calls), "a call never returned", schedule=sch.log)
    failed = sum(1 for ok in plan_of if not ok)
    ctx.check(len(sch.expiries) == 0 if not failed else sum(sch.expiries) <= TIMEOUT * failed + 1e-6,
              "a call waited for its timeout although its answers were there, or longer than the timeout", waits=sch.expiries, failed=failed, schedule=sch.log)
    ctx.check(not silent or abs(sum(sch.expiries) - TIMEOUT * silent) <= 1e-6, "a call did not wait the configured time for its answer", waits=sch.expiries, lost=silent)
    ctx.check(w.qos == {w.want}, "published with another quality of service than configured", got=sorted(w.qos))
    for k, ((i, x), (how, got)) in enumerate(zip(calls, out)):
        fail = how == "raised" or got is None
        if plan_of[k]:
            ctx.check(not fail, "a call with all its answers failed", call=k, outcome=str(got), schedule=sch.log)
            if loss:
                ctx.check(got == i + 0.5, "loss of another network", call=k, got=got, schedule=sch.log)
            else:
                ctx.equal(got, f(i, x), "result of a call", call=k, schedule=sch.log)
        else:
            ctx.check(fail, "an answer never came but the call returned a result", call=k, outcome=str(got), schedule=sch.log)


def ready_chooser(budget):
    return {"preempt": budget, "preempt_point": INF, "free": INF}


# ---- requests and results, all batch sizes
def batch_cases(tier):
    n = 9 if tier == "quick" else 17
    return [{"n": k, "tail": list(t)} for k in range(1, n) for t in ((1,), (3,), (2, 2))]


def batches(c, ctx):
    n, tail = c["n"], tuple(c["tail"])
    for maxb in range(1, 2 * c["n"] + 3):
        for dtype in (np.float64, np.float32, np.int8):
            x = (np.arange(n * int(np.prod(tail))).reshape((n,) + tail) * 3 % 101 - 20).astype(dtype)
            x0 = x.copy()
            for nets in ([7], [7, 9]):
                for ch in choose.explore(ready_chooser(0)):
                    out, w, s = execute(ch, [(i, x) for i in nets], lambda k: "ok", maxb)
                    correct(ctx, out, [(i, x) for i in nets], [True] * len(nets), w, maxb, False, s)
                    ctx.equal(x, x0, "the samples were changed")
                    ctx.check([m["id"] for m in w.models][-1] == nets[-1] and set(m["id"] for m in w.models) == set(nets), "models published")
                    ctx.check(w.models[-1] == Net(nets[-1]).schema, "the model published is not the network's schema")
                    for i in nets:
                        rows = [r for m, r in w.requests if m == i]
                        ctx.check(all(1 <= r["shape"][0] <= maxb for r in rows), "request larger than the maximum batch", n=n, max_batch=maxb, sizes=[r["shape"][0] for r in rows])
                        ctx.check(all(len(r["tensor"]) == int(np.prod(r["shape"])) and len(r["shape"]) == 2 for r in rows), "shape of a request")
                        ctx.equal(np.concatenate([np.array(r["tensor"]).reshape(r["shape"]) for r in rows]), x.reshape(n, -1), "samples sent to the device")
                        ctx.check(len({r["id"] for r in rows}) == len(rows), "two requests share an id")
                        ctx.op(len(rows))
                    ctx.state((n, maxb, tuple(len(r["tensor"]) for _, r in w.requests)))
                    ctx.trace()


# ---- all interleavings of the caller and the callback
def sched_cases(tier):
    out = [{"loss": l, "chunks": k, "calls": c, "opcodes": o, "bound": b} for l, k, c, o, b in
           [(False, 1, 1, False, 4), (False, 2, 1, False, 3), (False, 1, 2, False, 3), (False, 2, 2, False, 2), (True, 1, 1, False, 4), (True, 1, 2, False, 3),
            (False, 1, 1, True, 1), (False, 2, 1, True, 1), (True, 1, 1, True, 2), (True, 1, 2, True, 1)]]
    if tier == "thorough":
        out += [{"loss": l, "chunks": k, "calls": c, "opcodes": o, "bound": b} for l, k, c, o, b in
                [(False, 1, 1, False, 6), (False, 2, 1, False, 4), (False, 3, 1, False, 3), (False, 2, 2, False, 3), (True, 1, 3, False, 3), (False, 1, 1, True, 2), (False, 2, 1, True, 2), (True, 1, 1, True, 3), (True, 1, 2, True, 2)]]
    return out


def schedules(c, ctx):
    x = np.arange(c["chunks"] * 2.0).reshape(-1, 2)
    calls = [(i + 3, x + i) for i in range(c["calls"])]
    longest = 0
    for ch in choose.explore(ready_chooser(c["bound"])):
        out, w, s = execute(ch, calls, lambda k: "ok", 1, c["opcodes"], c["loss"])
        correct(ctx, out, calls, [True] * len(calls), w, 1, c["loss"], s)
        ctx.op(s.points); ctx.trace()
        ctx.state(tuple(ch.taken))
        longest = max(longest, s.points)
    ctx.check(longest > 8, "no scheduling points: the code under test was not traced", points=longest)


# ---- lost and malformed answers
def fault_cases(tier):
    kinds = ("ok", "lost", "bad", "bad_ok")
    out = [{"loss": True, "plan": list(p), "calls": len(p)} for n in (1, 2, 3) for p in itertools.product(kinds, repeat=n)]
    out += [{"loss": False, "plan": list(p), "calls": 1} for n in (1, 2, 3) for p in itertools.product(kinds, repeat=n)]
    # after a failed call the next one starts afresh: two calls of two requests
    out += [{"loss": False, "plan": list(p), "calls": 2} for p in itertools.product(kinds, repeat=4 if tier == "thorough" else 3)]
    for b in BAD:
        if b != "bad":
            out += [{"loss": True, "plan": list(p), "calls": len(p)} for p in ((b,), ("ok", b), (b, "ok"), ("ok", b, b, "ok"), ("ok", b, "lost"))]
            out += [{"loss": False, "plan": list(p), "calls": 1} for p in ((b,), ("ok", b), (b, "ok"))]
            out += [{"loss": False, "plan": list(p), "calls": 2} for p in (("ok", "ok", b), ("ok", b, "ok"), (b, "ok", "ok"))]
    return out


def faults(c, ctx):
    plan, loss = c["plan"], c["loss"]
    if loss:
        calls = [(i + 3, None) for i in range(c["calls"])]
    elif c["calls"] == 1:
        calls = [(3, np.arange(len(plan) * 2.0).reshape(-1, 2))]
    else:
        calls = [(3, np.arange(4.0).reshape(-1, 2)), (5, np.arange((len(plan) - 2) * 2.0).reshape(-1, 2) + 50)]
    # the plan is per sample of each call, so that a failed call does not shift the next one's
    for ch in choose.explore(ready_chooser(1)):
        book = {}
        if loss:
            at = lambda k: plan[k]
            good = [p in ("ok", "bad_ok") for p in plan]
        else:
            w_ref = []

            def at(k):
                net, r = w_ref[0].requests[k]
                j = int(round((r["tensor"][0] - (0 if net == 3 else 50)) / 2)) + (0 if net == 3 else 2)
                return plan[j]
            good = [all(p in ("ok", "bad_ok") for p in plan)] if c["calls"] == 1 else [all(p in ("ok", "bad_ok") for p in plan[:2]), all(p in ("ok", "bad_ok") for p in plan[2:])]
            real = World.__init__

            def init(self, *a, **k):
                real(self, *a, **k)
                w_ref[:] = [self]
            World.__init__ = init
        try:
            out, w, s = execute(ch, calls, at, 1, False, loss)
        finally:
            if not loss:
                World.__init__ = real
        correct(ctx, out, calls, good, w, 1, loss, s, len(good) - sum(good) if set(plan) <= {"ok", "lost"} else 0)
        ctx.op(s.points); ctx.trace(); ctx.state((tuple(plan), tuple(ch.taken)))


# ---- answers that outlive their request
def late_cases(tier):
    return [{"loss": True, "plan": ["late", "ok"]}, {"loss": True, "plan": ["dup", "ok"]}, {"loss": False, "plan": ["late", "ok"]}, {"loss": False, "plan": ["dup", "ok"]}]


def late(c, ctx):
    plan = c["plan"]
    calls = [(3, np.array([[1.0, 2.0]])), (5, np.array([[7.0, 8.0]]))]
    for ch in choose.explore(ready_chooser(2)):
        out, w, s = execute(ch, calls, lambda k: plan[k], 1, False, c["loss"])
        correct(ctx, out, calls, [plan[0] == "dup", True], w, 1, c["loss"], s)
        ctx.op(s.points); ctx.trace(); ctx.state(tuple(ch.taken))


# ---- several clients of one device
class Device:
    """A device that answers at once (the answer is there before the caller waits), used by any number of clients."""

    def __init__(self, answer=f):
        self.net, self.log, self.clients, self.answer = None, [], [], answer

    def client(self):
        c = Client(f"c{len(self.clients)}")
        c.suppress_exceptions = True
        c.on_publish_hook = self.publish
        self.clients.append(c)
        return c

    def publish(self, topic, payload, qos):
        if topic == M:
            self.net = json.loads(payload)
            self.log.append(("model", self.net))
            for c in self.clients:
                c.deliver("T/LOSS", json.dumps({"loss": loss_of(self.net)}))
        else:
            d = json.loads(payload)["input"]
            x = np.array(d["tensor"], dtype=float).reshape(d["shape"])
            self.log.append(("request", d, x))
            y = self.answer(self.net["id"], x)
            for c in self.clients:
                c.deliver(R, json.dumps({"id": d["id"], "shape": list(np.shape(y)), "tensor": np.ravel(np.array(y, dtype=object)).tolist()}))


def loss_of(net):
    return net["loss"]


def net_of(i, w=1, loss=None):
    n = Net(i)
    n.schema["graph"][0]["weights"] = [w, 2, i]
    n.schema["loss"] = i + w / 7 if loss is None else loss
    return n


OPS = ["A", "B", "A again", "A for the second client", "loss of A", "loss of B", "loss of C", "A changes", "another program publishes B"]


def history_cases(tier):
    return [{"first": o, "n": 4 if tier == "quick" else 5} for o in OPS]


def histories(c, ctx):
    """Every history of calls of two remote inferences and a remote loss on one device, with networks that are equal, changed in
    place and replaced by others: each call is answered by exactly the network it was given, as it is then."""
    x1, x2 = np.arange(10.0).reshape(5, 2), np.arange(6.0).reshape(3, 2) - 7
    for n in range(c["n"]):
        for rest in itertools.product(OPS, repeat=n):
            d = Device()
            one = InferFPGAMQTT(d.client(), result_topic=R, model_topic=M, infer_topic=I, max_batch_size=2, timeout=TIMEOUT)
            two = InferFPGAMQTT(d.client(), result_topic=R, model_topic=M, infer_topic=I, max_batch_size=100, timeout=TIMEOUT)
            los = LossFPGA(d.client(), "T/LOSS", M, timeout=TIMEOUT)
            nets = {"A": net_of(3), "B": net_of(5), "C": net_of(9, loss=0.0)}
            for op in (c["first"],) + rest:
                del d.log[:]
                if op == "A changes":
                    s_ = nets["A"].schema
                    s_["id"] += 100; s_["loss"] -= 0.25; s_["graph"][0]["weights"][0] += 1
                    continue
                if op == "another program publishes B":
                    d.clients[1].publish(M, json.dumps(nets["B"].schema))
                    continue
                net = nets["C" if op.endswith("C") else "B" if op.endswith("B") else "A"]
                if op == "A again":
                    net = net_of(net.schema["id"]); net.schema.update(nets["A"].schema)
                want = json.loads(json.dumps(net.schema))
                if op.startswith("loss"):
                    ctx.check(los(net) == want["loss"], "loss of another network", history=(c["first"],) + rest, at=op)
                else:
                    rem, x = (two, x2) if "second" in op else (one, x1)
                    got = rem(net, x)
                    ctx.check(got is not None, "a call with all its answers failed", history=(c["first"],) + rest, at=op)
                    ctx.equal(got, f(want["id"], x), f"result of {op!r} after {(c['first'],) + rest}")
                    ctx.equal(np.concatenate([v[2] for v in d.log if v[0] == "request"]), x, "samples sent")
                ctx.check(d.log and d.log[0] == ("model", want) and sum(v[0] == "model" for v in d.log) == 1, "the network is published once, before the samples", history=(c["first"],) + rest, at=op)
                ctx.op()
            ctx.trace(); ctx.state((c["first"],) + rest)


def size_cases(tier):
    ns = [*range(1, 41), 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 2000, 2001, 2002]
    ms = [1, 2, 3, 7, 10, 16, 32, 33, 64, 100, 128, 256, 500, 1000, 1024, 5000]
    out = [{"n": n, "maxb": m, "width": 1} for n in ns for m in ms if n / m < 300]
    out += [{"n": n, "maxb": m, "width": w} for n in (1, 2, 5, 33, 70) for m in (1, 2, 32, 100) for w in (2, 9, 64, 257, 1500)]
    out += [{"n": 900, "maxb": m, "width": 100} for m in (900, 899, 500, 100)]
    return out


def sizes(c, ctx):
    """Any number of samples of any width, in any memory layout."""
    n, m, w = c["n"], c["maxb"], c["width"]
    base = (np.arange(n * w) * 7 % 8191 / 64.0 - 30).reshape(n, w)
    lays = {"plain": base, "transposed": np.asfortranarray(base), "strided": np.repeat(np.repeat(base, 2, 0), 2, 1)[::2, ::2], "reversed": base[::-1, ::-1], "float32": base.astype(np.float32),
            "three": np.asfortranarray(base.reshape(n, w, 1)), "list of rows": base[:, :]}
    if n * w > 3000:
        lays = {k: lays[k] for k in ("plain", "transposed")}
    d = Device(lambda i, x: np.stack([x[:, 0] / 3 + i, x[:, -1] * 2, np.floor(x[:, 0])], axis=1))
    rem = InferFPGAMQTT(d.client(), result_topic=R, model_topic=M, infer_topic=I, max_batch_size=m, timeout=TIMEOUT)
    for k, x in lays.items():
        del d.log[:]
        got = rem(net_of(4), x)
        ctx.check(got is not None, "a call with all its answers failed", layout=k)
        flat = np.asarray(x, dtype=float).reshape(n, w)
        ctx.equal(got, np.stack([flat[:, 0] / 3 + 4, flat[:, -1] * 2, np.floor(flat[:, 0])], axis=1), f"result of {k} samples")
        reqs = [v for v in d.log if v[0] == "request"]
        ctx.check(all(1 <= len(v[2]) <= m for v in reqs), "request larger than the maximum batch", sizes=[len(v[2]) for v in reqs])
        ctx.equal(np.concatenate([v[2] for v in reqs]), flat, f"{k} samples sent to the device")
        ctx.check(len({v[1]["id"] for v in reqs}) == len(reqs), "two requests of one call share an id")
        ctx.op(len(reqs)); ctx.state((n, m, w, k, len(reqs)))
    ctx.trace()


ANSWERS = {"whole": lambda a, k: [int(v) for v in a], "fraction": lambda a, k: [v + 1 / 3 for v in a], "large": lambda a, k: [v * 1e300 for v in a], "small": lambda a, k: [(v + 1) * 1e-300 for v in a],
           "digits": lambda a, k: [v + 0.12345678901234566 for v in a], "big whole": lambda a, k: [2 ** 53 + 1 - 2 * int(v) for v in a], "zero": lambda a, k: [0 for v in a]}


def answer_cases(tier):
    return [{"chunks": list(p)} for n in (1, 2, 3) for p in itertools.product(ANSWERS, repeat=n)]


def answers(c, ctx):
    """Answers with whole numbers, fractions, large and small numbers in any request come back digit by digit; likewise losses."""
    told = []

    def answer(i, x):
        y = ANSWERS[c["chunks"][len(told)]]([float(v) for v in x[:, 0]], i)
        told.append(y)
        return np.array([[v] for v in y], dtype=object)
    d = Device(answer)
    rem = InferFPGAMQTT(d.client(), result_topic=R, model_topic=M, infer_topic=I, max_batch_size=2, timeout=TIMEOUT)
    got = rem(net_of(4), np.arange(2.0 * len(c["chunks"])).reshape(-1, 1))
    flat = [v for y in told for v in y]
    ctx.check(got is not None and np.shape(got) == (len(flat), 1), "shape of the result", got=np.shape(got))
    ctx.check(all(float(a) == float(b) for a, b in zip(np.ravel(got), flat)), "answers changed on their way", got=np.ravel(got).tolist(), want=flat)
    los = LossFPGA(d.client(), "T/LOSS", M, timeout=TIMEOUT)
    for v in flat + [-1.5, 0.0, 1 / 3, 0, 7, float("inf")]:
        g = los(net_of(1, loss=v))
        ctx.check(g == float(v), "loss changed on its way", got=g, want=v)
    ctx.op(len(flat)); ctx.trace(); ctx.state(c["chunks"])


# ---- message formats and the connection
def message_cases(tier):
    return [{"n": n, "tail": list(t)} for n in (1, 2, 3) for t in ((1,), (2,), (4,), (2, 3))]


def messages(c, ctx):
    n, tail = c["n"], tuple(c["tail"])
    width = int(np.prod(tail))
    for dtype in (np.float64, np.float32, np.int8, np.int32):
        x = (np.arange(n * width).reshape((n,) + tail) - 3).astype(dtype)
        y = (np.arange(n * 2).reshape(n, 2) * 5 - 3).astype(dtype)
        for name in ("0", "test", ""):
            want = {"id": name, "shape": [n, width], "tensor": x.flatten().tolist()}
            i = Input.from_numpy(name, x)
            ctx.check(i.as_kv() == want and json.loads(i.as_json()) == want, "input message")
            o = Output.from_numpy(name, x)
            ctx.check(o.as_kv() == want, "output message")
            back = Output.from_kv(json.loads(json.dumps(o.as_kv())))
            ctx.equal(back.as_numpy(), x.reshape(n, -1), "round trip of a result")
            io = InputOutput.from_numpy(name, x, y)
            d = {"input": want, "output": {"id": name, "shape": [n, 2], "tensor": y.flatten().tolist()}}
            ctx.check(io.as_kv() == d and json.loads(io.as_json()) == d, "data set message")
            ctx.op(6); ctx.state((name, str(dtype), n, tail))
    for user, pwd, host, port, alive in itertools.product(("u", "a user", ""), ("p", "", "\u00e9 x"), ("h", "127.0.0.1"), (1883, 8883, 1), (60, 0, 100000)):
        cl = create_client("q", user, pwd, host, port, alive)
        ctx.check(("connect", host, port, alive) in cl.calls and ("auth", user, pwd) in cl.calls and cl.suppress_exceptions is True, "connection", calls=cl.calls)
    ctx.trace()


PROP = Property("F01", [
    Scenario("batches", batch_cases, batches, "all batch lengths x maximum batches x sample shapes x carriers"),
    Scenario("schedules", sched_cases, schedules, "all interleavings of caller and callback up to a preemption bound, by line and by bytecode"),
    Scenario("faults", fault_cases, faults, "all histories of lost and malformed answers"),
    Scenario("late", late_cases, late, "answers that outlive their request"),
    Scenario("histories", history_cases, histories, "all histories of calls of three clients on one device"),
    Scenario("sizes", size_cases, sizes, "numbers of samples x maximum batches x widths x memory layouts"),
    Scenario("answers", answer_cases, answers, "all sequences of up to three answers of seven kinds of numbers"),
    Scenario("messages", message_cases, messages, "message formats"),
], "model_checking", "state: schedule (choice sequence) or batch layout; transition: scheduling point or request; trace: one complete execution of the real threads under the scheduler",
    ["paho's network thread runs the callbacks one at a time; the device answers requests in order"])
