"""Remote inference returns the answers that belong to its own requests."""
import json
import logging
import types
from .common import *

FP = "demo_lib.fpga"
BOUNDS = ("1-6 rows of 1-4 values (two- and three-dimensional inputs), up to 3 values per answer row, batches of at most 1-7 rows; all real values of inputs and answers; "
          "1-3 calls one after another; every schedule of the answers: before publishing returns, while waiting, never, twice, while waiting with the callback's thread stalled once it has woken the caller, or after the wait timed out (before or during the next request), broken answers; "
          "larger cases: up to 130 rows and batches of up to 128, any values")
ASSUMPTIONS = ["the broker delivers messages unchanged; time is the schedule of answers, a wait times out exactly when no answer comes",
               "answers carry the id of their request"]
IN, OUT, MODEL, LOSS = "infer/in", "infer/out", "model", "loss"


class Stalled(BaseException):
    """the thread of a callback stops right after it has woken the waiting one"""


class Clock:
    """waiting lets the device run; nothing else makes time pass"""

    def __init__(self):
        self.device = None
        self.stall = False

    def pump(self, done):
        if not done():
            self.device.run()
        return done()

    def threading(self):
        clock = self

        class Event:
            def __init__(self):
                self.flag = False

            def is_set(self):
                return self.flag

            isSet = is_set

            def set(self):
                self.flag = True
                if clock.stall:
                    clock.stall = False
                    raise Stalled

            def clear(self):
                self.flag = False

            def wait(self, timeout=None):
                return clock.pump(lambda: self.flag)

        class Lock:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def acquire(self, *a, **k):
                return True

            def release(self):
                pass

        class Condition(Lock):
            def __init__(self, lock=None):
                self.n = 0

            def notify(self, n=1):
                self.n += 1

            def notify_all(self):
                self.n += 1

            def wait(self, timeout=None):
                n = self.n
                return clock.pump(lambda: self.n > n)

            def wait_for(self, predicate, timeout=None):
                return predicate() if predicate() else clock.pump(lambda: bool(predicate()))

        class Semaphore(Lock):
            def __init__(self, value=1):
                self.v = value

            def release(self, n=1):
                self.v += n

            def acquire(self, blocking=True, timeout=None):
                if self.v > 0 or (blocking and clock.pump(lambda: self.v > 0)):
                    self.v -= 1
                    return True
                return False
        return types.SimpleNamespace(Event=Event, Lock=Lock, RLock=Lock, Condition=Condition, Semaphore=Semaphore, BoundedSemaphore=Semaphore)

    def queue(self):
        import queue
        clock = self

        class Queue:
            def __init__(self, maxsize=0):
                self.items, self.maxsize = [], maxsize

            def put(self, x, *a, **k):
                self.items.append(x)

            put_nowait = put

            def empty(self):
                return not self.items

            def qsize(self):
                return len(self.items)

            def get(self, block=True, timeout=None):
                if not self.items and not (block and clock.pump(lambda: self.items)):
                    raise queue.Empty
                return self.items.pop(0)

            def get_nowait(self):
                return self.get(False)
        return types.SimpleNamespace(Queue=Queue, SimpleQueue=Queue, LifoQueue=Queue, Empty=queue.Empty, Full=queue.Full)

    def install(self, m):
        t, q = self.threading(), self.queue()
        for n, v in list(vars(m).items()):
            for space, name in ((t, "threading"), (q, "queue")):
                if n == name or getattr(v, "_sx_clock", None) == name:
                    space._sx_clock = name
                    setattr(m, n, space)
                elif isinstance(v, type) and hasattr(space, n) and (v.__module__ in ("threading", "queue", "_queue") or v.__module__ == __name__):
                    setattr(m, n, getattr(space, n))


class Message:
    def __init__(self, topic, text):
        self.topic, self.payload = topic, types.SimpleNamespace(decode=lambda *a, **k: text)


class Device:
    """broker and device: keeps the last model, answers requests following a schedule"""

    def __init__(self, c, m, schedule, clock, outs=None):
        self.c, self.m, self.outs = c, m, outs
        self.schedule = list(schedule)
        self.callbacks, self.subscribed = {}, []
        self.log, self.models, self.requests = [], [], []
        self.waiting, self.late = [], []
        self.clock = clock
        clock.device = self

    # the client's side
    def subscribe(self, topic, qos=0, *a, **k):
        self.subscribed.append(topic)

    def message_callback_add(self, topic, f):
        self.callbacks[topic] = f

    def publish(self, topic, payload=None, qos=0, *a, **k):
        o = self.c.loads(payload)
        self.log.append(topic)
        if topic == MODEL:
            self.models.append(o)
            if self.outs is None:
                self.answer(LOSS, {"loss": self.loss(len(self.models) - 1)})
        elif topic == IN:
            r = o["input"]
            self.requests.append((len(self.models) - 1, r))
            self.answer(OUT, self.reply(len(self.models) - 1, r))

    # the device's side
    def value(self, model, row, k):
        return ex(self.models[model]["graph"][0]["scale"]) * sum((i + 1 + k) * ex(v) for i, v in enumerate(row)) + k

    def reply(self, model, r):
        n, w = r["shape"]
        rows = [r["tensor"][i * w:(i + 1) * w] for i in range(n)]
        flat = [self.value(model, row, k) for row in rows for k in range(self.outs)]
        a = self.c.mkarr([self.number(v) for v in flat], (len(flat),), np.float64)
        return {"id": r["id"], "shape": [n, self.outs], "tensor": a.tolist()}

    def number(self, v):
        return v if hasattr(v, "z") else float(v)

    def loss(self, model):
        return self.c.mkarr([self.number(self.value(model, [Fr(1)], 1))], (1,), np.float64).tolist()[0]

    def deliver(self, topic, o, stall=False):
        if topic in self.callbacks and topic in self.subscribed:
            self.clock.stall = stall
            try:
                self.callbacks[topic](self, None, Message(topic, o if isinstance(o, str) else self.c.dumps(o)))
            except (Exception, Stalled):       # the client is told to survive errors of its callbacks
                pass
            self.clock.stall = False

    def answer(self, topic, o):
        how = self.schedule.pop(0) if self.schedule else "wait"
        late, self.late = self.late, []
        for t, x, when in late:
            if when == "late":
                self.deliver(t, x)
            else:
                self.waiting.append((t, x))
        if how == "now":
            self.deliver(topic, o)
        elif how == "wait":
            self.waiting.append((topic, o))
        elif how == "stall":
            self.waiting.append((topic, o, True))
        elif how == "twice":
            self.waiting += [(topic, o), (topic, o)]
        elif how in ("late", "later"):
            self.late.append((topic, o, how))
        elif how == "broken":
            self.waiting.append((topic, "{"))
        elif how == "incomplete":
            self.waiting.append((topic, {k: v for k, v in o.items() if k != "tensor" and k != "loss"}))
        # never: nothing

    def run(self):
        todo, self.waiting = self.waiting, []
        for e in todo:
            self.deliver(*e)

    def disconnect(self, *a):
        pass


def network(c, k):
    """a network only has to show its schema here"""
    s = c.mkarr([c.real(f"scale{k}", 0.25, 4, -4)], (1,), np.float64).tolist()[0]
    return types.SimpleNamespace(schema={"engine": "tflite", "graph": [{"name": f"net{k}", "scale": s}]}), s


def client(c, batch, schedule, outs):
    logging.disable(logging.CRITICAL)
    m = c.mod(FP, "demo")
    clock = Clock()
    clock.install(m)
    dev = Device(c, m, schedule, clock, outs)
    m.logger = types.SimpleNamespace(**{n: (lambda *a, **k: None) for n in ("exception", "error", "warning", "info", "debug", "warn", "critical", "log")})
    infer = m.InferFPGAMQTT(dev, OUT, MODEL, IN, batch, timeout=0.01)
    return dev, infer


FAILED = object()
GOOD = ("now", "wait", "twice", "stall")


def call(f, *a):
    try:
        r = f(*a)
    except (RuntimeError, TimeoutError, ValueError, TypeError, KeyError, json.JSONDecodeError):
        return FAILED
    return FAILED if r is None else r


def values(c, name, shp):
    return c.mkarr([c.real(f"{name}_{i}", -8, 8, -6) for i in range(prod(shp))], shp, np.float64)


def rows_of(X):
    n = shape(X)[0]
    w = prod(shape(X)[1:])
    e = exl(X)
    return [e[i * w:(i + 1) * w] for i in range(n)]


def sent(c, dev, k, net, s, x, batch, since):
    """the requests of a call: its rows, each once and in order, in batches of the allowed size"""
    reqs = [r for m, r in dev.requests[since:]]
    c.check(len(dev.models) >= 1 and eq(dev.models[-1]["graph"][0]["scale"], s) and dev.models[-1]["graph"][0]["name"] == net.schema["graph"][0]["name"], "the model of the call is on the device")
    c.check(len(reqs) > 0 and all(m == len(dev.models) - 1 for m, _ in dev.requests[since:]), "the model is sent before the data")
    got = []
    for r in reqs:
        n, w = r["shape"]
        c.check(len(r["tensor"]) == n * w and n > 0, "declared shape of a request")
        c.check(n <= batch, "no request above the batch size", f"{n} rows, at most {batch}")
        got += [[ex(v) for v in r["tensor"][i * w:(i + 1) * w]] for i in range(n)]
    return got


def h_calls(c, n, feats, batch, outs, plans, calls=1):
    """plans: the schedule of every answer"""
    dev, infer = client(c, batch, [], outs)
    for k in range(calls):
        net, s = network(c, k)
        X = values(c, f"x{k}", (n,) + feats)
        since = len(dev.requests)
        plan = plans[k] if k < len(plans) else ()
        dev.schedule = list(plan)
        r = call(infer, net, X)
        asked = len(dev.requests) - since
        got = sent(c, dev, k, net, s, X, batch, since)
        used = (list(plan) + ["wait"] * asked)[:asked]
        want = rows_of(X)
        ok = all(p in GOOD for p in used) and len(got) == len(want)
        for a, b in zip(got, want):
            c.eq_list(a, b, "rows are sent in order")
        if all(p in GOOD for p in used):
            c.check(len(got) == len(want), "every row is sent", f"{len(got)} of {len(want)} rows")
            c.check(r is not FAILED, "answered calls succeed")
        else:
            c.check(r is FAILED, "calls with a missing answer fail")
        if r is not FAILED and ok:
            c.check(shape(r) == (n, outs), "one answer row for every row", str(shape(r)))
            out = exl(r)
            for i, row in enumerate(want):
                for j in range(outs):
                    c.check(eq(out[i * outs + j], dev.value(len(dev.models) - 1, row, j)), "the answer of its own row")
        c.eq_list(exl(X), [v for r_ in want for v in r_], "the input is left alone")


def h_late(c, when, n=2, batch=2, after="wait"):
    """an answer that comes after its call has given up"""
    dev, infer = client(c, batch, [], 1)
    dev.schedule = [when]
    net, s = network(c, 0)
    r = call(infer, net, values(c, "x0", (n, 2)))
    c.check(r is FAILED, "calls with a missing answer fail")
    net, s = network(c, 1)
    X = values(c, "x1", (n, 2))
    dev.schedule = [after]
    r = call(infer, net, X)
    if after == "never":
        c.check(r is FAILED, "an answer of another call is not used")
    else:
        c.check(r is not FAILED, "answered calls succeed")
        if r is not FAILED:
            c.eq_list(exl(r), [dev.value(len(dev.models) - 1, row, 0) for row in rows_of(X)], "an answer of another call is not used")


def h_late_chunk(c, when):
    """the answer of a call's last batch comes while the next call waits"""
    dev, infer = client(c, 1, [], 1)
    dev.schedule = ["wait", when]
    net, s = network(c, 0)
    c.check(call(infer, net, values(c, "x0", (2, 1))) is FAILED, "calls with a missing answer fail")
    net, s = network(c, 1)
    X = values(c, "x1", (3, 1))
    r = call(infer, net, X)
    c.check(r is not FAILED, "answered calls succeed")
    if r is not FAILED:
        c.eq_list(exl(r), [dev.value(len(dev.models) - 1, row, 0) for row in rows_of(X)], "an answer of another call is not used")


def h_shared(c, order):
    """inference and loss share the device: every call is answered under its own network"""
    dev, infer = client(c, 2, [], 2)
    f = c.mod(FP, "demo").LossFPGA(dev, LOSS, MODEL, timeout=0.01)
    nets = {k: network(c, k) for k in sorted(set(order.lower()))}
    for i, k in enumerate(order):
        net, s = nets[k.lower()]
        if k.isupper():
            outs, dev.outs = dev.outs, None
            r = call(f, net)
            dev.outs = outs
            c.check(r is not FAILED and eq(r, dev.loss(len(dev.models) - 1)), "the loss of this network")
        else:
            X = values(c, f"x{i}", (3, 1))
            r = call(infer, net, X)
            c.check(r is not FAILED, "answered calls succeed")
            if r is not FAILED:
                c.eq_list(exl(r), [ex(s) * (1 + j) * row[0] + j for row in rows_of(X) for j in range(2)], "answers under the network of the call")
        c.check(eq(dev.models[-1]["graph"][0]["scale"], s), "the network of the call is on the device")


def h_exact(c):
    """numbers arrive as they are"""
    v = [0.1, 1 / 3, 1e-12, -12345678.9, 2.0 ** -40 + 1, -0.3]
    m = c.mod(FP, "demo")
    a = np.array(v).reshape(3, 2)
    x = c.real("x", -1, 1, -4)
    for C in (m.Input, m.Output):
        t = c.loads(c.dumps(C.from_numpy("i", a).as_kv()))["tensor"]
        c.check([ex(k) for k in t] == [Fr(k) for k in v], "numbers are not rounded")
    r = m.Output("o", [3, 2], v).as_numpy()
    c.check([ex(k) for k in exl(r)] == [Fr(k) for k in v], "numbers are not rounded")
    dev, infer = client(c, 2, [], 1)
    net, s = network(c, 0)
    dev.value = lambda model, row, k: row[0] * 1
    r = call(infer, net, a)
    c.check(r is not FAILED and [ex(k) for k in exl(r)] == [Fr(k) for k in v[::2]], "numbers are not rounded")
    r = call(infer, net, c.mkarr([x], (1, 1), np.float64))
    c.check(r is not FAILED and eq(exl(r)[0], x), "numbers are not rounded")


def h_loss(c, plans, stale=False):
    """one loss per network"""
    m = c.mod(FP, "demo")
    clock = Clock()
    clock.install(m)
    dev = Device(c, m, [], clock, None)
    f = m.LossFPGA(dev, LOSS, MODEL, timeout=0.01)
    for k, p in enumerate(plans):
        net, s = network(c, k)
        dev.schedule = [p]
        r = call(f, net)
        c.check(len(dev.models) == k + 1 and eq(dev.models[k]["graph"][0]["scale"], s), "the network is sent once")
        if p in GOOD:
            c.check(r is not FAILED, "answered calls succeed")
            if r is not FAILED:
                c.check(eq(r, dev.loss(k)), "a late loss is not taken for the loss of another network" if stale else "the loss of this network")
        else:
            c.check(r is FAILED, "a late loss is not taken for the loss of another network" if stale and k else "calls with a missing answer fail")


def h_data(c, shp, outs):
    """messages keep ids, shapes and values"""
    m = c.mod(FP, "demo")
    x, y = values(c, "x", shp), values(c, "y", (shp[0], outs))
    w = prod(shp[1:])
    for k, (C, a, width) in enumerate(((m.Input, x, w), (m.Output, y, outs))):
        o = C.from_numpy(f"id{k}", a)
        for kv in (o.as_kv(), c.loads(c.dumps(o.as_kv()))):
            c.check(kv["id"] == f"id{k}" and list(kv["shape"]) == [shp[0], width], "id and shape", str(kv["shape"]))
            c.eq_list([ex(v) for v in kv["tensor"]], exl(a), "values in row order")
    back = m.Output.from_kv(m.Output.from_numpy("o", y).as_kv())
    c.check(back.id == "o" and shape(back.as_numpy()) == (shp[0], outs), "read back")
    c.eq_list(exl(back.as_numpy()), exl(y), "read back")
    both = m.InputOutput.from_numpy("both", x, y)
    kv = c.loads(both.as_json())
    c.check(kv["input"]["id"] == kv["output"]["id"] == "both", "inputs and outputs of a data set share their id")
    c.eq_list([ex(v) for v in kv["input"]["tensor"]], exl(x), "inputs of a data set")
    c.eq_list([ex(v) for v in kv["output"]["tensor"]], exl(y), "outputs of a data set")
    c.check(list(kv["input"]["shape"]) == [shp[0], w] and list(kv["output"]["shape"]) == [shp[0], outs], "shapes of a data set")
    o = c.loads(m.Input.from_numpy("i", x).as_json())
    c.eq_list([ex(v) for v in o["tensor"]], exl(x), "written input")


def cases(tier):
    T = tier != "quick"
    out = []
    B = {"exact": True, "max_paths": 400}

    def add(name, h, w=1, **k):
        out.append(case(name, h, weight=w, opts=B, **k))
    for n in range(1, 7 if T else 6):
        for b in (1, 2, 3, 4, 7) if T else (1, 2, 3, 7):
            add(f"{n} rows, batches of {b}", h_calls, n=n, feats=(2,), batch=b, outs=2 if n < 3 else 1, plans=[["now"] if n % 2 else []])
    for n, b in ((40, 16), (70, 64), (33, 1), (130, 128)):
        out.append(case(f"large, {n} rows, batches of {b}", h_calls, weight=4, opts=B, n=n, feats=(2,), batch=b, outs=2, plans=[[]]))
    add("steps and features", h_calls, n=3, feats=(2, 2), batch=2, outs=3, plans=[["now", "wait"]])
    add("one value per row", h_calls, n=4, feats=(1,), batch=2, outs=1, plans=[])
    add("two calls", h_calls, n=2, feats=(2,), batch=1, outs=1, plans=[["now", "wait"], ["twice", "now"]], calls=2)
    add("repeated answers", h_calls, n=3, feats=(1,), batch=1, outs=2, plans=[["twice"] * 3])
    add("callbacks that stall", h_calls, n=4, feats=(1,), batch=2, outs=2, plans=[["stall", "wait"], ["now", "stall"]], calls=2)
    for order in ("aba", "aa", "aBa", "AbA", "ABA", "AAb"):
        add(f"shared device {order}", h_shared, order=order)
    add("numbers", h_exact)
    for how in ("never", "broken", "incomplete"):
        add(f"{how}, one batch", h_calls, n=2, feats=(2,), batch=2, outs=1, plans=[[how]])
        add(f"{how}, second batch", h_calls, n=2, feats=(2,), batch=1, outs=1, plans=[["wait", how]])
        add(f"{how}, then a call", h_calls, n=2, feats=(1,), batch=1, outs=1, plans=[["wait", how], ["now"]], calls=2)
        add(f"{how} after a call", h_calls, n=2, feats=(1,), batch=1, outs=1, plans=[["wait", "wait"], ["wait", how]], calls=2)
    for when in ("late", "later"):
        add(f"{when} answer", h_late, when=when)
        add(f"{when} answer, then none", h_late, when=when, after="never")
        add(f"{when} answer, then at once", h_late, when=when, after="now")
        add(f"{when} answer of a batch", h_late_chunk, when=when)
    for plans in (["wait"], ["now", "wait"], ["wait", "now", "wait"], ["stall", "wait", "stall"], ["never"], ["never", "wait"], ["wait", "never"], ["wait", "broken", "now"], ["incomplete"], ["wait", "incomplete"]):
        add(f"loss {' '.join(plans)}", h_loss, plans=plans)
    for plans in (["late", "wait"], ["late", "never"], ["later", "wait"]):
        add(f"loss {' '.join(plans)}", h_loss, plans=plans, stale=True)
    for shp, o in (((1, 1), 1), ((2, 3), 2), ((2, 2, 2), 1), ((3, 1), 3)):
        add(f"messages {shp}", h_data, shp=shp, outs=o)
    return out
