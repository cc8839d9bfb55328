"""K01: back-references resolve to the object with that serialized id."""
import random

import model
from v8serialize.decode import ReadableTagStream
from v8serialize.encode import WritableTagStream
from v8serialize._references import (
    IllegalCyclicReferenceV8SerializeError, ObjectNotSerializedV8SerializeError,
    SerializedIdOutOfRangeV8SerializeError,
)

MK = [lambda: [], lambda: [], lambda: "s" * 3, lambda: 0, lambda: (), lambda: {}]


class Driver:
    def __init__(self, log, n, r=None):
        self.log = log
        self.o = [MK[i % len(MK)]() if i < len(MK) else object() for i in range(n)]
        self.ctx = []        # (context manager, object)
        self.n = 0

    def idx(self, x):
        for i, o in enumerate(self.o):
            if o is x:
                return i + 1
        return ["other", repr(x)[:60]]

    def leave(self, exc=None):
        """Leave the innermost block; returns the error that comes out."""
        cm = self.ctx.pop()
        if exc is None:
            cm.__exit__(None, None, None)
            return None
        try:
            swallowed = cm.__exit__(type(exc), exc, exc.__traceback__)
        except BaseException as e:  # noqa: BLE001
            return e
        return None if swallowed else exc

    def getid(self, o):
        return self.log.get_serialized_id(o)

    def apply(self, op):
        n = op[0]
        log = self.log
        try:
            if n == "record":
                return ["id", log.record_reference(self.o[op[1] - 1])]
            if n == "begin":
                cm = log.record_acyclic_reference(self.o[op[1] - 1], error_detail="d")
                i = cm.__enter__()
                self.ctx.append(cm)
                return ["id", i]
            if n == "end":
                e = self.leave()
                return ["none"] if e is None else ["unexpected", repr(e)]
            if n == "fail":
                x = RuntimeError("x")
                e = self.leave(x)
                return ["raised"] if e is x else ["unexpected", repr(e)]
            if n == "has":
                return ["val", int(self.o[op[1] - 1] in log)]
            if n in ("getid", "refer"):
                try:
                    return ["id", self.getid(self.o[op[1] - 1])]
                except ObjectNotSerializedV8SerializeError as e:
                    return ["unknown", self.idx(e.obj)]
                except Exception as e:  # noqa: BLE001
                    if n == "getid":
                        return ["locked"]
                    err = e
                while self.ctx:
                    err = self.leave(err)
                    if isinstance(err, IllegalCyclicReferenceV8SerializeError):
                        return ["illegal", err.serialized_id, self.idx(err.obj)]
                return ["unexpected", repr(err)]
            if n == "getobj":
                try:
                    return ["obj", self.idx(log.get_object(op[1]))]
                except SerializedIdOutOfRangeV8SerializeError as e:
                    return ["range", e.serialized_id]
                except Exception:  # noqa: BLE001
                    return ["locked"]
            if n == "replace":
                try:
                    log.replace_reference(op[1], self.o[op[2] - 1])
                    return ["none"]
                except ValueError:
                    return ["ValueError"]
        except Exception as e:  # noqa: BLE001
            return ["unexpected", repr(e)[:100]]
        raise AssertionError(op)

    def observe(self):
        """What can be asked of the log, in the form of probe()."""
        ids = []
        for o in range(1, len(self.o) + 1):
            ids.append([self.apply(["has", o]), self.apply(["getid", o])])
        objs = []
        for i in range(100):
            r = self.apply(["getobj", i])
            if r[0] == "range":
                break
            objs.append(r)
        return [ids, objs]


def probe(s, n):
    ids = []
    for o in range(1, n + 1):
        at = [i for i, e in enumerate(s["log"]) if e["key"] == o]
        ids.append([["val", int(bool(at))],
                    ["unknown", o] if not at else
                    ["locked"] if s["log"][at[-1]]["open"] else ["id", at[-1]]])
    return [ids, [["locked"] if e["open"] else ["obj", e["val"]] for e in s["log"]]]


class RefDriver(Driver):
    """References are made with write_object_reference()."""

    def __init__(self, n):
        self.stream = WritableTagStream()
        super().__init__(self.stream.objects, n)

    def getid(self, o):
        p = self.stream.pos
        self.stream.write_object_reference(obj=o)
        d = self.stream.data[p:]
        assert d[0] == 94
        i = 0
        for k, b in enumerate(d[1:]):
            i |= (b & 127) << (7 * k)
        return i


def history(r, n):
    d = r.choice([lambda: Driver(WritableTagStream().objects, n),
                  lambda: Driver(ReadableTagStream(b"").objects, n),
                  lambda: RefDriver(n)])()
    steps = []
    size = 0
    last_open = True
    for _ in range(r.choice([20, 60, 300])):
        o = r.randint(1, n)
        op = r.choice([["record", o], ["record", o], ["begin", o], ["end"], ["fail"], ["has", o],
                       ["getid", o], ["refer", o], ["refer", o],
                       ["getobj", r.randint(-2, size + 1)],
                       ["replace", r.choice([size - 1, size - 1, size - 2, 0]), o]])
        if op[0] in ("end", "fail") and not d.ctx:
            continue
        if op[0] == "replace" and last_open:
            continue
        if op[0] in ("record", "begin"):
            size += 1
            last_open = op[0] == "begin"
        res = d.apply(op)
        steps.append({"op": op, "r": res, "obs": []})
        if res[0] == "unexpected":
            break
    return {"start": {"log": [], "ctx": []}, "steps": steps}


def run(c):
    r = random.Random(f"K01-{c.seed}")
    n = 3
    lines = model.explore(c, "ObjectLogMC", {"Bound": c.n(3, 4), "NObj": n}, ["InvWellFormed"],
                          mem="12g")
    g = model.Graph(lines)
    c.count("model-transitions", len(g))
    empty = {"log": [], "ctx": []}
    for what, new in [("SerializedObjectLog", lambda s: Driver(WritableTagStream().objects, n)),
                      ("WritableTagStream", lambda s: RefDriver(n))]:
        model.replay(c, g, [empty], new, rng=r, what=what, tour_steps=c.n(10000, 150000),
                     observe=0.3, state_eq=lambda o, s: o == probe(s, n))
    hs = [history(r, r.choice([1, 3, 6, 12])) for _ in range(c.n(400, 6000))]
    c.sample({"history": [x["op"] for x in hs[0]["steps"][:6]]})
    model.judge(c, "ObjectLogTrace", hs, what="object-log-history", invariants=["InvWellFormed"])
