"""B02: typed data access reads and writes the exact bytes."""
import json
import os
import random
import struct
import tempfile

import model
from absval import dbl_tok, int_tok
from v8serialize.jstypes import (
    JSArrayBuffer, JSBigInt64Array, JSBigUint64Array, JSDataView, JSFloat16Array,
    JSFloat32Array, JSFloat64Array, JSInt8Array, JSInt16Array, JSInt32Array, JSUint8Array,
    JSUint8ClampedArray, JSUint16Array, JSUint32Array,
)
from v8serialize.jstypes.jsbuffers import BackportJSFloat16Array, BoundsJSArrayBufferError

CLS = {"int8": [JSInt8Array], "uint8": [JSUint8Array, JSUint8ClampedArray],
       "int16": [JSInt16Array], "uint16": [JSUint16Array], "int32": [JSInt32Array],
       "uint32": [JSUint32Array], "bigint64": [JSBigInt64Array], "biguint64": [JSBigUint64Array],
       "float16": [JSFloat16Array, BackportJSFloat16Array], "float32": [JSFloat32Array], "float64": [JSFloat64Array]}
SIZE = {"int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4, "bigint64": 8,
        "biguint64": 8, "float16": 2, "float32": 4, "float64": 8}
FLOATS = ("float16", "float32", "float64")
INTS = [0, 1, -1, 127, 128, 255, 256, -128, -129, 0x1234, 32767, 32768, -32768, -32769, 65535,
        65536, 0x12345678, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32,
        0x123456789abcdef0, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, -2**64, 2**70]


def near(x):
    """Floats at and next to a value."""
    import math
    return [x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf)]


def float_values():
    out = [0.0, -0.0, float("inf"), float("-inf"), float("nan"), 1.0, -1.0, 0.1, -2.5, 1 / 3, 5e-324]
    for p, bias in ((10, 15), (23, 127)):
        tiny = 2.0 ** (2 - bias - p - 1)              # least subnormal
        norm = 2.0 ** (1 - bias)
        big = (2 - 2.0 ** -p) * 2.0 ** bias           # greatest
        over = (2 - 2.0 ** -(p + 1)) * 2.0 ** bias    # first to round to infinity
        for x in (tiny, tiny / 2, tiny * 1.5, tiny * 2.5, norm, norm - tiny, norm - tiny / 2, big,
                  over, 1 + 2.0 ** -(p + 1), 1 + 3 * 2.0 ** -(p + 1), 2 - 2.0 ** -(p + 1)):
            out += near(x)
            out.append(-x)
    return out


def rand_float(r):
    k = r.random()
    if k < 0.3:
        return struct.unpack("<d", r.getrandbits(64).to_bytes(8, "little"))[0]
    if k < 0.6:
        x = struct.unpack("<f", r.getrandbits(32).to_bytes(4, "little"))[0]
    else:
        x = struct.unpack("<e", r.getrandbits(16).to_bytes(2, "little"))[0]
    if x != x or x in (float("inf"), float("-inf")):
        return x
    return x * (1 + r.choice([0, 0, 2.0**-11, 2.0**-12, 2.0**-24, 2.0**-25, 2.0**-52, -2.0**-24]))


def tok(v):
    return int_tok(v) if isinstance(v, int) else dbl_tok(v)


def untok(t):
    if t[0] == 73:
        n = int.from_bytes(bytes(t[3:]), "little")
        return -n if t[1] else n
    return struct.unpack("<d", bytes(t[1:]))[0]


class Driver:
    def __init__(self, s, rng=None):
        self.rng = rng or random.Random(1)
        self.lo, self.len = s["lo"], s["len"]
        self.b = JSArrayBuffer(bytes(s["data"]))
        if self.rng.random() < 0.5 and self.lo + self.len == len(s["data"]) and self.lo:
            self.b = JSArrayBuffer(bytes(s["data"]), max_byte_length=len(s["data"]) + 9)
            self.v = JSDataView(self.b, self.lo)
        else:
            self.v = JSDataView(self.b, self.lo, self.len)

    def apply(self, op):
        errs = (BoundsJSArrayBufferError, IndexError)
        bad = (struct.error, OverflowError, ValueError, TypeError)

        def go():
            n, t = op[0], op[1]
            fl = t in FLOATS
            el = n in ("elget", "elset")
            if el:
                sz = SIZE[t]
                cls = self.rng.choice(CLS[t])
                if n == "elset" and op[-1][0] == 78 and untok(op[-1]) != untok(op[-1]):
                    cls = CLS[t][0]     # another NaN may leave the bits of a NaN as they are
                w = cls(self.b, self.lo // sz, self.len // sz)
            args = ()
            if not el and SIZE[t] > 1:
                args = (bool(op[3]),) if op[3] or self.rng.random() < 0.5 else ()
            with (w if el else self.v).get_buffer() as b:
                if n in ("get", "elget"):
                    x = b[op[2]] if el else getattr(b, "get_" + t)(op[2], *args)
                    if isinstance(x, float) is not fl:
                        return ["wrong type", repr(x)]
                    return ["val", *tok(x)]
                x = untok(op[-1])
                if fl and x == x and abs(x) < 2**53 and x == int(x) and x and self.rng.random() < .3:
                    x = int(x)
                try:
                    if el:
                        b[op[2]] = x
                    else:
                        getattr(b, "set_" + t)(op[2], x, *args)
                except BoundsJSArrayBufferError:
                    raise
                except bad:
                    return ["refused"]
                return ["none"]
        return model.outcome(go, ok=lambda x: x, errors=errs)

    def observe(self):
        return {"data": list(self.b.data), "lo": self.lo, "len": self.len}


def history(r):
    n = r.choice([1, 2, 8, 9, 16, 24, 40])
    lo = r.choice([0, 0, 1, 2, 4, 8])
    lo = min(lo, n)
    ln = r.randint(0, n - lo) if r.random() < 0.7 else n - lo
    s = {"data": [r.choice([0, 1, 127, 128, 255, r.randint(0, 255)]) for _ in range(n)],
         "lo": lo, "len": ln}
    d = Driver(s, r)
    steps = []
    for _ in range(r.choice([4, 12, 30])):
        t = r.choice(list(SIZE))
        el = lo % SIZE[t] == 0 and r.random() < 0.4
        fl = t in FLOATS
        v = rand_float(r) if fl else (
            r.choice(INTS) if r.random() < 0.5 else r.getrandbits(r.choice([4, 8, 16, 32, 63, 64]))
            * r.choice([1, -1]))
        if el:
            k = ln // SIZE[t]
            i = r.randint(0, k)
            if r.random() < 0.5:
                op = ["elget", t, i]
            else:
                lim = {"float16": 65504.0, "float32": 3.4028234e38}.get(t)
                if fl and lim and v == v and abs(v) > lim and abs(v) != float("inf"):
                    v = 1.5
                op = ["elset", t, i, tok(v)]
                if i == k:
                    continue
        else:
            o = r.randint(-1, ln) if r.random() < 0.4 else r.randint(0, max(0, ln - SIZE[t]))
            op = ["get", t, o, r.choice([0, 1])]
            if r.random() < 0.6:
                if o < 0 or o + SIZE[t] > ln:
                    v = 1.0 if fl else 1
                op = ["set", *op[1:], tok(v)]
            if SIZE[t] == 1:
                op[3] = 0
        steps.append({"op": op, "r": d.apply(op), "obs": [d.observe()]})
    return {"start": s, "steps": steps}


def sweeps(c, r):
    """Every binary16 pattern, and binary32 patterns and roundings."""
    hs = []
    step = c.n(37, 1)
    pats = list(range(0, 65536, step)) + [0x7bff, 0x7c00, 0x7c01, 0xfc00, 0x8000, 1, 0x3ff, 0x400]
    for i in range(0, len(pats), 16):
        part = pats[i:i + 16]
        s = {"data": [b for p in part for b in p.to_bytes(2, "little")], "lo": 0,
             "len": 2 * len(part)}
        d = Driver(s, r)
        hs.append({"start": s, "steps": [{"op": op, "r": d.apply(op), "obs": []} for k in range(len(part))
                                         for op in (["get", "float16", 2 * k, 1],
                                                    ["elget", "float16", k])]})
    vals = float_values() + [rand_float(r) for _ in range(c.n(600, 20000))]
    for i in range(0, len(vals), 10):
        s = {"data": [0] * 12, "lo": 2, "len": 8}
        d = Driver(s, r)
        steps = []
        for v in vals[i:i + 10]:
            for t in ("float16", "float32"):
                for op in (["set", t, 1, 1, tok(v)], ["get", t, 1, 1], ["set", t, 3, 0, tok(v)]):
                    steps.append({"op": op, "r": d.apply(op), "obs": [d.observe()]})
        hs.append({"start": s, "steps": steps})
    return hs


def run(c):
    r = random.Random(f"B02-{c.seed}")
    fl = [dbl_tok(x) for x in (float_values()[::6] if not c.thorough else float_values())]
    cfg = [(1, 9, 11), (8, 8, 17)] if not c.thorough else [(1, 9, 11), (8, 8, 17), (0, 17, 17), (3, 3, 8)]
    for lo, ln, n in cfg:
        seeds = [[(37 * i + 1) % 256 for i in range(n)], [255] * n]
        fd, path = tempfile.mkstemp(suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            f.write(json.dumps({"bytes": seeds, "floats": fl, "ints": [int_tok(x) for x in INTS]})
                    + "\n")
        os.environ["KEYS"] = path
        try:
            lines = model.explore(c, "DataViewMC", {"Lo": lo, "VLen": ln}, ["InvRounds", "InvSize"],
                                  mem="8g")
        finally:
            os.unlink(path)
        n_ = 0
        for ln_ in lines:
            t = json.loads(ln_)
            if SIZE[t["op"][1]] == 1 and t["op"][0] in ("get", "set") and t["op"][3]:
                continue        # one byte has no byte order
            d = Driver(t["s"], r)
            got = d.apply(t["op"])
            n_ += 1
            if got != t["r"] or d.observe() != t["t"]:
                c.violation("a typed access does not follow the specification",
                            {"start": t["s"], "op": t["op"], "expected": [t["r"], t["t"]],
                             "observed": [got, d.observe()]})
        c.traces += n_
        c.count("accesses-replayed", n_)
    hs = [history(r) for _ in range(c.n(500, 8000))] + sweeps(c, r)
    c.sample({"history": [x["op"] for x in hs[0]["steps"][:4]]})
    model.judge(c, "DataViewTrace", hs, what="view-access-history", invariants=["InvRounds"])
