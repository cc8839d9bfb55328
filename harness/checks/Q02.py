"""Q02: equality and hashes of values without children agree with their contents."""
import os
import random
import struct

import model
from absval import dbl_tok, int_tok
from common import call, write_trace
from v8serialize.constants import JSRegExpFlag, SerializationTag as ST
from v8serialize.jstypes import (
    JSArrayBuffer, JSArrayBufferTransfer, JSBigInt64Array, JSBigUint64Array, JSDataView, JSFloat16Array,
    JSFloat32Array, JSFloat64Array, JSHole, JSInt8Array, JSInt16Array, JSInt32Array, JSPrimitiveObject,
    JSRegExp, JSSharedArrayBuffer, JSUint8Array, JSUint8ClampedArray, JSUint16Array, JSUint32Array,
    JSUndefined,
)
from v8serialize.jstypes.jsbuffers import BackportJSFloat16Array

CLS = {"int8": JSInt8Array, "uint8": JSUint8Array, "clamped": JSUint8ClampedArray, "int16": JSInt16Array,
       "uint16": JSUint16Array, "int32": JSInt32Array, "uint32": JSUint32Array, "bigint64": JSBigInt64Array,
       "biguint64": JSBigUint64Array, "float16": JSFloat16Array, "float32": JSFloat32Array,
       "float64": JSFloat64Array, "dataview": JSDataView}
SZ = {t: c.data_format.byte_length for t, c in CLS.items()}
TAG = {"number": ST.kNumberObject, "bigint": ST.kBigIntObject, "string": ST.kStringObject,
       "true": ST.kTrueObject, "false": ST.kFalseObject}
ATOMS = {"undefined": JSUndefined, "hole": JSHole}


def number(tok, as_float):
    if tok[0] == 78:
        return struct.unpack("<d", bytes(tok[1:]))[0]
    n = int.from_bytes(bytes(tok[3:]), "little") * (-1 if tok[1] else 1)
    return float(n) if as_float and abs(n) < 2**53 else n


class Driver:
    """Real values over real buffers; look compares every two of them."""

    def __init__(self, state, rng):
        self.rng = rng
        self.state = state
        self.raw, self.wrapped = [], []
        for b in state["bufs"]:
            d = bytes(b["data"])
            if b["rsz"]:
                raw = bytearray(d)
                js = JSArrayBuffer(raw, max_byte_length=b["max"], copy_data=False)
            elif b["hard"]:
                raw = rng.choice([d, memoryview(d)])
                js = JSArrayBuffer(raw, readonly=True, copy_data=False) if rng.random() < .7 else \
                    JSArrayBuffer(d, readonly=True)
            else:
                raw = bytearray(d)
                k = rng.random()
                js = JSArrayBuffer(raw, copy_data=False) if k < .7 else \
                    JSArrayBuffer(memoryview(raw), readonly=True, copy_data=False)
            self.raw.append(raw)
            self.wrapped.append(js)
        self.vals = [self.make(v) for v in state["vals"]]

    def make(self, v):
        r = self.rng
        k = v[0]
        if k == "view":
            cls = CLS[v[1]]
            if v[1] == "float16" and r.random() < .3:
                cls = BackportJSFloat16Array
            b = self.wrapped[v[2] - 1] if r.random() < .7 else self.raw[v[2] - 1]
            kw = {"readonly": True} if r.random() < .3 else {}
            return cls(b, v[3], None if v[4] == -1 else v[4], **kw)
        if k == "remote":
            z = SZ[v[1]]
            return CLS[v[1]](self.handle(v[2], v[3]), v[4] // z,
                             None if v[5] == 0 and r.random() < .5 else v[5] // z)
        if k == "buf":
            return self.wrapped[v[1] - 1]
        if k == "handle":
            return self.handle(v[1], v[2])
        if k == "prim":
            x = {"true": True, "false": False}.get(v[1])
            if v[1] == "string":
                x = "".join(map(chr, v[2]))
            elif x is None:
                x = number(v[2], v[1] == "number" and r.random() < .5)
            return JSPrimitiveObject(x, TAG[v[1]])
        if k == "regexp":
            return JSRegExp(v[1], JSRegExpFlag(v[2]))
        return ATOMS[v[1]]

    @staticmethod
    def handle(kind, i):
        return JSSharedArrayBuffer(i) if kind == "shared" else JSArrayBufferTransfer(i)

    def apply(self, op):
        if op[0] == "write":
            self.raw[op[1] - 1][op[2] - 1] = op[3]
            return ["none"]
        if op[0] == "resize":
            self.wrapped[op[1] - 1].resize(op[2])
            return ["none"]
        hashes = []
        for v in self.vals:
            st, h = call(hash, v)
            junk = [self.rng.random() for _ in range(9)]    # (objects may be reused)
            if st == "ok" and hash(v) != h:
                st, h = "unstable", junk
            elif st == "err":
                st = "err" if isinstance(h, (TypeError, ValueError)) else "unexpected"
            hashes.append((st, h))
        out = ["eq"]
        for i, a in enumerate(self.vals):
            st, h = hashes[i]
            out.append([{"ok": 1, "err": 0, "unstable": 2}.get(st, 3), *(
                self.pair(a, b, hashes[i], hashes[j]) for j, b in enumerate(self.vals))])
        return out

    @staticmethod
    def pair(a, b, ha, hb):
        """1 equal, 0 not, 2 if == and != do not agree, 3 if equal values have different hashes."""
        got = [call(f) for f in (lambda: a == b, lambda: b == a, lambda: not a != b)]
        if {x for x in map(repr, got)} not in ({"('ok', True)"}, {"('ok', False)"}):
            return 2
        eq = got[0][1]
        if eq and ha[0] == hb[0] == "ok" and ha[1] != hb[1]:
            return 3
        return int(eq)

    def observe(self):
        return [list(bytes(b)) for b in self.raw]


def same(o, s):
    return o == [b["data"] for b in s["bufs"]]


# Bytes whose items are equal, or not, depending on the type they are read as.
PATTERNS = [bytes(8), b"\1" + bytes(7), bytes(6) + b"\xf0\x3f", bytes(7) + b"\x80", b"\xff" * 8,
            bytes(2) + b"\x80\x3f" + bytes(4), b"\0\x3c\0\0\0\0\0\0", bytes(6) + b"\xf0\x7f",
            bytes(6) + b"\xf8\x7f", b"\0\x7e\0\x7e\0\0\xc0\x7f", bytes(range(1, 9)), b"\0\x80\0\0\0\0\0\x80",
            b"\1\0\1\0\1\0\1\0", b"\1\0\0\0\1\0\0\0", b"\1\1\1\1\1\1\1\1", bytes(6) + b"\x40\x43",
            bytes(6) + b"\x20\0", b"\1" + bytes(5) + b"\x20\0", b"\xff\0\0\0\xff\0\0\0", b"\x80\xff\xff\xff\xff\xff\xff\xff"]


def buf(data, mode, mx=12):
    return {"data": list(data), "max": mx if mode == "rsz" else len(data), "rsz": mode == "rsz",
            "hard": mode == "hard"}


def prims():
    nums = [0, -0.0, 1, 1.5, -1, 2**53 - 1, float(2**53), float("inf"), 1e300]
    out = [["prim", "number", dbl_tok(x) if isinstance(x, float) else int_tok(x)] for x in nums]
    out += [["prim", "bigint", int_tok(x)] for x in (0, 1, -1, 2**53 - 1, 2**53, 2**70, -2**70)]
    out += [["prim", "string", list(map(ord, x))] for x in ("", "1", "a", "é", "\0", "true")]
    return out + [["prim", "true", int_tok(1)], ["prim", "false", int_tok(0)]]


def others():
    out = [["regexp", s, f] for s in ("", "(?:)", "a", "A", "(?:a)") for f in (0, 1, 2, 16)]
    out += [["atom", "undefined"], ["atom", "hole"]]
    out += [["handle", k, i] for k in ("shared", "transfer") for i in (0, 1, 2)]
    return out


def remotes(r, n):
    out = []
    for _ in range(n):
        t = r.choice(list(CLS))
        z = SZ[t]
        out.append(["remote", t, r.choice(["shared", "transfer"]), r.choice([0, 1]), r.choice([0, z]),
                    r.choice([0, z, 2 * z])])
    return out + r.sample(out, len(out) // 2)


def views(r, bufs, n):
    out = []
    for _ in range(n):
        t = r.choice(list(CLS))
        b = r.randint(1, len(bufs))
        m = len(bufs[b - 1]["data"]) // SZ[t]
        off = r.choice([0, 0, 0, r.randint(0, m), m + 1 if r.random() < .3 else 0])
        ln = r.choice([-1, -1, 0, max(0, m - off), r.randint(0, m)])
        out.append(["view", t, b, off, ln])
    return out


def universe(r, nbufs, nvals):
    p = r.choice(PATTERNS)
    modes = ["hard", "fixed", "rsz", "hard"]
    bufs = []
    for i in range(nbufs):
        q = p if r.random() < .5 else r.choice(PATTERNS)
        bufs.append(buf(q[:r.choice([8, 8, 8, 4, 2, 0])], modes[i % 4], r.choice([8, 12, 12])))
    vals = views(r, bufs, nvals) + [["buf", i + 1] for i in range(nbufs)]
    vals += remotes(r, 1) + r.sample(prims() + others(), 3)
    r.shuffle(vals)
    # the same element type twice: equal bytes are equal views
    return {"bufs": bufs, "vals": vals}


def statics(r):
    """Values of one kind, compared each with each."""
    yield {"bufs": [], "vals": prims()}
    yield {"bufs": [], "vals": others() + r.sample(prims(), 3)}
    yield {"bufs": [], "vals": remotes(r, 16)}
    for t in CLS:
        z = SZ[t]
        yield {"bufs": [buf(b"", "hard")], "vals": [["view", t, 1, 0, -1], ["view", t, 1, 1, -1]] + [
            ["remote", t, k, i, off, ln] for k, i in (("shared", 0), ("shared", 1), ("transfer", 0))
            for off in (0, z) for ln in (0, z)] + [["remote", t, "shared", 0, z, z]]}
    bufs = [buf(p, "hard") for p in (b"", b"a", b"ab", b"a\0")] + [buf(b"a", "fixed"), buf(b"a", "rsz"),
                                                                  buf(b"a", "fixed"), buf(b"", "rsz"), buf(b"a", "rsz", 3),
                                                                  buf(b"a", "rsz", 1), buf(b"a", "rsz")]
    yield {"bufs": bufs, "vals": [["buf", i + 1] for i in range(len(bufs))] * 2
           + [["view", "uint8", i + 1, 0, -1] for i in range(len(bufs))]}
    for p in PATTERNS:          # every type over the same bytes, and the numbers they show as other types
        yield {"bufs": [buf(p, "hard"), buf(p, "fixed")],
               "vals": [["view", t, b, 0, n] for t in CLS for b in (1, 2) for n in (-1, 1)]}
    # one item, n, as every type that can hold it
    for x in (0, 1, 2, 100, 127, 128, 255, 256, -1, -128, 65504, 2**24, 2**24 + 1, 2**53, 2**53 + 1, 2**63,
              0.5, -2.5, float("inf"), float("nan"), -0.0):
        bufs, vals = [], []
        for t, cls in CLS.items():
            f = "B" if t == "dataview" else cls.data_format.format
            try:
                d = struct.pack(f, x)
            except (struct.error, OverflowError):
                try:
                    d = struct.pack(f, float(x) if f in "efd" else int(x))
                except (struct.error, OverflowError, ValueError):
                    continue
            bufs.append(buf(d, "hard"))
            vals.append(["view", t, len(bufs), 0, -1])
        vals += vals[:2]
        yield {"bufs": bufs, "vals": vals}


def history(r):
    s = universe(r, r.randint(1, 4), r.randint(3, 10))
    d = Driver(s, r)
    steps = []

    def do(op):
        steps.append({"op": op, "r": d.apply(op), "obs": []})
    do(["look"])
    for _ in range(r.choice([3, 8, 20])):
        b = r.randint(1, len(s["bufs"]))
        st = s["bufs"][b - 1]
        n = len(d.raw[b - 1])
        if st["rsz"] and r.random() < .5:
            do(["resize", b, r.choice([0, 2, 4, 8, r.randint(0, st["max"])])])
        elif not st["hard"] and n:
            do(["write", b, r.randint(1, n), r.choice([0, 1, 0x80, 0x3c, 0x7e, 0xff, 0x3f, r.randint(0, 255)])])
        if r.random() < .7:
            do(["look"])
    do(["look"])
    return {"start": s, "steps": steps}


def run(c):
    r = random.Random(f"Q02-{c.seed}")
    still = [{"s": s, "poke": [], "bytes": [], "sizes": []} for s in statics(r)]
    moving = []
    for _ in range(c.n(40, 300)):
        s = universe(r, 3, 6)
        moving.append({"s": s, "poke": [[b, k] for b in (2, 3) for k in r.sample(range(1, 9), 2)],
                       "bytes": [0, r.choice([1, 0x80, 0x3c, 0x7e])], "sizes": r.sample(range(13), 2)})
    for us, steps in ((still, 0), (moving, c.n(3000, 60000))):
        os.environ["KEYS"] = path = write_trace([us])
        try:
            lines = model.explore(c, "LeafEqMC", {"Depth": 3 if c.thorough else 2},
                                  ["InvEquivalence", "InvSameBytes"],
                                  extra_cfg="PROPERTY PropHashStable\nVIEW View\n")
        finally:
            del os.environ["KEYS"]
            os.unlink(path)
        g = model.Graph(lines)
        c.count("model-transitions", len(g))
        for _ in range(c.n(1, 5) if us is still else 1):
            model.replay(c, g, [u["s"] for u in us], lambda s: Driver(s, r), rng=r, what="leaf-equality",
                         tour_steps=steps, observe=.3, state_eq=same)
    hs = [history(r) for _ in range(c.n(300, 4000))]
    c.sample({"values": hs[0]["start"]["vals"][:4], "history": [x["op"] for x in hs[0]["steps"][:5]]})
    model.judge(c, "LeafEqTrace", hs, what="leaf-equality-history", invariants=["InvEquivalence"])
