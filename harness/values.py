"""Random Python value graphs for the encoder, over every supported type."""
from __future__ import annotations

import random
import re
from datetime import datetime, timedelta, timezone

from v8serialize.constants import JSErrorName, JSRegExpFlag, SerializationTag
from v8serialize.jstypes import (
    JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSBigInt64Array, JSBigUint64Array,
    JSDataView, JSError, JSErrorData, JSFloat32Array, JSFloat64Array, JSHole, JSInt8Array,
    JSInt16Array, JSInt32Array, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSSet,
    JSSharedArrayBuffer, JSUint8Array, JSUint8ClampedArray, JSUint16Array, JSUint32Array,
    JSUndefined,
)
from v8serialize.jstypes._v8 import V8SharedObjectReference

import absval

TYPED = [(JSInt8Array, 1), (JSUint8Array, 1), (JSUint8ClampedArray, 1), (JSInt16Array, 2),
         (JSUint16Array, 2), (JSInt32Array, 4), (JSUint32Array, 4), (JSFloat32Array, 4),
         (JSFloat64Array, 8), (JSBigInt64Array, 8), (JSBigUint64Array, 8), (JSDataView, 1)]

INTS = [0, 1, -1, 63, 64, -64, -65, 127, 128, 255, 256, 16383, 16384, 2**21 - 1, 2**21,
        2**28 - 1, 2**28, 2**30 - 1, 2**30, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1,
        2**32, -2**32, 2**52, 2**53 - 1, 2**53, 2**53 + 1, -(2**53) + 1, -(2**53), 2**63,
        2**63 - 1, -2**63, 2**64 - 1, 2**64, 2**64 + 1, -2**64, 2**127, 2**128, 2**128 - 1,
        10**30, -10**40, 2**1000]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -1.5, 3.25, 1e21, 1e300, 5e-324, 2.0**31, -2.0**31, 2.0**32,
          2.0**53, -(2.0**53), 2.0**53 - 1, 2.0**63, float("inf"), float("-inf"), float("nan"),
          2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 123456789.125]
STRS = ["", "a", "b", "ab", "length", "0", "1", "2", "01", "-1", "-0", "4294967294", "4294967295",
        "é", "ÿ", "Ā", "€", "😀", "a😀b", "\x00", "\x7f", "\x80", "\uffff", "\U0010ffff", "\ue000",
        "٣", "²", "x" * 62, "x" * 63, "y" * 127, "z" * 128, "é" * 64, "long " * 60, "\r\n\t\"'\\"]
KEYS = ["a", "b", "c", "0", "1", "2", "5", "01", "-1", "1.5", "4294967294", "4294967295",
        "length", "", "é", "€", "😀", "٣", "__proto__", 0, 1, 2, 7, 100, 2**32 - 2, 2**32 - 1,
        2**32, 2**40, 2**53, -1, -2**31, -2**31 - 1, -2**53]
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
MIN_MS = -62135596800000
MAX_MS = 253402300799999
FLAGS = [f for f in range(512) if not (f & 16 and f & 256)]


def holes(n: int) -> JSArray:
    """An array of n holes."""
    if n <= 20000:
        a = JSArray()
        a.array.resize(n)
    else:  # dense storage would hold n holes
        a = JSArray({n - 1: 1})
        del a[n - 1]
    return a


def make_exception(r: random.Random) -> BaseException:
    def inner(k):
        if k == 0:
            raise ValueError(r.choice(["", "bad", "é€"]))
        try:
            inner(k - 1)
        except ValueError as e:
            if r.random() < 0.5:
                raise TypeError("wrapped") from e
            raise KeyError("ctx")
    try:
        inner(r.choice([0, 0, 1, 2]))
    except BaseException as e:
        return e
    raise AssertionError


def key_class(v):
    """Keys of one JSMap/JSSet with equal classes would become one JavaScript key.

    Equal immutable values are written as one object and wrapper objects read
    back as their primitive (see DESIGN.md).
    """
    if isinstance(v, JSPrimitiveObject):
        v = v.value
    if isinstance(v, (bool, str)) or v is None:
        return (type(v), v)
    if isinstance(v, (int, float)):
        return ("n", v)
    return absval.merge_key(v) or ("id", id(v))


class ValueGen:
    def __init__(self, rng: random.Random, *, share: float = 0.0, cycles: bool = False,
                 budget: int = 14, depth: int = 4, v_flag: bool = False, float16=None,
                 circular: bool = False, errors: bool = True, prims: bool = True):
        self.r = rng
        self.share = share
        self.cycles = cycles
        self.budget = budget
        self.depth = depth
        self.pool: list = []      # finished values that may be referenced again
        self.open: list = []      # containers still being filled
        self.v_flag = v_flag
        self.float16 = float16
        self.circular = circular
        self.errors = errors
        self.prims = prims

    def int_(self) -> int:
        r = self.r
        k = r.random()
        if k < 0.6:
            return r.choice(INTS)
        n = r.getrandbits(r.randint(1, 80))
        return -n if r.random() < 0.4 else n

    def float_(self) -> float:
        r = self.r
        if r.random() < 0.6:
            return r.choice(FLOATS)
        import struct
        return struct.unpack("<d", r.getrandbits(64).to_bytes(8, "little"))[0]

    def str_(self) -> str:
        r = self.r
        if r.random() < 0.7:
            return r.choice(STRS)
        pool = "ab0é€😀\u0100\uffff\x7f\x80"
        return "".join(r.choice(pool) for _ in range(r.randint(0, 6)))

    def prim(self):
        r = self.r
        k = r.randint(0, 9)
        if k == 0:
            return r.choice([None, JSUndefined, True, False])
        if k < 4:
            return self.int_()
        if k < 6:
            return self.float_()
        return self.str_()

    def date(self) -> datetime:
        r = self.r
        ms = r.choice([0, 1, -1, 999, -999, 1700000000123, MIN_MS + 86400000, MAX_MS - 86400000,
                       r.randint(MIN_MS + 86400000, MAX_MS - 86400000),
                       r.randint(-10**13, 10**13)])
        d = EPOCH + timedelta(milliseconds=ms)
        k = r.randint(0, 2)
        if k == 0:
            return d.replace(tzinfo=None)
        if k == 1:
            return d
        return d.astimezone(timezone(timedelta(minutes=r.choice([-719, -60, 0, 1, 330, 840]))))

    def buffer(self):
        r = self.r
        if self.share and self.pool:
            c = [b for b in self.pool if isinstance(
                b, (JSArrayBuffer, JSSharedArrayBuffer, JSArrayBufferTransfer))]
            if c and r.random() < 0.5:
                return r.choice(c)
        k = r.randint(0, 6)
        n = r.choice([0, 1, 2, 7, 8, 8, 16, 24, 130])
        data = bytes(r.choice([0, 1, 65, 86, 127, 128, 255, r.randint(0, 255)]) for _ in range(n))
        if k < 3:
            b = JSArrayBuffer(data)
        elif k < 5:
            b = JSArrayBuffer(data, max_byte_length=n + r.choice([0, 1, 8, 200]))
        elif k == 5:
            b = JSSharedArrayBuffer(r.choice([0, 1, 127, 128, 2**32 - 1]))
        else:
            b = JSArrayBufferTransfer(r.choice([0, 1, 127, 128, 2**32 - 1]))
        self.pool.append(b)
        return b

    def view(self):
        r = self.r
        b = self.buffer()
        cls, sz = r.choice(TYPED)
        if self.float16 is not None and r.random() < 0.15:
            cls, sz = self.float16, 2
        if isinstance(b, JSArrayBuffer):
            n = len(b.data)
        else:
            n = 64
        off = r.randint(0, n // sz)
        ln = r.randint(0, (n - off * sz) // sz)
        real = isinstance(b, JSArrayBuffer)
        if real and r.random() < 0.4:
            if not b.resizable and (n - off * sz) % sz:
                return cls(b, off, ln)
            return cls(b, off)
        return cls(b, off, ln)

    def hashable(self, d):
        r = self.r
        k = r.randint(0, 8)
        if k < 5:
            return self.prim()
        if k == 5:
            return r.choice([b"", b"x", b"ab"])
        if k == 6:
            return self.date()
        if k == 7:
            return tuple(self.prim() for _ in range(r.randint(0, 2)))
        return frozenset(self.prim() for _ in range(r.randint(0, 2)))

    def value(self, d: int = 0):
        r = self.r
        self.budget -= 1
        if self.share and r.random() < self.share:
            if self.cycles and self.open and r.random() < 0.4:
                return r.choice(self.open)
            if self.pool:
                return r.choice(self.pool)
        if d >= self.depth or self.budget <= 0:
            return self.prim()
        v = self.new(d)
        self.pool.append(v)
        return v

    def count(self) -> int:
        return self.r.choice([0, 1, 1, 2, 2, 3, 4])

    def new(self, d: int):
        r = self.r
        k = r.randint(0, 25)
        if k < 4:
            return self.prim()
        if k < 6:
            v: list = []
            self.open.append(v)
            for _ in range(self.count()):
                v.append(self.value(d + 1))
            self.open.pop()
            return v
        if k < 8:
            m: dict = {}
            self.open.append(m)
            for _ in range(self.count()):
                x = self.hashable(d)
                m[x] = self.value(d + 1)
            self.open.pop()
            return m
        if k < 11:
            o = JSObject()
            self.open.append(o)
            for _ in range(self.count()):
                key = r.choice(KEYS)
                o[key] = self.value(d + 1)
                if r.random() < 0.08:
                    del o[key]
            self.open.pop()
            return o
        if k < 13:
            a = JSArray()
            self.open.append(a)
            for i in range(self.count()):
                a.array.append(JSHole if r.random() < 0.2 else self.value(d + 1))
            if r.random() < 0.3:
                a[r.choice(KEYS)] = self.value(d + 1)
            if r.random() < 0.3:
                a[r.choice(["x", "-1", "01"])] = self.value(d + 1)
            if r.random() < 0.2:
                if len(a.array) < 1000:
                    a.array.resize(len(a.array) + r.choice([1, 3, 20]))
            self.open.pop()
            return a
        if k == 13:
            ln = r.choice([1, 2, 5, 8, 20, 1000, 20000, 2**32 - 1])
            a = holes(ln)
            self.open.append(a)
            for i in range(r.choice([0, 1, 2])):
                a[r.choice([0, ln - 1, ln // 2])] = self.value(d + 1)
            self.open.pop()
            return a
        if k == 14:
            jm = JSMap()
            self.open.append(jm)
            used = set()
            for _ in range(self.count()):
                x = self.hashable(d) if r.random() < 0.6 else self.value(d + 1)
                if key_class(x) in used:
                    continue
                used.add(key_class(x))
                jm[x] = self.value(d + 1)
            self.open.pop()
            return jm
        if k == 15:
            js = JSSet()
            self.open.append(js)
            used = set()
            for _ in range(self.count()):
                x = self.hashable(d) if r.random() < 0.5 else self.value(d + 1)
                if key_class(x) not in used:
                    used.add(key_class(x))
                    js.add(x)
            self.open.pop()
            return js
        if k == 16:
            s = {self.hashable(d) for _ in range(self.count())}
            return frozenset(s) if r.random() < 0.3 else s
        if k == 17:
            return tuple(self.value(d + 1) for _ in range(self.count()))
        if k == 18:
            return self.date()
        if k == 19:
            return self.regexp()
        if k == 20 and self.errors:
            return self.error(d)
        if k in (21, 22):
            return self.view()
        if k == 23:
            return self.buffer()
        if k == 24:
            x = r.choice([b"", b"abc", bytes(130), b"\xff\x00V"])
            return r.choice([x, bytearray(x), memoryview(x)])
        if r.random() < 0.3:
            return V8SharedObjectReference(r.choice([0, 1, 128, 2**32 - 1]))
        return self.primobj() if self.prims else self.prim()

    def regexp(self):
        r = self.r
        src = r.choice(["", "a", "a+", "[é]", "€", "(x|y)*" * 12])
        if r.random() < 0.3:
            return re.compile(src, r.choice([0, re.I, re.M | re.S, re.A])) if self.v_flag \
                else re.compile(src, re.A | r.choice([0, re.I, re.M, re.S]))
        f = r.choice(FLAGS)
        if not self.v_flag:
            f &= ~256
        return JSRegExp(src, JSRegExpFlag(f))

    def error(self, d):
        r = self.r
        if r.random() < 0.2:
            return make_exception(r)
        cls = r.choice([JSErrorData, JSErrorData, JSError])
        e = cls(r.choice([None, "", "msg", "é€😀"]),
                name=r.choice([*list(JSErrorName), "Error", "Custom"]),
                stack=r.choice([None, "", "Error: x\n    at y"]))
        if self.circular:
            self.open.append(e)
        if r.random() < 0.5:
            opened = self.open if self.circular else []
            saved, self.open = self.open, opened
            e.cause = self.value(d + 1)
            self.open = saved
        if self.circular:
            self.open.pop()
        return e

    def primobj(self):
        r = self.r
        k = r.randint(0, 4)
        if k == 0:
            return JSPrimitiveObject(r.choice([True, False]))
        if k == 1:
            return JSPrimitiveObject(r.choice([0, 1, -1, 5, 2**31, 2**53 - 1]))
        if k == 2:
            return JSPrimitiveObject(r.choice(FLOATS))
        if k == 3:
            return JSPrimitiveObject(r.choice([0, 1, -1, 2**64, -2**70]),
                                     tag=SerializationTag.kBigIntObject)
        return JSPrimitiveObject(r.choice(STRS))
