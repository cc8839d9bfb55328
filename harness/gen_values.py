"""Families of Python values for the encoder checks."""
from __future__ import annotations

import re
from datetime import datetime, timezone

from v8serialize.constants import JSRegExpFlag, SerializationTag
from v8serialize.jstypes import (
    JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSDataView, JSError, JSErrorData,
    JSFloat64Array, JSHole, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSSet,
    JSSharedArrayBuffer, JSUint8Array, JSUint16Array, JSUndefined,
)
from v8serialize.jstypes._v8 import V8SharedObjectReference

from common import call
from values import FLOATS, INTS, STRS, ValueGen, holes, make_exception


def show(v) -> str:
    st, s = call(repr, v)
    return str(s)[:1500] if st == "ok" else "<repr failed>"


def obj(**k):
    return JSObject(k)


def leaves():
    """One fresh value of every kind that can be referenced again."""
    return {
        "list": lambda: [1], "tuple": lambda: (1, [2]), "dict": lambda: {"k": 1},
        "set": lambda: {1}, "frozenset": lambda: frozenset([2]),
        "JSObject": lambda: obj(a=1), "JSArray": lambda: JSArray([1, JSHole]),
        "sparse": lambda: JSArray({0: "x", 5000: "y"}), "JSMap": lambda: JSMap(a=1),
        "JSSet": lambda: JSSet([1]), "error": lambda: JSErrorData("m"),
        "error-cause": lambda: JSErrorData("m", cause=[1]), "JSError": lambda: JSError("e"),
        "error-bare": lambda: JSErrorData(name="TypeError"),
        "exception": lambda: ValueError("x"), "regexp": lambda: JSRegExp("a"),
        "pattern": lambda: re.compile("a", re.A), "date": lambda: datetime(2020, 1, 1),
        "datetz": lambda: datetime(2020, 1, 1, tzinfo=timezone.utc),
        "bytes": lambda: b"ab", "bytearray": lambda: bytearray(b"ab"),
        "buffer": lambda: JSArrayBuffer(b"abcd"),
        "rab": lambda: JSArrayBuffer(b"abcd", max_byte_length=8),
        "sab": lambda: JSSharedArrayBuffer(1), "xfer": lambda: JSArrayBufferTransfer(1),
        "view": lambda: JSUint8Array(JSArrayBuffer(b"abcd")),
        "dataview": lambda: JSDataView(JSArrayBuffer(b"abcd", max_byte_length=8)),
        "sabview": lambda: JSUint8Array(JSSharedArrayBuffer(2), 0, 4),
        "shared": lambda: V8SharedObjectReference(3),
        "bool-obj": lambda: JSPrimitiveObject(True), "num-obj": lambda: JSPrimitiveObject(1.5),
        "str-obj": lambda: JSPrimitiveObject("s"),
        "big-obj": lambda: JSPrimitiveObject(5, tag=SerializationTag.kBigIntObject),
    }


def shapes(thorough=False):
    """Every pair of kinds, with later references to both; self references."""
    L = leaves()
    for x in L.values():
        for y in L.values():
            a, b = x(), y()
            yield [a, b, a, b]
    for x in L.values():
        a, m = x(), obj(z=1)
        yield obj(p=a, q=m, r=a, s=m)
        yield JSMap([("p", a), ("q", m), ("r", a), ("s", m)])
        yield JSMap([(m, a), (7, m)]) if True else None
        yield [JSSet([a, m]), a, m]
        yield JSErrorData("e", cause=[a, m, a, m])
        yield [JSArray({0: a, 9000: m, "x": a, "y": m}), a, m]
        yield {"p": a, "q": (a, m), "r": m}
        e = JSErrorData("e", cause=a)
        yield [e, a, e, m, m]
    # cycles through each kind of container
    def cyc():
        x = []; x.append(x); yield x  # noqa: E702
        x = {}; x["s"] = x; yield x  # noqa: E702
        x = JSObject(); x["s"] = x; yield x  # noqa: E702
        x = JSArray(); x.append(x) if hasattr(x, "append") else x.array.append(x); yield x  # noqa: E702
        x = JSArray(); x[0] = 1; x["p"] = x; yield x  # noqa: E702
        x = JSArray({9000: 1}); x[5] = x; yield x  # noqa: E702
        x = JSMap(); x["s"] = x; yield x  # noqa: E702
        x = JSMap(); x[x] = x; yield x  # noqa: E702
        x = JSSet(); x.add(x); yield x  # noqa: E702
        x = JSErrorData("c"); x.cause = x; yield x  # noqa: E702
        x = JSErrorData("c"); x.cause = [x, x]; yield x  # noqa: E702
        x = JSError("c"); x.cause = obj(e=x); yield x  # noqa: E702
    yield from cyc()
    mk = [lambda: [], lambda: {}, lambda: JSObject(), lambda: JSArray(), lambda: JSMap(),
          lambda: JSSet(), lambda: JSErrorData("c")]

    def put(c, v, i):
        if isinstance(c, list):
            c.append(v)
        elif isinstance(c, JSSet):
            c.add(v)
        elif isinstance(c, JSErrorData):
            c.cause = v if c.cause is None else [c.cause, v]
        elif isinstance(c, JSArray):
            c.array.append(v)
        else:
            c[f"k{i}"] = v
    for f in mk:
        for g in mk:
            a, b = f(), g()
            put(a, b, 0)
            put(b, a, 0)
            put(a, a, 1)
            put(b, b, 1)
            put(a, b, 2)
            yield a
            yield [b, a, b]
    # equal but distinct; equal immutables
    yield [[1], [1], {}, {}, obj(), obj(), bytearray(b"a"), bytearray(b"a"), JSArrayBuffer(b"a"),
           JSArrayBuffer(b"a"), JSSet(), JSSet(), JSMap(), JSMap()]
    yield [b"a", b"a", (1,), (True,), (1.0,), (-0.0,), (0.0,), (0,), (1, (2,)), (1, (2,)),
           (True, (2,)), frozenset([1]), frozenset([True]), frozenset([1.0])]
    yield [datetime(2020, 1, 1), datetime(2020, 1, 1), datetime(2020, 1, 1, tzinfo=timezone.utc),
           JSRegExp("a"), JSRegExp("a"), re.compile("a", re.A), re.compile("a", re.A),
           re.compile("a", re.A | re.I), JSRegExp("a", JSRegExpFlag.IgnoreCase)]
    yield [JSPrimitiveObject(1), JSPrimitiveObject(1.0), JSPrimitiveObject(True),
           JSPrimitiveObject(1, tag=SerializationTag.kBigIntObject), JSPrimitiveObject(0.0),
           JSPrimitiveObject(-0.0), JSPrimitiveObject("1")]
    # one buffer under several views, views shared and not
    for b in (JSArrayBuffer(b"abcdefgh"), JSArrayBuffer(b"abcdefgh", max_byte_length=16)):
        v = JSUint8Array(b, 1, 3)
        w = JSUint16Array(b, 1, 2)
        yield [v, b, w, v, b, w]
        yield [b, v, v, w, JSDataView(b, 2, 2), JSFloat64Array(b, 0, 1)]
        yield obj(v=v, m=JSMap([(w, b), (b, v)]))
    for b in (JSSharedArrayBuffer(5), JSArrayBufferTransfer(6)):
        v = JSUint8Array(b, 1, 3)
        yield [v, b, obj(a=1), v, b]
        w = JSUint16Array(b, 0, 2)
        yield [v, w, b, JSDataView(b, 2, 2), v, w]
        yield [b, w, v, w, b]
        yield JSMap([(w, v), (obj(w=w, b=b), JSFloat64Array(b, 0, 1))])
    # many ids: references need two-byte varints
    for n in (126, 127, 128, 129, 300):
        xs = [obj(i=i) for i in range(n)]
        yield xs + [xs[-1], xs[0], xs[n // 2]]


def handmade():
    """Acyclic values at the size and magnitude thresholds of the format."""
    for v in [*INTS, *[-i for i in INTS], *FLOATS, *STRS, None, True, False, JSUndefined]:
        yield v
        yield [v]
    yield JSObject([(k, 1) for k in ["b", "1", "a", "0", "4294967295", "4294967294", "-1", "01"]])
    for k in INTS:
        yield JSObject([(k, 1)])
        if k:
            yield JSObject([(-k, "n"), ("x", 2)])
    for n in (127, 128, 129, 300, 16383, 16384):
        yield "q" * n
        yield "é" * (n // 2)
        yield bytes(i % 251 for i in range(n))
        if n < 1000:
            yield list(range(n))
            yield {str(i): i for i in range(n)}
            yield JSObject([(f"k{i}", i) for i in range(n)])
            yield JSArray([JSHole] * n + [1])
            yield set(range(n))
            yield JSArray({n * 7: "x"})
            a = JSArray([1, JSHole, 2])
            for i in range(n):
                a[f"k{i}"] = i
            yield a
            a = JSArray({5000: "s"})
            for i in range(n - 1):
                a[f"k{i}"] = i
            yield a
            a = JSArray(range(n))
            for i in range(n // 2):
                a[f"k{i}"] = i
            yield a
            yield JSMap([(i, str(i)) for i in range(n // 2)])
            yield JSMap([(i, str(i)) for i in range(n)])
            yield JSSet(range(n))
            yield JSArray({i * 50: i for i in range(n)})
    for n in (0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 17, 40, 2**14 - 1, 2**14, 2**14 + 1, 2**32 - 1):
        yield holes(n)
        if n:
            for at in {0, n - 1, n // 2}:
                a = holes(n)
                a[at] = "v"
                yield a
        if 2 < n < 100:
            a = JSArray()
            a.array.resize(n)
            for i in range(0, n, 4):
                a[i] = i
            a["p"] = "q"
            yield a
    for x in leaves().values():
        yield x()
        yield JSMap([(x(), x())])
        yield obj(a=[x()])
        yield JSErrorData(cause=x())
    for d in (20, 50):
        v = 0
        w = 0
        e = JSErrorData("leaf")
        for _ in range(d):
            v, w = [v], JSObject([("k", w)])
            e = JSErrorData("n", cause=e)
        yield v
        yield w
        yield e
    for name in ("Error", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError",
                 "UriError", "Other"):
        yield JSErrorData("m", name=name, stack="s")
    for f in range(512):
        if not (f & 16 and f & 256):
            yield JSRegExp("a", JSRegExpFlag(f))


def graphs(r, n, share=0.3):
    for i in range(n):
        feats = [f for f in ("resizable", "v", "circular") if r.random() < 0.7]
        # patterns of str map to the v flag (known finding of F01)
        g = ValueGen(r, share=share, cycles=True, v_flag="v" in feats,
                     circular="circular" in feats, depth=r.choice([1, 2, 3, 4]),
                     budget=r.choice([4, 8, 14]))
        yield g.value(), feats


def tree(r):
    feats = ["resizable", "v"] if r.random() < 0.7 else []
    g = ValueGen(r, share=0.0, v_flag=bool(feats), depth=r.choice([1, 2, 3, 4]),
                 budget=r.choice([3, 6, 14]))
    return g.value(), feats


def refused(c, r, dumps):
    """Values the format cannot carry are refused with EncodeV8SerializeError."""
    from v8serialize import EncodeV8SerializeError
    bad = ["\ud800", "a\udfffb", object(), 1j, range, lambda: 0, Ellipsis, NotImplemented, type,
           JSObject([("\ud800", 1)])]
    wraps = [lambda x: x, lambda x: [x], lambda x: (1, x), lambda x: {"k": x}, lambda x: JSMap([("k", x)]),
             lambda x: JSObject([("k", x)]), lambda x: JSArray([1, x]), lambda x: JSErrorData("e", cause=x),
             lambda x: JSSet([x]), lambda x: JSArray({9000: x})]
    for x in bad:
        for w in wraps:
            v = w(x)
            st, e = call(dumps, v)
            c.count("refusals")
            if st == "ok" or not isinstance(e, EncodeV8SerializeError):
                c.violation("an unsupported value was not refused with EncodeV8SerializeError",
                            {"value": show(v), "outcome": repr(e)[:300]})
    for v in [JSErrorData("\ud800"), JSErrorData("m", stack="\udc00"), JSRegExp("\ud800")]:
        st, e = call(dumps, v)
        if st == "ok" or not isinstance(e, EncodeV8SerializeError):
            c.violation("an unsupported value was not refused with EncodeV8SerializeError",
                        {"value": show(v), "outcome": repr(e)[:300]})
