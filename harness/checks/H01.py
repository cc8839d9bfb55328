"""H01: Node.js host-object views are written and read byte-exactly."""
import random

import gen_values
import wire
from streams import StreamGen, mutate, varint
from v8serialize import DecodeV8SerializeError, SerializationFeature, TagReader, dumps, loads
from v8serialize.encode import TagWriter, serialize_object_references
from v8serialize.extensions import (NodeJsArrayBufferViewHostObjectHandler,
                                    serialize_js_array_buffer_views_as_nodejs_host_object)
from v8serialize.jstypes import (
    JSArrayBuffer, JSArrayBufferTransfer, JSBigInt64Array, JSBigUint64Array, JSDataView,
    JSErrorData, JSFloat16Array, JSFloat32Array, JSFloat64Array, JSInt8Array, JSInt16Array, JSInt32Array, JSMap,
    JSSet, JSSharedArrayBuffer, JSUint8Array, JSUint8ClampedArray, JSUint16Array, JSUint32Array)
from v8serialize.jstypes.jsbuffers import JSArrayBufferView

CODES = [(JSInt8Array, 1), (JSUint8Array, 1), (JSUint8ClampedArray, 1), (JSInt16Array, 2), (JSUint16Array, 2),
         (JSInt32Array, 4), (JSUint32Array, 4), (JSFloat32Array, 4), (JSFloat64Array, 8), (JSDataView, 1),
         (JSUint8Array, 1), (JSBigInt64Array, 8), (JSBigUint64Array, 8)]
F16 = SerializationFeature.Float16Array
NODE = [serialize_object_references, serialize_js_array_buffer_views_as_nodejs_host_object, TagWriter()]


def host(code, data, pc=0, pl=0, n=None):
    return b"\\" + varint(code, pc) + varint(len(data) if n is None else n, pl) + data


def data_of(r, n):
    return bytes(r.choice([0, 1, 13, 15, 86, 92, 127, 128, 255, r.randint(0, 255)]) for _ in range(n))


def streams(r, thorough):
    h = b"\xff\x0f"
    for code in [*range(0, 16), 64, 127, 128, 129, 140, 255, 256, 16384, 2**31, 2**32 - 1, 2**32, 2**35]:
        size = CODES[code][1] if code < 13 else 1
        for n in sorted({*range(0, 18), 24, 126, 127, 128, 130, 256} if code < 13 else {0, 1, 8}):
            if n > 18 and n % size:
                continue
            d = data_of(r, n)
            x = host(code, d)
            yield h + x
            k = r.randint(0, 9)
            yield [
                h + b"A\x05" + x + b"o{\x00" + b"^\x01" + b"^\x02" + x + b"$\x00\x05",
                h + b"A\x04" + x + x + b"^\x02^\x01" + b"$\x00\x04",
                h + b"o\"\x01a" + x + b"\"\x01b^\x01{\x02",
                h + b";" + x + x + b"T^\x02:\x04",
                h + b"'" + x + b"^\x01,\x02",
                h + b"rm\"\x01mc" + x + b".",
                h + b"A\x03B\x02ab" + x + b"^\x01V?\x00\x02\x00$\x00\x03",
                h + b"A\x03" + x + b"B\x04abcdVB\x01\x02\x00" + b"^\x03$\x00\x03",
                h + b"a\x04U\x02" + x + b"@\x01\x04",
                bytes([255, r.choice([13, 14])]) + b"A\x02" + x + b"^\x01" + b"$\x00\x02",
            ][k]
            if n and (thorough or r.random() < .3):
                for cut in {r.randrange(1, len(x)), len(x) - 1, 1, 2}:
                    yield h + x[:cut]
                    yield h + b"A\x01" + x[:cut]
            if r.random() < .2:
                yield h + host(code, d, r.randint(0, 2), r.randint(0, 2))
    for code in range(0, 14):        # lengths beyond the data
        for n in (1, 8, 100, 2**31, 2**32 - 1, 2**32, 2**40):
            yield h + host(code, b"", n=n)
            yield h + b"A\x01" + host(code, b"abc", n=n) + b"$\x00\x01"
    yield h + b"\\"
    yield h + b"\\\x80"
    yield h + b"\\\x01"
    yield h + b"\\\x01\x80"
    # a view tag after a host object does not belong to it
    yield h + host(1, b"abcd") + b"VB\x00\x02\x00"
    yield h + b"A\x02" + host(1, b"abcd") + b"VB\x00\x02\x00$\x00\x02"
    yield h + b"A\x02" + host(1, b"abcd") + b"^\x01VB\x00\x02\x00$\x00\x02"


class HostGen(StreamGen):
    """Random streams with many host objects."""

    def value(self, d):
        r = self.r
        if r.random() < .35:
            code = r.randint(0, 12) if r.random() < .97 else r.randint(13, 20)
            size = CODES[code][1] if code < 13 else 1
            self.out += host(code, data_of(r, size * r.choice([0, 1, 1, 2, 3, 16])))
            self.ids.append("host")
        else:
            super().value(d)


def view(r, pool):
    cls, size = r.choice(CODES)
    if pool and r.random() < .3:
        return r.choice(pool)
    n = r.choice([0, 1, 2, 7, 8, 16, 24, 130])
    data = data_of(r, n)
    k = r.randint(0, 7)
    if k < 3:
        b = JSArrayBuffer(data)
    elif k == 3:
        b = JSArrayBuffer(data, max_byte_length=n + r.choice([0, 1, 9]))
    elif k == 4:
        b = bytearray(data)
    elif k == 5:
        b = data
    elif k == 6 and pool:
        b = r.choice(pool).backing_buffer
    else:
        b = r.choice([JSSharedArrayBuffer(r.randint(0, 300)), JSArrayBufferTransfer(r.randint(0, 300))])
    if isinstance(b, (JSSharedArrayBuffer, JSArrayBufferTransfer)):
        off, ln = r.randint(0, 4), r.randint(0, 4)
    else:
        m = len(b.data) if isinstance(b, JSArrayBuffer) else len(b)
        off = r.randint(0, m // size)
        ln = r.randint(0, m // size - off)
        fixed = not (isinstance(b, JSArrayBuffer) and b.resizable or isinstance(b, bytearray))
        if r.random() < .4 and not (fixed and (m - off * size) % size):
            ln = None
        if r.random() < .12:            # out of bounds: it has no bytes
            off, ln = off + r.choice([0, 1, m // size]), m // size + r.randint(1, 2)
    if r.random() < .08 and not isinstance(b, (JSSharedArrayBuffer, JSArrayBufferTransfer)) and size == 2:
        cls = JSFloat16Array
    v = cls(b, off, ln)
    pool.append(v)
    return v


def value(r, pool, d=0):
    k = r.randint(0, 10)
    if k < 5 or d > 3:
        return view(r, pool)
    n = r.randint(0, 4)
    if k == 5:
        return [value(r, pool, d + 1) for _ in range(n)]
    if k == 6:
        return {f"k{i}": value(r, pool, d + 1) for i in range(n)}
    if k == 7:
        return JSMap([(view(r, pool), value(r, pool, d + 1)) for _ in range(n)])
    if k == 8:
        return JSErrorData("m", cause=value(r, pool, d + 1))
    if k == 9:
        return JSSet([view(r, pool) for _ in range(n)])
    return pool[0].backing_buffer if pool else r.choice([JSArrayBuffer(b"abc"), b"xyz", JSSharedArrayBuffer(5), 1, None])


def image(v, memo):
    """What v becomes for a reader: each written view has its own copy of its bytes."""
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, JSArrayBufferView):
        b = v.backing_buffer
        w = v
        if not isinstance(b, (JSSharedArrayBuffer, JSArrayBufferTransfer)) and not isinstance(v, JSFloat16Array):
            w = type(v)(JSArrayBuffer(region(v)))
    elif isinstance(v, list):
        w = [image(x, memo) for x in v]
    elif isinstance(v, dict):
        w = {k: image(x, memo) for k, x in v.items()}
    elif isinstance(v, JSMap):
        w = JSMap([(image(k, memo), image(x, memo)) for k, x in v.items()])
    elif isinstance(v, JSSet):
        w = JSSet([image(k, memo) for k in v])
    elif isinstance(v, JSErrorData):
        w = JSErrorData(v.message, cause=image(v.cause, memo))
    else:
        w = v
    memo[id(v)] = (v, w)
    return w


def region(v):
    b = v.backing_buffer
    data = bytes(b.data) if isinstance(b, JSArrayBuffer) else bytes(b)
    size = v.data_format.byte_length
    start = v.item_offset * size
    n = (len(data) - start) // size * size if v.item_length is None else v.item_length * size
    return data[start:start + n] if n <= len(data) - start else b""


def written(c, r, add):
    fixed = []
    for i, (cls, size) in enumerate(CODES):
        for n in (0, 1, 2, 16, 127 // size, 128 // size, 129 // size):
            d = data_of(r, n * size)
            fixed += [cls(JSArrayBuffer(d)), [cls(bytearray(b"q" * size + d), 1), 1]]
        b = JSArrayBuffer(data_of(r, size * 4))
        v, w = cls(b, 1, 2), cls(b, 2, 2)
        fixed += [[v, w, v, b, w, b], JSMap([(v, w), (w, v)]), [[b], v, b]]
        rb = JSArrayBuffer(data_of(r, size * 3 + size // 2), max_byte_length=100)
        fixed += [[cls(rb), cls(rb, 1), cls(rb, 3), cls(rb, 2, 2), cls(rb, 4), cls(rb, 4, 0)], [cls(JSSharedArrayBuffer(4), 0, 1), v]]
    for _ in range(c.n(1500, 30000)):
        fixed.append(value(r, []))
    for v in fixed:
        meta = {"value": gen_values.show(v)[:500]}
        w = image(v, {})
        _, _, rec = wire.encode_value(w, lambda _: b"", feats=["float16"], strict=1, rab=False)
        st, b = wire.call(dumps, v, encode_steps=NODE, features=F16)
        if st != "ok":
            c.violation("a view was not written", {**meta, "outcome": repr(b)[:300]})
            continue
        rec["b"] = list(b)
        c.count("host-objects-written", bytes(b).count(b"\\"))
        add(rec, **meta, bytes=bytes(b).hex()[:400])
        rec, m = wire.rec_decode(bytes(b), loads, DecodeV8SerializeError)
        add(rec, **meta, **m)


def run(c):
    r = random.Random(f"H01-{c.seed}")
    recs, metas = [], []

    def add(rec, **meta):
        recs.append(rec)
        metas.append({**meta, "kind": rec["kind"]})

    written(c, r, add)
    ways = [(1, {}), (1, {"nodejs": True}), (0, {"nodejs": False}),
            (1, {"host_object_deserializer": NodeJsArrayBufferViewHostObjectHandler()}),
            (1, {"decode_steps": [TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())]}),
            (0, {"decode_steps": [TagReader()]})]

    def reads():
        yield from streams(r, c.thorough)
        for _ in range(c.n(1200, 20000)):
            b = bytes(HostGen(r, maxdepth=3, budget=10).stream())
            yield b
            if r.random() < .5:
                yield mutate(r, b)
    for i, b in enumerate(reads()):
        for on, kw in {0: [ways[0]], 1: [ways[i % 6], ways[2]]}[int(i % 3 == 0)]:
            rec, meta = wire.rec_decode(b, loads, DecodeV8SerializeError, loads_kw=kw, host=on)
            add(rec, **meta, options=str(kw))

    def report(verdict, status, amb, rec, meta):
        c.count("judged-" + meta["kind"])
        if verdict == "ok":
            c.sample({k: str(v)[:300] for k, v in meta.items()})
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
