"""D01: loads() reads every well-formed stream as the value it denotes."""
import array
import io
import itertools
import os
import random
import tempfile
import threading

import gen_streams
import wire
import wiregen
from v8serialize import (
    DecodeV8SerializeError, Decoder, TagReader, loads,
)
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler


class Trickle(io.RawIOBase):
    """A stream which hands out its data in small pieces."""

    def __init__(self, data):
        self.data, self.at = bytes(data), 0

    def readable(self):
        return True

    def readinto(self, buf):
        n = min(len(buf), 7 + self.at % 5000, len(self.data) - self.at)
        buf[:n] = self.data[self.at:self.at + n]
        self.at += n
        return n


def from_file(decoder, data):
    with tempfile.TemporaryFile() as f:
        f.write(data)
        f.seek(0)
        return decoder.decode(f)


def from_pipe(decoder, data):
    r, w = os.pipe()

    def feed():
        with open(w, "wb") as f:
            f.write(data)
    t = threading.Thread(target=feed)
    t.start()
    with open(r, "rb") as f:
        try:
            return decoder.decode(f)
        finally:
            f.read()
            t.join()


def from_array(data):
    return loads(array.array("B", bytes(data)), nodejs=True)


def ways(decoder):
    """The ways to give a stream to be read."""
    return [
        ("loads", lambda x: loads(x, nodejs=True)),
        ("loads memoryview", lambda x: loads(memoryview(x), nodejs=True)),
        ("loads part of a memoryview",
         lambda x: loads(memoryview(b"\xff\x0f0" + x + b"_0")[3:-2], nodejs=True)),
        ("loads array", from_array),
        ("decodes", lambda x: decoder.decodes(x)),
        ("decode BytesIO", lambda x: decoder.decode(io.BytesIO(x))),
        ("decode trickle", lambda x: decoder.decode(Trickle(x))),
        ("decode file", lambda x: from_file(decoder, x)),
        ("decode pipe", lambda x: from_pipe(decoder, x)),
        ("decode after a prefix", lambda x: after_prefix(decoder, x)),
    ]


def after_prefix(decoder, data):
    f = io.BytesIO(b"\xff\x0f_" + data)
    f.seek(3)
    return decoder.decode(f)


def varint(n):
    out = []
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    return bytes([*out, n])


def large(r, count):
    """Streams too long to be read in one piece, of few large values."""
    for k in range(count):
        n = r.choice([4096, 8192, 65536, 65536, 131072, 200000]) + r.choice([-20, -6, -1, 0, 1, 9])
        n += n % 2
        body = r.randbytes(97)
        body = (body * (n // 97 + 1))[:n]
        one = [
            b'"' + varint(n) + body,
            b"c" + varint(n) + b"".join(bytes([x, 0x20]) for x in body[:n // 2]),
            b"B" + varint(n) + body, b"Z" + varint(n * 2 if n % 8 == 0 else (n - n % 8) * 2)
            + body[:n - n % 8 - 1] + b"\x7f",
            b"S" + varint(n) + b"ab" * (n // 2),
        ][k % 5]
        last = r.choice([b"I\x54", b"N" + bytes(6) + b"\xf0\x3f", b'"\x03end', b"T"])
        yield b"\xff\x0f" + r.choice([
            b"A\x02" + one + last + b"$\x00\x02",
            b'o"\x01a' + one + b'"\x01b' + last + b"{\x02",
            b"'" + one + last + b",\x02",
            b";" + last + one + b":\x02",
        ])


def run(c):
    r = random.Random(f"D01-{c.seed}")
    reader = TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())
    readers = ways(Decoder(decode_steps=[reader]))

    def record(streams, chosen):
        for b, (name, way) in zip(streams, chosen):
            rec, meta = wire.rec_decode(b, way, DecodeV8SerializeError)
            meta["read with"] = name
            if len(b) > 2000:
                meta["bytes"] = f"{meta['bytes'][:120]}... ({len(b)} bytes)"
            c.count("read-with-" + name.replace(" ", "-"))
            recs.append(rec)
            metas.append(meta)

    def report(verdict, status, amb, rec, meta):
        if status != "ok" or amb:
            return
        c.count("judged-wellformed")
        if verdict == "ok":
            c.sample({"bytes": meta["bytes"]})
        else:
            c.violation(verdict, meta)
    recs, metas = [], []
    # one in four streams is read in one of the other ways
    record(gen_streams.wellformed(r, c.n(4500, 60000)),
           (readers[0] if r.random() < .75 else r.choice(readers) for _ in itertools.count()))
    wire.judge(c, recs, metas, report=report)
    recs, metas = [], []
    record(large(r, c.n(60, 400)), itertools.cycle([*readers[4:], readers[0], *readers[4:7]]))
    wire.judge(c, recs, metas, report=report, batch=60)
    wiregen.run(c, r, True)
