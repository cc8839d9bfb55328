"""N01: numbers and BigInts are exact at every magnitude and boundary."""
import enum
import math
import random
import struct

import gen_values
import wire
from streams import varint, zig
from v8serialize import DecodeV8SerializeError, dumps, loads
from v8serialize.constants import SerializationTag
from v8serialize.jstypes import JSArray, JSMap, JSObject, JSPrimitiveObject, JSSet


class MyInt(int):
    pass


class MyFloat(float):
    pass


class Colour(enum.IntEnum):
    RED = 1
    BLUE = -70000
    BIG = 2**70


def ints(r, thorough):
    """Integers around every power of two and of ten, and of every digit length."""
    out = [0]
    for k in range(0, 1100 if thorough else 140):
        for d in (-2, -1, 0, 1, 2):
            out += [2**k + d, -(2**k) + d]
    for k in range(1, 40):
        out += [10**k, 10**k - 1, -(10**k), -(10**k) + 1]
    for n in range(1, 700 if thorough else 140):    # digit lengths
        out += [256**n - 1, 256 ** (n - 1), -(256**n) + 1,
                r.getrandbits(8 * n) | 1 << (8 * n - 1)]
    for n in (511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193):     # byte counts of 1 to 3 digits
        out += [256**n - 1, -(256 ** (n - 1))]
    for _ in range(4000 if thorough else 600):
        out.append(r.getrandbits(r.randint(1, 70)) * r.choice([1, -1]))
    return out


def floats(r, thorough):
    out = []
    for e in range(0, 2047):
        ms = [0, 2**52 - 1, r.getrandbits(52)]
        if thorough:
            ms += [1, 2**51, 2**52 - 2, *(r.getrandbits(52) for _ in range(4))]
        for m in ms if thorough or 1000 < e < 1110 or e < 3 or e > 2043 else ms[r.randint(0, 2):][:1]:
            for s in (0, 1) if thorough or 1000 < e < 1110 else (r.randint(0, 1),):
                out.append(struct.unpack("<d", struct.pack("<Q", s << 63 | e << 52 | m))[0])
    out += [math.inf, -math.inf, math.nan, 0.0, -0.0, 5e-324, 2.0**53 - 1, 2.0**53, 2.0**53 + 2]
    for k in range(30, 56):
        for x in (2.0**k, 2.0**k - 1, 2.0**k + 1, 2.0**k - .5, 2.0**k + .5):
            out += [x, -x]
    for _ in range(3000 if thorough else 300):
        out.append(struct.unpack("<d", r.getrandbits(64).to_bytes(8, "little"))[0])
    return out


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def small(n):
    return abs(n) < 10**45


def prim(n, r):
    if isinstance(n, int) and abs(n) < 2**53 and r.random() < .5:
        return JSPrimitiveObject(n, tag=SerializationTag.kBigIntObject)
    return JSPrimitiveObject(n)


def values(r, ii, ff):
    """The numbers in every position that takes one."""
    for c in chunks(ii, 40):
        yield list(c)
    for c in chunks(ff, 60):
        yield list(c)
    ks = [n for n in ii if small(n)]
    for c in chunks(ks, 40):
        yield JSObject([(n, i) for i, n in enumerate(c)])
        yield JSMap([(n, n) for n in c])
        yield JSSet(c)
        yield [prim(n, r) for n in c]
        a = JSArray()
        for n in c:
            a[n if n < 0 or n >= 2**32 - 1 or n < 50 else n % 2**31] = n
        yield a
    for c in chunks(ff, 60):
        yield JSMap([(x, x) for x in c])
        yield JSSet(c)
        yield [prim(x, r) for x in c]
        ok = [x for x in c if math.isfinite(x) and x.is_integer() and abs(x) < 2**53]
        if ok:
            yield JSObject([(x, x) for x in ok])
            yield {"m": JSMap([(int(x), 1) for x in ok])}
    for x in ii[:20] + ff[:20]:
        yield x
    for n in (16383, 16384, 32768, 65535, 65536, 65537, 70001):
        yield [256**n - 1, -(256 ** (n - 1))]
    yield [MyInt(n) for n in (0, 1, -1, 2**31, 2**32, 2**53, 2**60)]
    yield [MyFloat(x) for x in (0.0, -0.0, 1.5, 2.0**60, math.inf)]
    yield list(Colour)
    yield JSMap([(MyInt(3), 1), (2.0, 2), (True, 3), (1, 4), (False, 5), (0, 6), (1.0, 7)])
    yield JSMap([(0.0, 1), (-0.0, 2), (math.nan, 3), (-math.nan, 4)])
    yield [[x] for x in (0, False, 0.0, -0.0)]
    yield [(0,), (False,), (0.0,), (-0.0,), (1,), (True,), (1.0,)]


def pieces(r, ii, ff):
    """Number encodings of the format."""
    for n in ii:
        if -(2**31) <= n < 2**31:
            for pad in (0, r.randint(0, 4)):
                v = varint(zig(n), pad)
                if len(v) <= 5:
                    yield b"I" + v
        if 0 <= n < 2**32:
            for pad in (0, r.randint(0, 4)):
                v = varint(n, pad)
                if len(v) <= 5:
                    yield b"U" + v
        for ln in {(n.bit_length() + 7) // 8, (n.bit_length() + 63) // 64 * 8,
                   (n.bit_length() + 7) // 8 + r.randint(0, 9)}:
            for tag in (b"Z", b"z"):
                if tag == b"z" and r.random() < .6:
                    continue
                yield tag + varint(ln << 1 | (n < 0), 0 if r.random() < .8 else 1) \
                    + abs(n).to_bytes(ln, "little")
    for x in ff:
        yield (b"N" if r.random() < .7 else b"n") + struct.pack("<d", x)
    for _ in range(30):
        yield b"N" + r.choice([b"\x7f", b"\xff"]).join([b"", b""]) + \
            struct.pack("<Q", r.choice([0x7ff, 0xfff]) << 52 | r.getrandbits(52) | 1)
    for nbytes in (0, 1, 2, 8, 9, 16):       # negative zero and zero in any length
        yield b"Z" + varint(nbytes << 1 | 1) + bytes(nbytes)
        yield b"Z" + varint(nbytes << 1) + bytes(nbytes)
    # out of range or overlong
    for n in (2**32, 2**32 + 1, 2**33 - 1, 2**35 - 1, 2**35, 2**64, 2**70 + 1):
        yield b"U" + varint(n)
        yield b"I" + varint(n)


def streams(r, ii, ff):
    ps = list(pieces(r, ii, ff))
    bad = {p for p in ps if p[:1] in b"IU" and (len(p) > 6 or int.from_bytes(p[5:6], "little") > 15)}
    good = [p for p in ps if p not in bad]
    r.shuffle(good)
    for c in chunks(good, 30):
        k = r.randint(0, 3)
        h = b"\xff" + bytes([r.choice([13, 14, 15])])
        if k == 0:
            yield h + b"A" + varint(len(c)) + b"".join(c) + b"$\x00" + varint(len(c))
        elif k == 1:
            yield h + b"'" + b"".join(c[:12]) + b"," + varint(len(c[:12]))
        elif k == 2:
            c = c[:len(c) // 2 * 2]
            yield h + b";" + b"".join(c) + b":" + varint(len(c))
        else:
            ks = [p for p in c if p[:1] in b"IU" or p[:1] == b"N"]
            yield h + b"o" + b"".join(p + b"_" for p in ks) + b"{" + varint(len(ks))
    for p in good[::10] + sorted(bad):
        h = b"\xff\x0f"
        yield h + p
        yield h + b"A\x02" + p + b"T$\x00\x02"
        yield h + b"a\x05" + p + b"T@\x01\x05"
    for p in good[5::25]:       # truncated
        yield b"\xff\x0f" + p[:r.randint(1, len(p)) - 1]


def run(c):
    r = random.Random(f"N01-{c.seed}")
    ii, ff = ints(r, c.thorough), floats(r, c.thorough)
    c.count("integers", len(ii))
    c.count("floats", len(ff))
    recs, metas = [], []
    for v in values(r, ii, ff):
        meta = {"value": gen_values.show(v)}
        for st, why, rec in (wire.encode_value(v, dumps, feats=[], strict=1),
                             wire.roundtrip_value(v, dumps, loads)):
            if st != "ok":
                c.violation("dumps() did not encode numbers", {**meta, "outcome": repr(why)[:300]})
                continue
            recs.append(rec)
            metas.append({**meta, "kind": rec["kind"], **({"outcome": why} if rec["kind"] == "rt" and why else {})})
    for b in streams(r, ii, ff):
        rec, meta = wire.rec_decode(b, loads, DecodeV8SerializeError)
        recs.append(rec)
        metas.append({**meta, "kind": "decode"})

    def report(verdict, status, amb, rec, meta):
        c.count("judged-" + meta["kind"])
        if verdict == "ok":
            c.sample({k: str(v)[:300] for k, v in meta.items()})
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
    if c.thorough:      # beyond what the other checks build
        for n in (2**16, 2**20 + 1):
            v = [256**n - 1, -(256 ** (n - 1)), 5]
            if loads(dumps(v)) != JSArray(v):
                c.violation("a huge integer changed", {"digits": n})
