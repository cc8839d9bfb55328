"""Families of byte streams for the decoder checks."""
from __future__ import annotations

import random
import struct

from streams import StreamGen, mutate, varint, zig

H = [b"\xff\x0d", b"\xff\x0e", b"\xff\x0f"]


def handmade():
    """Well-formed streams around size and id thresholds."""
    h = H[2]
    dbl = lambda x: b"N" + struct.pack("<d", x)  # noqa: E731
    s1 = lambda s: b'"' + varint(len(s)) + s  # noqa: E731
    for n in (0, 1, 62, 63, 127, 128, 129, 300, 16383, 16384, 16500):
        yield h + s1(b"q" * n)
        yield h + b"S" + varint(2 * (n // 2)) + "é".encode() * (n // 2)
        pad = b"\0" if (3 + len(varint(2 * (n // 4)))) % 2 else b""
        yield h + pad + b"c" + varint(2 * (n // 4)) + "aĀ€😀"[0:2].encode("utf-16-le") * (n // 8) \
            + b"x\0" * (n // 4 - 2 * (n // 8))
        yield h + b"B" + varint(n) + bytes(i % 251 for i in range(n))
        yield h + b"Z" + varint(2 * (n // 8 * 8)) + bytes([255] * (n // 8 * 8))
    for n in (127, 128, 129, 200):
        # n objects, then references to the first, last and middle of them
        body = b"A" + varint(n + 3) + b"o{\0" * n
        yield h + body + b"^" + varint(1) + b"^" + varint(n) + b"^" + varint(n // 2) \
            + b"$\0" + varint(n + 3)
        yield h + b"A" + varint(n) + b"I\2" * n + b"$\0" + varint(n)
        yield h + b"a" + varint(n * 1000) + b"U" + varint(n) + b"T@\1" + varint(n * 1000)
        yield h + b"o" + b"".join(s1(b"k%d" % i) + b"0" for i in range(n)) + b"{" + varint(n)
        yield h + b";" + b"".join(b"U" + varint(i) + b"T" for i in range(n)) + b":" + varint(2 * n)
        yield h + b"'" + b"".join(b"U" + varint(i) for i in range(n)) + b"," + varint(n)
    for d in (30, 60):
        yield h + b"A\1" * d + b"0" + b"$\0\1" * d
        yield h + (b"o" + s1(b"k")) * d + b"0" + b"{\1" * d
        yield h + b"rc" * d + b"0" + b"." * d
    # every kind of object between a first object and a reference to a later one
    objs = [b"o{\0", b"A\0$\0\0", b"a\0@\0\0", b";:\0", b"',\0", b"y", b"x", b"n" + bytes(8),
            b"z\0", b"s\1a", b"D" + bytes(8), b'R"\1a\0', b"r.", b'rm"\1a.', b"rc0.", b"B\0",
            b"B\4abcdVB\0\4\0", b"~\2\4ab", b"~\2\4abVB\0\0\3", b"u\1", b"t\1", b"p\1",
            b"\\\1\2ab", b"u\1VB\0\4\0", b"t\1VB\0\4\0", b"0", b"I\2", b'"\1a', b"Z\0"]
    ids = [1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 2, 1, 1, 1, 1, 2, 2, 0, 0, 0, 0]
    for i, x in enumerate(objs):
        for k in range(1, ids[i] + 2):
            yield h + b"A\3" + x + b"o\"\1mT{\1" + b"^" + varint(k) + b"$\0\3"
        if ids[i]:
            yield h + b"A\2" + x + b"^\1$\0\2"
            yield h + b"o\"\1a" + x + b"\"\1b^\1{\2"
            yield h + b";" + x + b"T^\1F:\4" if ids[i] == 1 and x[:1] not in b"yxnzs" \
                else h + b";\"\1k" + x + b":\2"
    for i in (-2**31, -65, -64, -1, 0, 63, 64, 2**31 - 1):
        yield h + b"I" + varint(zig(i))
    for f in (0.0, -0.0, 5e-324, 1.5, 2.0**53, float("inf"), float("-inf"), float("nan")):
        yield h + dbl(f)
        yield h + b"n" + dbl(f)[1:]


def wellformed(r: random.Random, n: int):
    yield from handmade()
    for i in range(n):
        yield StreamGen(r, exotic=i % 3 == 0, maxdepth=r.choice([1, 2, 3, 4]),
                        budget=r.choice([4, 8, 14])).stream()


def malformed(r: random.Random, n: int):
    """All truncations of small streams, then random corruptions."""
    k = 0
    for b in handmade():
        if len(b) < 40:
            for i in range(len(b)):
                k += 1
                if k % 4 == 0 or n > 10000:
                    yield b[:i]
        else:
            for i in (1, len(b) // 2, len(b) - 1, len(b) - 2):
                yield b[:i]
    for v in list(range(0, 20)) + [127, 128, 255]:
        yield b"\xff" + bytes([v]) + b"0"
        yield bytes([v]) + b"\x0f0"
    for t in range(256):
        yield b"\xff\x0f" + bytes([t])
        yield b"\xff\x0fA\1" + bytes([t]) + b"0$\0\1"
        yield b"\xff\x0fo" + bytes([t]) + b"\1a0{\1"
        yield b"\xff\x0fr" + bytes([t]) + b'"\1a.'
    m = n - k // 4
    while m > 0:
        b = StreamGen(r, exotic=r.random() < 0.3, maxdepth=r.choice([1, 2, 3]),
                      budget=r.choice([3, 6, 12])).stream()
        x = r.random()
        if x < 0.25:
            for i in range(2, len(b), r.choice([1, 2, 3, 5])):
                yield b[:i]
                m -= 1
        else:
            for _ in range(4):
                yield mutate(r, b)
                m -= 1
