"""Random V8-format byte streams (independent of the library's encoder).

The generator only needs to be *mostly* well-formed: the TLA+ wire machine
decides what each stream means.
"""
from __future__ import annotations

import random
import struct


def varint(n: int, pad: int = 0) -> bytes:
    out = bytearray()
    while True:
        b = n & 127
        n >>= 7
        if n or pad:
            out.append(b | 128)
        else:
            out.append(b)
            return bytes(out)
        if not n and pad:
            pad -= 1
            while pad:
                out.append(128)
                pad -= 1
            out.append(0)
            return bytes(out)


def zig(n: int) -> int:
    return (abs(n) << 1) - (n < 0)


INTS = [0, 1, -1, 63, 64, -64, -65, 127, 128, 255, 256, 16383, 16384, 2**30 - 1, 2**30,
        2**31 - 1, -2**31, 2**31 - 2]
UINTS = [0, 1, 127, 128, 16383, 16384, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
DOUBLES = [0.0, -0.0, 1.0, -1.0, 0.5, -1.5, 1e21, 1e300, 5e-324, 2.0**31, 2.0**32, 2.0**53,
           2.0**53 - 1, -(2.0**53), float("inf"), float("-inf"), float("nan"), 3.25,
           4294967294.0, 4294967295.0, 1e15, 123456789012345.0, -42.0, 7.0, 2.0**63,
           2.2250738585072014e-308]
TEXTS = ["", "a", "b", "ab", "0", "1", "2", "01", "-1", "-0", "00", "4294967294", "4294967295",
         "4294967296", "é", "ÿ", "€", "😀", "a😀b", "x" * 20, "__proto__", "length", "1.5", "1e3",
         "9007199254740993", " 1", "\x00", "٣", "²"]
KEYTEXT = ["a", "b", "c", "0", "1", "2", "5", "01", "4294967294", "4294967295", "é", "€",
           "-1", "length", "", "٣", "²", "10", "99999999999"]
VTAGS = {98: 1, 66: 1, 67: 1, 119: 2, 87: 2, 100: 4, 68: 4, 104: 2, 102: 4, 70: 8, 113: 8,
         81: 8, 63: 1}


class StreamGen:
    def __init__(self, rng: random.Random, ver: int | None = None, host=True, exotic=True,
                 maxdepth: int = 3, budget: int = 12):
        self.r = rng
        self.ver = ver or rng.choice([13, 14, 15, 15, 15])
        self.out = bytearray()
        self.ids: list[str] = []     # kinds, for choosing references
        self.bufs: dict[int, tuple[int, bool]] = {}
        self.host = host
        self.exotic = exotic
        self.maxdepth = maxdepth
        self.budget = budget

    def u(self, *bs: int) -> None:
        self.out += bytes(bs)

    def vi(self, n: int) -> None:
        self.out += varint(n)

    def stream(self) -> bytes:
        self.u(255)
        self.vi(self.ver)
        self.value(0)
        return bytes(self.out)

    def text(self, tag: int, s: str) -> None:
        if tag == 34:
            s = "".join(c for c in s if ord(c) < 256)
            d = s.encode("latin1")
        elif tag == 99:
            d = s.encode("utf-16-le")
            # V8 pads so that the two-byte text is aligned
            if (len(self.out) + 1 + len(varint(len(d)))) % 2:
                self.u(0)
        else:
            d = s.encode()
        self.u(tag)
        self.vi(len(d))
        self.out += d

    def string(self, pool=TEXTS) -> None:
        self.text(self.r.choice([34, 34, 99, 83]), self.r.choice(pool))

    def bigint(self) -> None:
        r = self.r
        n = r.choice([0, 1, 2**63, 2**64 - 1, 2**64, r.getrandbits(r.randint(1, 200))])
        ln = (n.bit_length() + 63) // 64 * 8 if r.random() < 0.7 else (n.bit_length() + 7) // 8
        self.vi((ln << 1) | (r.random() < 0.4))
        self.out += n.to_bytes(ln, "little")

    def prim(self) -> None:
        r = self.r
        k = r.randint(0, 7)
        if k == 0:
            self.u(r.choice(b"_0TF"))
        elif k == 1:
            self.u(73)
            self.vi(zig(r.choice(INTS)))
        elif k == 2:
            self.u(85)
            self.vi(r.choice(UINTS))
        elif k == 3:
            self.u(78)
            self.out += struct.pack("<d", r.choice(DOUBLES))
        elif k == 4:
            self.u(90)
            self.bigint()
        else:
            self.string()

    def key(self) -> None:
        r = self.r
        k = r.randint(0, 9)
        if k < 2:
            self.u(73)
            self.vi(zig(r.choice([0, 1, 2, 3, 5, 17, -1, 2**31 - 1])))
        elif k == 2:
            self.u(85)
            self.vi(r.choice([0, 1, 2, 4, 30, 2**32 - 2, 2**32 - 1]))
        elif k == 3:
            self.u(78)
            self.out += struct.pack("<d", r.choice([0.0, 1.0, 3.0, -1.0, 4294967294.0,
                                                    4294967295.0, 2.0**53, 0.5]))
        else:
            self.string(KEYTEXT)

    def pad(self) -> None:
        if self.exotic and self.r.random() < 0.02:
            self.out += bytes(self.r.randint(1, 3))

    def props(self, d: int, end: int, n=None) -> int:
        n = self.r.choice([0, 1, 1, 2, 3]) if n is None else n
        for _ in range(n):
            self.pad()
            self.key()
            self.value(d + 1)
        self.u(end)
        self.vi(n)
        return n

    def inline(self, pool=TEXTS) -> None:
        self.pad()
        self.string(pool)

    def view(self, ident: int) -> None:
        r = self.r
        n, rsz = self.bufs[ident]
        tag = r.choice(list(VTAGS))
        sz = VTAGS[tag]
        if n < 0:
            n = 16
        off = r.randint(0, n // sz) * sz
        ln = r.randint(0, (n - off) // sz) * sz
        if r.random() < 0.12:
            off += r.choice([1, sz, 8, n])
        if r.random() < 0.12:
            ln += r.choice([1, sz, 8])
        self.u(86, tag)
        self.vi(off)
        fl = 0
        if rsz:
            fl = r.choice([2, 3])
        if r.random() < 0.04:
            fl = r.randint(0, 3)
        if fl & 1:
            ln = 0
        self.vi(ln)
        if self.ver >= 14:
            self.vi(fl)
        self.ids.append("view")

    def buffer(self) -> None:
        r = self.r
        k = r.choice([66, 66, 66, 126, 117, 116]) if self.exotic else 66
        ident = len(self.ids)
        self.ids.append("buf")
        if k in (66, 126):
            n = r.choice([0, 1, 2, 4, 8, 8, 16])
            self.u(k)
            self.vi(n)
            if k == 126:
                self.vi(n + r.choice([0, 1, 8, 100]))
            self.out += bytes(r.choice([0, 1, 65, 86, 255, r.randint(0, 255)]) for _ in range(n))
            self.bufs[ident] = (n, k == 126)
        else:
            self.u(k)
            self.vi(r.choice([0, 1, 5, 300, 2**32 - 1]))
            self.bufs[ident] = (-1, False)
        if r.random() < 0.6:
            self.view(ident)

    def value(self, d: int) -> None:
        r = self.r
        self.pad()
        self.budget -= 1
        if d >= self.maxdepth or self.budget <= 0:
            if self.ids and r.random() < 0.4:
                return self.ref()
            return self.prim()
        k = r.randint(0, 21)
        if k < 5:
            self.prim()
        elif k < 8:
            self.u(111)
            self.ids.append("obj")
            self.props(d, 123)
        elif k < 10:
            n = r.choice([0, 1, 2, 3, 4])
            self.u(65)
            self.vi(n)
            self.ids.append("arr")
            for _ in range(n):
                if r.random() < 0.2:
                    self.u(45)
                else:
                    self.value(d + 1)
            self.props(d, 36, r.choice([0, 0, 0, 1, 2]))
            self.vi(n)
        elif k == 10:
            n = r.choice([0, 1, 3, 6, 20, 1000, 2**32 - 1, 2**32 - 2])
            self.u(97)
            self.vi(n)
            self.ids.append("arr")
            self.props(d, 64)
            self.vi(n)
        elif k == 11:
            self.u(59)
            self.ids.append("map")
            n = r.choice([0, 1, 2, 3])
            for _ in range(n):
                self.value(d + 1)
                self.value(d + 1)
            self.u(58)
            self.vi(2 * n)
        elif k == 12:
            self.u(39)
            self.ids.append("set")
            n = r.choice([0, 1, 2, 3])
            for _ in range(n):
                self.value(d + 1)
            self.u(44)
            self.vi(n)
        elif k == 13:
            t = r.choice(b"yxnzs")
            self.u(t)
            if t == 110:
                self.out += struct.pack("<d", r.choice(DOUBLES))
            elif t == 122:
                self.bigint()
            elif t == 115:
                b = r.choice(TEXTS).encode()
                self.vi(len(b))
                self.out += b
            self.ids.append("prim")
        elif k == 14:
            self.u(68)
            ms = r.choice([0.0, 1.0, -1.0, 1700000000000.0, 1700000000123.0, -62135596800000.0,
                           253402300799999.0, float(r.randint(-10**13, 10**13)), 0.5,
                           float("nan"), float("inf"), 1e300, 8.64e15, -0.0])
            self.out += struct.pack("<d", ms)
            self.ids.append("date")
        elif k == 15:
            self.u(82)
            self.inline(["", "a", "a+", "[é]", "€", "x" * 30])
            self.vi(r.choice([0, 1, 2, 3, 4, 8, 16, 32, 64, 128, 256, 511 - 256, 255,
                              r.randint(0, 511), 512, 272]))
            self.ids.append("re")
        elif k == 16:
            self.error(d)
        elif k == 17:
            self.buffer()
        elif k == 18:
            self.u(112)
            self.vi(r.choice([0, 1, 7, 2**32 - 1]))
            self.ids.append("shared")
        elif k == 19 and self.host:
            self.u(92)
            code = r.randint(0, 12)
            sz = [1, 1, 1, 2, 2, 4, 4, 4, 8, 1, 1, 8, 8][code]
            n = sz * r.choice([0, 1, 2])
            self.vi(code)
            self.vi(n)
            self.out += bytes(r.randint(0, 255) for _ in range(n))
            self.ids.append("host")
        elif self.ids:
            self.ref()
        else:
            self.prim()

    def ref(self) -> None:
        r = self.r
        i = r.randrange(len(self.ids))
        if r.random() < 0.04:
            i = len(self.ids) + r.choice([0, 1, 5])
        self.u(94)
        self.vi(i)
        if i in self.bufs and r.random() < 0.5:
            self.view(i)

    def error(self, d: int) -> None:
        r = self.r
        self.u(114)
        if r.random() < 0.7:
            self.u(r.choice(b"ERFSTU"))
        if r.random() < 0.8:
            self.u(109)
            self.inline()
        stack = r.random() < 0.5
        legacy = stack and r.random() < 0.3
        if stack and not legacy:
            self.u(115)
            self.inline()
        self.ids.append("err")
        if r.random() < 0.5:
            self.u(99)
            self.value(d + 1)
        if legacy:
            self.u(115)
            self.inline()
        self.u(46)


INTEREST = [0, 255, 13, 14, 15, 16, 127, 128, *b'_0TF-IUNZ"cSoaA{@$;:\',DRr^BVutp~\\yxnzs?wWdDhfFqQb.mE']


def mutate(r: random.Random, b: bytes) -> bytes:
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not b:
            return bytes(b)
        k = r.randint(0, 7)
        i = r.randrange(len(b))
        if k == 0:
            del b[i:]
        elif k == 1:
            b[i] ^= 1 << r.randint(0, 7)
        elif k == 2:
            b[i] = r.choice(INTEREST)
        elif k == 3:
            b.insert(i, r.choice(INTEREST))
        elif k == 4:
            del b[i]
        elif k == 5:
            b[i] = (b[i] + r.choice([1, -1])) % 256
        elif k == 6:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.randint(1, 4)]
        else:
            b[i] = r.randint(0, 255)
    return bytes(b)
