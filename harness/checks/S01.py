"""S01: strings keep their exact code points in all encodings and lengths."""
import random

import gen_values
import wire
from streams import varint
from v8serialize import DecodeV8SerializeError, EncodeV8SerializeError, dumps, loads
from v8serialize.encode import TagWriter, serialize_object_references
from v8serialize.constants import JSRegExpFlag
from v8serialize.jstypes import (JSArray, JSError, JSMap, JSObject, JSPrimitiveObject, JSRegExp,
                                 JSSet)


class Str(str):
    pass


EDGE = [0, 1, 9, 10, 0x1f, 0x20, 0x22, 0x5c, 0x7e, 0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xfe, 0xff, 0x100,
        0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfeff, 0xfffd,
        0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x1fffe, 0xffffe, 0xfffff,
        0x100000, 0x10fbff, 0x10fc00, 0x10fffe, 0x10ffff]


def sweep(thorough):
    """All code points (thorough), or all below U+0900 and samples of every 256-block."""
    if thorough:
        return [i for i in range(0x110000) if not 0xd800 <= i < 0xe000]
    out = list(range(0x900))
    for b in range(0x900, 0x110000, 0x100):
        if not 0xd800 <= b < 0xe000 and (b < 0x10000 or b % 0x1000 in (0, 0xf00)):
            out += [b, b + (b >> 8) % 254 + 1, b + 0xff]
    return sorted(set(out + EDGE))


def text(r, nbytes, cs):
    """A text of exactly nbytes UTF-8 bytes made of the characters cs."""
    out, n = [], 0
    while n < nbytes:
        ch = r.choice(cs)
        w = len(ch.encode())
        if n + w > nbytes:
            ch, w = "~", 1
        out.append(ch)
        n += w
    return "".join(out)


def lengths(thorough):
    out = [*range(0, 40), *range(120, 136), 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096,
           16382, 16383, 16384, 16385]
    if thorough:
        out += [*range(40, 120), *range(136, 300), 8191, 8192, 32767, 32768, 65535, 65536, 65537]
    return out


def texts(r, thorough):
    for n in lengths(thorough):
        for cs in ("a", "é", "a€", "\U0001f600", "aé€\U0001f600", "\x00\x7f"):
            if n > 600 and cs not in ("a", "aé€\U0001f600") and not thorough:
                continue
            yield text(r, n, cs)
    for i in EDGE:
        for j in r.sample(EDGE, 3):
            yield chr(i) + chr(j)
        yield chr(i)
        yield chr(i) * 3
    for _ in range(2000 if thorough else 200):
        yield "".join(chr(r.choice(EDGE)) if r.random() < .5 else
                      chr(r.choice([r.randrange(0xd800), r.randrange(0xe000, 0x110000)]))
                      for _ in range(r.randint(1, 12)))
    # not normalised, not case folded, not stripped, kept apart
    for t in ("e\u0301", "\u00e9", "\u212b", "\u00c5", "ﬁ", "ß", "ẞ", "İ", " a ", "\ufeffa", "\r\n", "\n", "\r",
              "a\x00", "\x00a", "\u2028", "\u0130", "\u200d", "1", "01", "\\ud800", "%", "None", "NaN", "-0"):
        yield t


def sweep_texts(thorough):
    cps = sweep(thorough)
    n = 300 if thorough else 150
    for i in range(0, len(cps), n):
        yield "".join(map(chr, cps[i:i + n]))


def places(t, r):
    """t at every kind of place (some at random)."""
    yield "top", t
    yield "element", [t, 1, t]
    opts = [
        ("key", {t: 1}), ("key", JSObject([(t, t)])), ("map key", JSMap([(t, t), (t + "x", 0)])),
        ("set", JSSet([t, t + " "])), ("wrapper", [JSPrimitiveObject(t), t]),
        ("regexp", JSRegExp(t or "x", JSRegExpFlag.NoFlag)), ("message", JSError(t)), ("stack", JSError("m", stack=t)),
        ("array property", arr(t)),
        ("mixed", [[t], {"a": t, t: [t]}, t]), ("subclass", [Str(t), {Str(t): Str(t)}]),
    ]
    yield from (opts if len(t) < 3 and r.random() < .3 else r.sample(opts, 2))


def arr(t):
    a = JSArray([1])
    a["p" + t] = t
    return a


def writer(kind, r=None):
    """An encode step that writes every str with another writer of the stream."""
    def step(value, /, ctx, next):
        if isinstance(value, str):
            k = r.choice(["one", "two", "utf8"]) if kind == "mix" else kind
            if k == "one" and max(value, default="") > "\xff":
                k = "two"
            {"one": ctx.stream.write_string_onebyte, "two": ctx.stream.write_string_twobyte,
             "utf8": ctx.stream.write_string_utf8}[k](value)
        else:
            next(value)
    return step


def lone(r):
    for s in ("\ud800", "\udfff", "a\udc00", "\udbffa", "\udc00\ud800", "\ud83d", "x" * 200 + "\ud83d",
              "\ude00\ud83d", "é\ud800€", chr(r.randrange(0xd800, 0xe000))):
        yield s




def bodies(r, thorough):
    """(encoding, length given, bytes) of string bodies, valid and not."""
    ts = [text(r, n, cs) for n in (0, 1, 2, 3, 5, 127, 128, 129) for cs in ("a", "aé", "é€", "\U0001f600a")]
    ts += ["".join(map(chr, r.sample(EDGE, 4))) for _ in range(60 if thorough else 15)]
    for t in ts:
        for enc, tag in (("latin1", b'"'), ("utf-16-le", b"c"), ("utf-8", b"S")):
            try:
                b = t.encode(enc)
            except UnicodeEncodeError:
                continue
            yield tag, len(b), b
    for _ in range(600 if thorough else 120):    # any bytes
        b = r.randbytes(r.randint(1, 8))
        for tag in (b'"', b"c", b"S"):
            yield tag, len(b), b
    bad8 = ["80", "bf", "c0", "c080", "c1bf", "e08080", "e09fbf", "eda080", "edbfbf", "edad80edb080",
            "f0808080", "f08fbfbf", "f4908080", "f5808080", "f8888080 80", "ff", "fe", "c2", "e282", "e2",
            "f09f98", "c3c3", "e28261", "f09f6100", "c280", "e0a080", "ed9fbf", "ee8080", "f0908080",
            "f48fbfbf", "efbfbe", "efbbbf61", "00", "f7bfbfbf", "fc8080808080"]
    for h in bad8:
        b = bytes.fromhex(h)
        for pre, post in ((b"", b""), (b"a", b""), (b"", b"a"), (b"\xc3\xa9", b"\xe2\x82\xac")):
            yield b"S", len(pre + b + post), pre + b + post
    units = [0x61, 0, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0xffff, 0xfeff, 0xfffe, 0xd83d, 0xde00]
    for a in units:
        for b in units:
            for tail in ([], [0x62]):
                x = b"".join(u.to_bytes(2, "little") for u in (a, b, *tail))
                yield b"c", len(x), x
        yield b"c", 2, a.to_bytes(2, "little")
        yield b"c", 1, a.to_bytes(2, "little")[:1]
        yield b"c", 3, a.to_bytes(2, "little") + b"\x61"
    for tag in (b'"', b"c", b"S"):               # lengths that do not fit
        for ln, b in ((1, b""), (4, b"abc"), (2, b""), (128, b"a" * 127), (2**31, b"ab"), (2**32, b"ab"),
                      (2**63, b""), (2**40 + 2, b"ab")):
            yield tag, ln, b


def streams(r, thorough):
    h = b"\xff\x0f"
    for tag, ln, b in bodies(r, thorough):
        pads = [0] if ln > 40 and not thorough else [0, r.randint(1, 2)]
        for vp in ([0, 1] if r.random() < .2 else [0]):
            if len(varint(ln, vp)) > 9:
                continue
            s = tag + varint(ln, vp) + b
            for p in pads:
                yield h + b"\x00" * p + s
            w = r.randint(0, 9)
            if w == 0:
                yield h + b"o" + s + b"T{\x01"
            elif w == 1:
                yield h + b";" + s + s + b":\x02"
            elif w == 2:
                yield h + b"'" + s + b",\x01"
            elif w == 3:
                yield h + b"s" + s + b"^\x00"
            elif w == 4:
                yield h + b"R" + s + b"\x00"
            elif w == 5:
                yield h + b"r" + b"m" + s + b"s" + s + b"."
            elif w == 6:
                yield h + b"A\x02" + s + b"\x00" * r.randint(0, 1) + s + b"$\x00\x02"
            elif w == 7:
                yield h + b"a\x03" + s + b"_@\x01\x03"
            elif w == 8:
                yield b"\xff" + bytes([r.choice([13, 14])]) + b"\x00" + s
            else:
                yield h + b"o" + b'"\x01a' + b"\x00" * r.randint(0, 1) + s + b"{\x01"


def run(c):
    r = random.Random(f"S01-{c.seed}")
    recs, metas = [], []

    def add(rec, **meta):
        recs.append(rec)
        metas.append({**meta, "kind": rec["kind"]})

    def all_texts():
        for t in sweep_texts(c.thorough):
            yield t, not c.thorough
        for t in texts(r, c.thorough):
            yield t, True
    for t, rich in all_texts():
        c.count("texts")
        for where, v in places(t, r) if rich else [("top", t), ("element", [t, t])]:
            meta = {"where": where, "value": gen_values.show(v)[:400], "length": len(t)}
            for st, why, rec in (wire.encode_value(v, dumps, strict=1),
                                 wire.roundtrip_value(v, dumps, loads)):
                if st != "ok":
                    c.violation("dumps() did not encode a string", {**meta, "outcome": repr(why)[:300]})
                elif rec["kind"] == "rt" and why:
                    c.violation("string does not come back", {**meta, "outcome": why[:300]})
                else:
                    c.count("place-" + where)
                    add(rec, **meta)
        # the other writers of the stream
        if len(t) < 3000:
            for kind in ("two", "one", "utf8", "mix") if rich else ("mix",):
                if kind == "one" and max(t, default="") > "\xff":
                    continue
                steps = [serialize_object_references, writer(kind, r), TagWriter()]
                v = r.choice([t, [t, 0, t], JSMap([(t, 1.5), (1, t), (300, t)]), {"k" + t: [t]}, {"a" * r.randint(0, 4): t, "b": t}])
                meta = {"writer": kind, "value": gen_values.show(v)[:400]}
                st, why, rec = wire.encode_value(v, lambda x: dumps(x, encode_steps=steps), strict=1)
                if st != "ok":
                    c.violation("a string writer refused a string", {**meta, "outcome": repr(why)[:300]})
                else:
                    add(rec, **meta)
                    if rec["b"]:
                        rec2, m2 = wire.rec_decode(bytes(rec["b"]), loads, DecodeV8SerializeError)
                        add(rec2, **meta, **m2)
    # not representable
    for t in lone(r):
        vs = [t, [1, t], {t: 1}, {"a": t}, JSObject([(t, 1)]), JSMap([(t, 1)]), JSMap([(1, t)]), JSSet([t]),
              JSPrimitiveObject(t), JSRegExp(t, JSRegExpFlag.NoFlag), JSError(t), JSError("m", stack=t), JSError("m", cause=t),
              ValueError(t), arr(t), (t,), frozenset([t]), Str(t)]
        for v in vs:
            c.count("lone-surrogate")
            st, x = wire.call(dumps, v)
            if st != "err" or not isinstance(x, EncodeV8SerializeError):
                c.violation("a lone surrogate was not refused with EncodeV8SerializeError",
                            {"value": ascii(t), "in": type(v).__name__, "outcome": repr(x)[:200]})
        for kind in ("one", "two", "utf8"):
            def step(value, /, ctx, next, kind=kind):
                {"one": ctx.stream.write_string_onebyte, "two": ctx.stream.write_string_twobyte,
                 "utf8": ctx.stream.write_string_utf8}[kind](value)
            st, x = wire.call(dumps, t, encode_steps=[step])
            if st != "err" or not isinstance(x, ValueError):
                c.violation("a lone surrogate was written", {"value": ascii(t), "writer": kind, "outcome": repr(x)[:200]})
    for t in ("Ā", "aĀ", "\U0001f600", "é€"):
        st, x = wire.call(dumps, t, encode_steps=[lambda v, /, ctx, next: ctx.stream.write_string_onebyte(v)])
        if st != "err" or not isinstance(x, ValueError):
            c.violation("non-latin1 text written one-byte", {"value": ascii(t), "outcome": repr(x)[:200]})

    for b in streams(r, c.thorough):
        rec, meta = wire.rec_decode(b, loads, DecodeV8SerializeError)
        add(rec, **meta)

    def report(verdict, status, amb, rec, meta):
        c.count("judged-" + meta["kind"])
        if verdict == "ok":
            c.sample({k: str(v)[:300] for k, v in meta.items()})
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
