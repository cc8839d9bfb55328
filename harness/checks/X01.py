"""X01: encode/decode steps run in order and control what follows."""
import json
import random

import model
from common import call
from v8serialize import (DecodeV8SerializeError, Encoder, Decoder, UnhandledTagDecodeV8SerializeError, dumps, loads)
from v8serialize.constants import SerializationTag
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader
from v8serialize.encode import (DefaultEncodeContext, EncodeV8SerializeError, TagWriter,
                                UnhandledValueEncodeV8SerializeError, WritableTagStream, serialize_object_references)
from v8serialize.jstypes import JSArray, JSObject

T = SerializationTag


class Custom(Exception):
    pass


class Unknown:
    """What the writer does not know."""

    def __init__(self, name):
        self.name = name


class Obj:
    """An object whose keys are any values."""

    def __init__(self):
        self.items = []


def universe(r):
    v = {"p": r.choice(["p", "pp", "é"]), "q": r.choice([5, 7.5, -1]), "n": r.choice([None, True, None]),
         "x": Unknown("x"), "y": Unknown("y")}
    lists = ["E", "L", "M", "T", "C", "R"]
    new = r.choice([list, list, JSArray])
    for k in lists:
        v[k] = new()
    for k in "OPNQKS":
        v[k] = Obj()

    def fill(k, *kids):
        for i, n in enumerate(kids):
            if isinstance(v[k], list):
                v[k].append(v[n])
            else:
                v[k][i] = v[n]
    fill("L", "p", "x")
    fill("M", "x", "L", "y")
    fill("T", "L", "L")
    fill("C", "C", "p")
    fill("R", "S", "L", "L")
    for k, a, b in (("O", "x", "p"), ("P", "p", "L"), ("N", "n", "x"), ("Q", "q", "O"), ("K", "L", "p"), ("S", "L", "L")):
        v[k].items = [(v[a], v[b])]
    return v


def nameof(u, x):
    for k, v in u.items():
        if v is x or type(v) is type(x) and not isinstance(v, (Unknown, Obj, list, JSArray)) and v == x:
            return k
    return repr(x)[:60]


class AsObject:
    def __init__(self, f):
        self.encode = self.decode = f


def enc_step(u, log, spec, i, r):
    kind, args = spec[0], [u[a] for a in spec[1:]]
    writer = TagWriter()
    form = r.choice(["object", "object", "dense", "sparse"])

    def step(value, /, ctx, next):
        log.append([i, nameof(u, value)])
        if args and nameof(u, value) != spec[1]:
            return next(value)
        if kind == "pass":
            return next(value)
        if kind == "replace":
            return next(args[1])
        if kind == "restart":
            return ctx.encode_object(args[1])
        if kind == "handle":
            return ctx.stream.write_string_utf8("H") if i % 2 else ctx.stream.write_string_onebyte("H")
        if kind == "refuse":
            raise Custom(spec[1])
        if kind == "pair":
            ctx.stream.write_tag(T.kBeginDenseJSArray)
            ctx.stream.objects.record_reference(object())
            ctx.stream.write_varint(2)
            next(u["p"])
            next(u["q"])
            ctx.stream.write_tag(T.kEndDenseJSArray)
            ctx.stream.write_varint(0)
            ctx.stream.write_varint(2)
            return
        if kind == "catch":
            n = len(ctx.stream.data)
            try:
                return next(value)
            except UnhandledValueEncodeV8SerializeError:
                if len(ctx.stream.data) != n:
                    raise
                return ctx.stream.write_string_utf8("C!")
        if kind == "retry":
            n = len(ctx.stream.data)
            try:
                return next(value)
            except EncodeV8SerializeError as e:
                if isinstance(e, UnhandledValueEncodeV8SerializeError) or len(ctx.stream.data) != n:
                    raise
                return next(u["p"])
        if kind == "rescue":
            n = len(ctx.stream.data)
            try:
                return next(value)
            except EncodeV8SerializeError:
                del ctx.stream.data[n:]
                return ctx.stream.write_string_utf8("C!")
        if kind == "refs":
            return serialize_object_references(value, ctx, next)
        assert kind == "writer"
        if isinstance(value, Obj):      # property keys are also those of arrays
            if form == "dense":
                return ctx.stream.write_js_array_dense([], ctx, properties=value.items, identity=value)
            if form == "sparse":
                return ctx.stream.write_js_array_sparse(value.items, ctx, length=9, identity=value)
            return ctx.stream.write_js_object(value.items, ctx, identity=value)
        return writer.encode(value, ctx, next)
    return step if r.random() < .6 else AsObject(step)


def flatten(v, u, out, seen):
    if isinstance(v, (JSArray, JSObject)):
        for k, s in enumerate(seen):
            if s is v:
                out.append(f"^{k + 1}")
                return out
        seen.append(v)
        if isinstance(v, JSArray) and not v.properties and v.array.elements_used == len(v.array):
            out.append("[")
            for x in v.array:
                flatten(x, u, out, seen)
            out.append("]")
        else:
            out.append("{")
            for k, x in v.items():
                key = {"p": u["p"], "q": u["q"]}
                out.append(next((n for n, w in key.items() if str(k) == (f"{w:.15g}" if isinstance(w, float) else str(w))), str(k)))
                flatten(x, u, out, seen)
            out.append("}")
    elif isinstance(v, tuple):
        out.append("w(")
        flatten(v[1], u, out, seen)
        out.append(")")
    elif v in ("H", "C!"):
        out.append(v)
    else:
        out.append(nameof(u, v))
    return out


def encode(u, steps, v, how):
    if how == 0:
        return dumps(v, encode_steps=steps)
    if how == 1:
        return dumps(v, encode_steps=iter(steps))
    if how == 2:
        return bytes(Encoder(encode_steps=tuple(steps)).encode(v))
    ctx = DefaultEncodeContext(steps, stream=WritableTagStream())
    ctx.stream.write_header()
    ctx.encode_object(v)
    return bytes(ctx.stream.data)


def run_enc(c, r, d, shared):
    u = universe(r)
    log = []
    steps = [enc_step(u, log, s, i + 1, r) for i, s in enumerate(d["s"])]
    if shared is not None and steps and r.random() < .1:     # the configuration is copied
        enc = Encoder(encode_steps=steps)
        if r.random() < .5:
            steps.append(steps[0])
        st, b = call(lambda: bytes(enc.encode(u[d["v"]])))
    else:
        st, b = call(encode, u, steps, u[d["v"]], r.randint(0, 3))
    got = {"log": log[:400], "out": [], "err": "", "ev": ""}
    if st == "ok":
        st2, v = call(loads, b)
        if st2 != "ok":
            got["err"] = f"loads: {v!r}"[:150]
        else:
            got["out"] = flatten(v, u, [], [])
    elif isinstance(b, UnhandledValueEncodeV8SerializeError):
        got["err"], got["ev"] = "unhandled", nameof(u, b.value)
    elif isinstance(b, Custom):
        got["err"] = "custom"
    elif isinstance(b, EncodeV8SerializeError):
        got["err"] = "key"
    else:
        got["err"] = repr(b)[:150]
    want = {"log": d["log"], "out": d["out"] if not d["err"] else [], "err": d["err"], "ev": d["ev"]}
    c.traces += 1
    c.count("encode-" + (d["err"] or "ok"))
    if got != want:
        c.violation("encode steps do not run as specified", {"steps": d["s"], "value": d["v"], "expected": want, "got": got})


DU = {"z": None, "t": True, "f": False, "s": "s"}
TAGS = {T.kNull: "z", T.kTrue: "t", T.kFalse: "f", T.kOneByteString: "s", T.kUtf8String: "s", T.kTwoByteString: "s",
        T.kLegacyReservedBlob: "u", T.kBeginDenseJSArray: "[", T.kBeginJSObject: "{", T.kObjectReference: "^"}
TAGOF = {"z": T.kNull, "t": T.kTrue, "f": T.kFalse, "u": T.kLegacyReservedBlob}


def stream_of(toks, r):
    out, counts = bytearray(b"\xff\x0f"), []
    ends = {}
    stack = []
    for i, t in enumerate(toks):
        if t in "[{":
            stack.append(i)
        elif t in "]}":
            ends[stack.pop()] = i
    n = {}

    def items(i):
        k, j = 0, i + 1
        while j < ends[i]:
            k += 1
            j = ends[j] + 1 if j in ends else j + 1
        return k
    stack = []
    for i, t in enumerate(toks):
        if t == "[":
            out += b"A" + bytes([items(i)])
            stack.append(items(i))
        elif t == "]":
            out += b"$\x00" + bytes([stack.pop()])
        elif t == "{":
            out += b"o"
            stack.append(items(i) // 2)
        elif t == "}":
            out += b"{" + bytes([stack.pop()])
        elif t[0] == "^":
            out += b"^" + bytes([int(t[1]) - 1])
        elif t == "s":
            out += r.choice([b'"\x01s', b"S\x01s", b"cXs"]).replace(b"cXs", b'"\x01s')
        elif t == "u":
            out += bytes([T.kLegacyReservedBlob])
        else:
            out += {"z": b"0", "t": b"T", "f": b"F"}[t]
    return bytes(out)


def dec_step(log, spec, i, r, reader):
    kind = spec[0]

    def step(tag, /, ctx, next):
        name = TAGS[tag]
        full = name
        if name == "^":             # which one
            full = f"^{ctx.stream.data[ctx.stream.pos] + 1}"
        log.append([i, full])
        if len(spec) > 1 and spec[1] != name:
            return next(tag)
        if kind == "pass":
            return next(tag)
        if kind == "wrap":
            return ("w", next(tag))
        if kind == "retag":
            return next(TAGOF[spec[2]])
        if kind == "restart":
            return ctx.decode_object(tag=TAGOF[spec[2]])
        if kind == "handle":
            if name == "s":
                ctx.stream.read_string_onebyte() if tag is T.kOneByteString else ctx.stream.read_string_utf8()
            return "H"
        if kind == "refuse":
            raise Custom(name)
        if kind == "catch":
            pos = ctx.stream.pos
            try:
                return next(tag)
            except UnhandledTagDecodeV8SerializeError:
                if ctx.stream.pos != pos:
                    raise
                return "C!"
        assert kind == "reader"
        return reader.decode(tag, ctx, next)
    return step if r.random() < .6 else AsObject(step)


def run_dec(c, r, d, shared):
    log = []
    b = stream_of(d["v"], r)
    reader = shared if r.random() < .5 else TagReader()
    steps = [dec_step(log, s, i + 1, r, reader) for i, s in enumerate(d["s"])]
    how = r.randint(0, 4)
    pos = None
    if how == 0:
        st, v = call(loads, b, decode_steps=steps)
    elif how == 1:
        st, v = call(loads, b, decode_steps=iter(steps))
    elif how == 2:
        dec = Decoder(decode_steps=steps)
        steps.append(None)
        st, v = call(dec.decodes, b)
    else:
        s = ReadableTagStream(b)
        s.read_header()
        ctx = DefaultDecodeContext(stream=s, decode_steps=steps)
        st, v = call(ctx.decode_object) if how == 3 else call(lambda: ctx.decode_object(tag=s.read_tag()))
        pos = s.pos
    got = {"log": log[:400], "out": [], "err": "", "ev": ""}
    if st == "ok":
        got["out"] = flatten(v, {**DU, "q": object()} | {"p": object()}, [], [])
        if pos is not None and "C!" not in d["out"] and d["pos"] > len(d["v"]) and pos != len(b):
            got["err"] = f"stopped at {pos} of {len(b)}"
    elif isinstance(v, UnhandledTagDecodeV8SerializeError):
        got["err"], got["ev"] = "unhandled", TAGS.get(v.tag)
        if not isinstance(v, DecodeV8SerializeError):
            got["err"] = "not a DecodeV8SerializeError"
    elif isinstance(v, Custom):
        got["err"] = "custom"
    else:
        got["err"] = repr(v)[:150]
    ev = d["ev"][:1]
    want = {"log": d["log"], "out": d["out"] if not d["err"] else [], "err": d["err"], "ev": ev}
    c.traces += 1
    c.count("decode-" + (d["err"] or "ok"))
    if got != want:
        c.violation("decode steps do not run as specified", {"steps": d["s"], "stream": d["v"], "bytes": b.hex(), "expected": want, "got": got})


def run(c):
    r = random.Random(c.seed * 4001 + 9)
    inv = ["InOrder", "StartsAtFirst", "NoStepsNothing", "PassIsNothing"]
    for way, f in (("enc", run_enc), ("dec", run_dec)):
        lines = sorted(model.explore(c, "StepsMC", {"Dir": f'"{way}"', "Max": c.n(2, 3)}, inv, mem="12g"))
        c.count(way + "-cases", len(lines))
        if c.thorough and len(lines) > 250000:
            lines = r.sample(lines, 250000)
        shared = TagReader()
        for ln in lines:
            d = json.loads(ln)
            if d["err"] != "endless" and not (d.get("cut") and any(t[0] == "^" for t in d["out"])):
                f(c, r, d, shared)
        c.sample(d)
