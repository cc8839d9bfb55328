"""F01: output never uses a format feature the target V8 version lacks."""
import json
import os
import random
import re

import gen_values
import model
import wire
from common import write_trace
from packaging.version import Version
from v8serialize import (Encoder, FeatureNotEnabledEncodeV8SerializeError, IllegalCyclicReferenceV8SerializeError,
                         JSRegExpFlag, SerializationFeature, SymbolicVersion, V8SerializeError, dumps)
from v8serialize.encode import DefaultEncodeContext, TagWriter, WritableTagStream, default_encode_steps
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSDataView, JSError, JSErrorData, JSFloat16Array,
                                 JSInt16Array, JSMap, JSObject, JSRegExp, JSSet, JSUint8Array)

F = SerializationFeature
FEATS = {"resizable": F.ResizableArrayBuffers, "v": F.RegExpUnicodeSets,
         "float16": F.Float16Array, "circular": F.CircularErrorCause}
BASE = [[10, 0, 29], [10, 7, 123], [11, 0, 193], [12, 1, 109]]


def flags(names):
    f = F.MaxCompatibility
    for n in sorted(names):
        f |= FEATS[n]
    return f


def names(f):
    return sorted(n for n, x in FEATS.items() if x in f)


def versions(r, thorough):
    out = [[], [0], [9], [10], [11], [12], [13], [99], [10, 0], [10, 1], [10, 7], [11, 0], [11, 1], [12, 0],
           [12, 1], [12, 2], [10, 0, 29, 0], [10, 0, 29, 5], [10, 0, 28, 9], [9, 9, 99, 9], [11, 0, 193, 0, 0],
           [11, 0, 193, 1], [10, 10], [10, 0, 3], [10, 0, 290], [10, 7, 13], [12, 1, 11], [2, 12], [100, 0, 0]]
    for b in BASE:
        out.append(b)
        for i in range(3):
            for d in (-1, 1):
                v = [*b]
                v[i] = max(0, v[i] + d)
                out.append(v)
    for _ in range(60 if thorough else 8):
        b = r.choice(BASE)
        out.append([x + r.choice([-1, 0, 0, 0, 1, 10]) if x else r.choice([0, 1]) for x in b] + r.choice([[], [r.randint(0, 300)]]))
    return [list(x) for x in sorted({tuple(abs(n) for n in v) for v in out})]


def spell(r, v):
    """A way to write the version."""
    if not v:
        return SymbolicVersion.Unreleased
    s = ".".join(map(str, v))
    return r.choice([s, s, Version(s), s + "-rusty", s + "-node.12", s + "+x1"])


def needing(r, needs):
    """A value that uses the features `needs`, somewhere in it."""
    parts = []
    if "resizable" in needs:
        b = JSArrayBuffer(b"abcdefgh", max_byte_length=r.choice([8, 16]))
        parts.append(r.choice([
            b, [b, b], JSUint8Array(b), JSInt16Array(b, 2), JSDataView(b, 1, 3), [JSUint8Array(b), JSInt16Array(b)],
            JSMap([(b, JSDataView(b))])]))
    if "circular" in needs:
        cls = r.choice([JSError, JSErrorData])
        e = cls("m", stack=r.choice([None, "s"]))
        e.cause = r.choice([e, [e], {"e": e}, cls("x", cause=e), JSMap([(1, e)])])
        parts.append(e)
    if "v" in needs:
        parts.append(r.choice([JSRegExp("a", JSRegExpFlag.UnicodeSets), re.compile("b"), re.compile("b", re.I),
                               JSRegExp("c", JSRegExpFlag.UnicodeSets | JSRegExpFlag.Global)]))
    if "float16" in needs:
        parts.append(r.choice([JSFloat16Array(JSArrayBuffer(b"abcd")), JSFloat16Array(b"abcd"),
                               JSFloat16Array(bytearray(b"abcdef"), 2), JSFloat16Array(JSArrayBuffer(b"")), ]))
    parts += [1, "a", JSArrayBuffer(b"xy"), JSRegExp("d", JSRegExpFlag.Global), JSErrorData("ok", cause=1)][:r.randint(0, 5)]
    r.shuffle(parts)
    k = r.randint(0, 6)
    if k == 0 and len(parts) == 1:
        return parts[0]
    if k == 1:
        return {"k": parts}
    if k == 2:
        return JSMap([(p, p) for p in parts if not isinstance(p, (list, dict))] + [(0, parts)])
    if k == 3:
        return JSObject([(str(i), p) for i, p in enumerate(parts)])
    if k == 4:
        return JSErrorData("outer", cause=parts)
    if k == 5:
        return [[[parts]], parts]
    return JSArray(parts)


def writing(c, r, opt, d, recs, metas):
    """Write something that uses the features d["needs"] under the options."""
    v = needing(r, d["needs"])
    kw = {}
    if opt["feats"] or r.random() < .5:
        kw["features"] = flags(opt["feats"])
    if opt["ver"]:
        kw["v8_version"] = spell(r, opt["ver"][0])
    meta = {"value": gen_values.show(v)[:300], "options": str(kw), "needs": d["needs"]}
    write = (lambda x: dumps(x, **kw)) if r.random() < .6 else (lambda x: Encoder(**kw).encode(x))
    feats = set(d["enabled"])
    st, x, rec = wire.encode_value(v, write, feats=sorted(feats), strict=1, rab="resizable" in feats)
    c.count("written" if st == "ok" else "refused")
    if d["can"]:
        if st != "ok":
            c.violation("data was refused although what it needs is enabled", {**meta, "outcome": repr(x)[:300]})
            return
    else:
        if st == "err" and isinstance(x, V8SerializeError):
            missing = set(d["needs"]) - feats
            if "circular" not in missing and isinstance(x, IllegalCyclicReferenceV8SerializeError):
                c.violation("a circular cause was refused although it is enabled", meta)
            return
        known = set(d["needs"]) - feats - {"resizable"} == {"v"}
        c.violation("data that needs a feature that is not enabled was not refused",
                    {**meta, "outcome": repr(x)[:300]}, key="regexp-v-flag" if known else None)
        if not known or st != "ok":
            return
        rec["feats"] = sorted(feats | {"v"})
    recs.append(rec)
    metas.append(meta)


def stream_level(c, r):
    """The stream writer itself refuses, naming the feature."""
    for f in range(16):
        feats = F(f)
        f16 = JSFloat16Array(JSArrayBuffer(b"abcd"))
        ws = WritableTagStream(features=feats)
        st, x = wire.call(ws.write_js_array_buffer_view, f16)
        if F.Float16Array in feats:
            if st != "ok":
                c.violation("write_js_array_buffer_view() refused an enabled Float16Array", {"features": f, "outcome": repr(x)})
        elif not isinstance(x, FeatureNotEnabledEncodeV8SerializeError) or x.feature_required != F.Float16Array:
            c.violation("write_js_array_buffer_view() did not refuse a Float16Array", {"features": f, "outcome": repr(x)})
        elif bytes(ws.data):
            c.violation("a refused view left data", {"features": f, "data": bytes(ws.data).hex()})
        for mk in (lambda: JSArrayBuffer(b"ab", max_byte_length=4), lambda: JSArrayBuffer(b"ab")):
            b = mk()
            ws = WritableTagStream(features=feats)
            ws.write_js_array_buffer(b)
            rsz = b.resizable and F.ResizableArrayBuffers in feats
            if bytes(ws.data) != (b"~\x02\x04ab" if rsz else b"B\x02ab"):
                c.violation("a buffer is written in another form", {"features": f, "data": bytes(ws.data).hex()})
        e = JSErrorData("m")
        e.cause = e
        ws = WritableTagStream(features=feats)
        ctx = DefaultEncodeContext(stream=ws, encode_steps=default_encode_steps)
        st, x = wire.call(ws.write_js_error, e, ctx)
        if F.CircularErrorCause in feats:
            if st != "ok" or bytes(ws.data) != b"rmS\x01mc^\x00.":
                c.violation("an enabled circular cause is not written", {"features": f, "data": bytes(ws.data).hex()})
        elif not isinstance(x, IllegalCyclicReferenceV8SerializeError):
            c.violation("write_js_error() did not refuse a circular cause", {"features": f, "outcome": repr(x)})

    # a later step may take over a Float16Array that cannot be written
    def other(value, /, ctx, next):
        if isinstance(value, JSFloat16Array):
            ctx.encode_object(list(value.backing_buffer.data))
        else:
            next(value)
    st, x = wire.call(dumps, [JSFloat16Array(JSArrayBuffer(b"ab")), 1], encode_steps=[TagWriter(), other])
    if st != "ok" or bytes(x) != bytes(dumps([[97, 98], 1])):
        c.violation("a Float16Array was not passed on to the next step", {"outcome": repr(x)[:200]})


def run(c):
    r = random.Random(f"F01-{c.seed}")
    vs = versions(r, c.thorough)
    c.count("versions", len(vs))
    path = write_trace([{"v": v} for v in vs])
    os.environ["KEYS"] = path
    try:
        recs = [json.loads(x) for x in model.explore(
            c, "FeaturesMC", invariants=["ReadableByTarget", "FirstReads", "More"])]
    finally:
        os.unlink(path)
    recs.sort(key=lambda d: json.dumps(d, sort_keys=True))
    c.count("options", len(recs))
    wrecs, metas = [], []
    budget = c.n(3500, 40000) / len(recs)
    for d in recs:
        opt = d["opt"]
        c.traces += 1
        if not d["needs"] or d["refused"]:
            ver = spell(r, opt["ver"][0]) if opt["ver"] else None
            info = {"features": sorted(opt["feats"]), "version": str(ver)}
            if ver is not None:
                st, x = wire.call(F.supported_by, v8_version=ver)
                if d["refused"]:
                    if st != "err" or not isinstance(x, LookupError):
                        c.violation("a version too old for the format was not refused", {**info, "outcome": repr(x)})
                elif st != "ok" or (not opt["feats"] and names(x) != sorted(d["enabled"])):
                    c.violation("supported_by() is wrong", {**info, "outcome": repr(x), "expected": d["enabled"]})
            f = flags(opt["feats"])
            for st, x in (wire.call(Encoder, features=f, v8_version=ver),
                          *([wire.call(Encoder, v8_version=ver)] if not opt["feats"] else [])):
                if d["refused"]:
                    if st != "err" or not isinstance(x, LookupError):
                        c.violation("Encoder() accepted a version too old for the format", {**info, "outcome": repr(x)})
                    continue
                if st != "ok" or names(x.features) != sorted(d["enabled"]):
                    c.violation("Encoder() enables other features", {**info, "outcome": repr(getattr(x, "features", x)), "expected": d["enabled"]})
                    continue
                want = Version(".".join(map(str, d["first"]))) if d["first"] else SymbolicVersion.Unreleased
                st, y = wire.call(lambda: x.first_v8_version)
                if st != "ok" or y != want:
                    c.violation("Encoder.first_v8_version is wrong", {**info, "outcome": repr(y), "expected": str(want)})
            if d["refused"]:
                st, x = wire.call(dumps, 1, features=f, v8_version=ver)
                if st != "err" or not isinstance(x, LookupError):
                    c.violation("dumps() accepted a version too old for the format", {**info, "outcome": repr(x)})
                continue
        if d["refused"]:
            continue
        n = budget * (6 if not opt["ver"] else 1)
        for _ in range(int(n) + (r.random() < n % 1)):
            writing(c, r, opt, d, wrecs, metas)
    for n, x in FEATS.items():
        if F.for_name(x.name) != x:
            c.violation("for_name() finds another feature", {"name": x.name})
    stream_level(c, r)
    # whole value graphs under every subset
    for v, feats in gen_values.graphs(r, c.n(600, 12000)):
        fs = set(feats) | {f for f in FEATS if r.random() < .3}
        st, x, rec = wire.encode_value(v, lambda y: dumps(y, features=flags(fs)), feats=sorted(fs),
                                       strict=1, rab="resizable" in fs)
        meta = {"value": gen_values.show(v)[:300], "features": sorted(fs)}
        if st != "ok":
            c.violation("a value was refused", {**meta, "outcome": repr(x)[:300]})
        else:
            wrecs.append(rec)
            metas.append(meta)

    def report(verdict, status, amb, rec, meta):
        c.count("judged-features-" + ("+".join(sorted(rec["feats"])) or "none"))
        if verdict == "ok":
            c.sample({k: str(v)[:300] for k, v in meta.items()})
        else:
            c.violation(verdict, meta)
    wire.judge(c, wrecs, metas, report=report)
