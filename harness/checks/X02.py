"""X02: each option of loads() changes what it names, and nothing else.

spec/LoadsOptions.tla enumerates every set of options and says whether it is
accepted and who reads host objects; spec/V8Wire.tla, given the customisations,
says what a stream then stands for.  Every set is run on a stream holding each
kind of value twice (nested and shared), then random sets on generated streams.
"""
import json
import random
from collections import OrderedDict
from collections.abc import MutableSet
from datetime import timedelta, timezone

import absval
import gen_streams
import model
import wire
from absval import HostVal, Sentinel
from common import call, hexs
from v8serialize import Decoder, DecodeV8SerializeError, TagReader, loads
from v8serialize.constants import SerializationTag as S
from v8serialize.decode import TagReaderRegistry
from v8serialize.jstypes import JSArray, JSErrorData, JSHole, JSMap, JSObject, JSSet, JSUndefined


class MyObj(JSObject):
    pass


class MyArr(JSArray):
    pass


class MyMap(JSMap):
    pass


class MySet(JSSet):
    pass


class DObj(dict):
    pass


class DArr(dict):
    pass


class DMap(dict):
    pass


class OMap(OrderedDict):
    pass


class OSet(MutableSet):
    """An insertion-ordered set with the abstract methods only."""

    def __init__(self):
        self.d = {}

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def add(self, x):
        self.d.setdefault(x)

    def discard(self, x):
        self.d.pop(x, None)


class MyErr:
    """An error class of its own which is filled in while the error is read."""

    def __init__(self, e):
        self.name, self.message, self.stack, self.cause = e.name, e.message, e.stack, e.cause


class ErrBox:
    """An error representation which wraps the data being read."""

    def __init__(self, partial):
        self.partial = partial


def own_error(partial):
    e = MyErr(partial)
    return e, e


def boxed_error(partial):
    return ErrBox(partial), partial


TYPES = {
    "js_object_type": ("obj", [(MyObj, None), (DObj, "dobj")]),
    "js_array_type": ("arr", [(MyArr, None), (DArr, "darr")]),
    "jsmap_type": ("map", [(MyMap, None), (DMap, None), (OMap, None), (dict, None)]),
    "jsset_type": ("set", [(MySet, None), (OSet, None), (set, None)]),
    "js_error_builder": ("err", [(JSErrorData, None), (MyErr, "err"), (ErrBox, "err!")]),
    "default_timezone": ("date", [(timezone(timedelta(hours=-5, minutes=-30)), None),
                                  (timezone.utc, None)]),
}
BUILDERS = [JSErrorData.builder, own_error, boxed_error]
CONST = [S.kTheHole, S.kUndefined, S.kNull, S.kTrue, S.kFalse]
VALUES = [JSHole, JSUndefined, None, True, False, "s"] + [Sentinel(i) for i in range(1, 6)]


def host_fn(*, stream):
    code = stream.read_varint(max_bits=32)
    return HostVal(code, bytes(stream.read_bytes(stream.read_varint(max_bits=32))))


class HostObj:
    def deserialize_host_object(self, *, stream):
        return host_fn(stream=stream)


def negated(reader, tag, ctx):
    return -ctx.stream.read_int32()


class Alien(TagReader):
    """Another reader, which the options may be shared with."""

    def alien(self, tag, ctx):
        return "alien"

    def register_tag_readers(self, tag_readers):
        super().register_tag_readers(tag_readers)
        for t in S:
            tag_readers.register(t, Alien.alien)


def constants(r):
    tags = r.sample(CONST, r.randint(1, 5))
    return {t: r.choice(VALUES) for t in tags}


def pairs(m):
    return [[int(t), absval.prim_tok(v, "py")] for t, v in m.items()]


def build(r, case, via):
    """(options, tag_readers or None, opt, custom, tz) for one set of options."""
    kw = {}
    opt = {"const": [], "over": []}
    custom, tz = {}, None
    for name in case["given"]:
        if name in TYPES:
            kind, choices = TYPES[name]
            k = r.randrange(len(choices))
            t, walk = choices[k]
            opt[kind] = k + 1
            if kind == "date":
                kw[name] = tz = t
                opt[kind] = 1
            else:
                custom[t] = (k + 1, walk)
                kw[name] = BUILDERS[k] if kind == "err" else t
        elif name == "js_constants":
            m = constants(r)
            kw[name] = m
            opt["const"] = pairs(m)
        elif name == "host_object_deserializer":
            kw[name] = r.choice([host_fn, HostObj()])
            opt["custom"] = 1
    if "js_error_builder" not in kw:
        # the default builder makes JSError
        custom[JSErrorData] = (99, None)
    reg = None
    if via != "loads" and r.random() < 0.5:
        reg = TagReaderRegistry()
        if r.random() < 0.6:
            reg.register(S.kInt32, negated)
            opt["neg"] = 1
        if r.random() < 0.6:
            over = constants(r)
            for t, v in over.items():
                reg.register(t, lambda reader, tag, ctx, v=v: v)
            opt["over"] = pairs(over)
        if r.random() < 0.5:
            reg.register(S.kBeginJSObject, TagReader.deserialize_js_object)
    return kw, reg, opt, custom, tz


def prefixed(v):
    return gen_streams.H[2] + v


# Every kind of value, nested and shared (ids in order of appearance)
KINDS = [b"0", b"_", b"T", b"F", b"I\x07", b"I\0", b'"\2hi', b"N" + bytes(6) + b"\xf8?", b"Z\x10" + b"\7" * 8,
         b'o"\1aI\4"\1b_{\2', b"A\3I\2-T$\0\3", b'a\5I\2T"\1xF@\2\5', b';"\1kT"\1l0:\4',
         b"'\"\1pI\5,\2", b"D" + bytes(8), b'R"\1a\1', b'rEm"\1a.', b'rm"\1ms"\1sco{\0.',
         b"rc_.", b"y", b"x", b's\1w', b"B\2ab", b"B\4abcdVB\0\4\0", b"u\1", b"t\1", b"p\2",
         b"\\\1\2ab"]


def sink(r):
    """A stream with every kind in a random place, and references back."""
    xs = KINDS[:]
    r.shuffle(xs)
    ids = {b"B\4abcdVB\0\4\0": 2, b'rm"\1ms"\1sco{\0.': 2}
    out, n = b"", 1
    count = 0
    for x in xs:
        out += x
        count += 1
        if x[:1] in b'oAa;\'DRyxsBrutp\\':
            n += ids.get(x, 1)
            if r.random() < 0.5:
                # (a bare reference to a buffer must not precede 'V': none does)
                out += b"^" + bytes([r.randrange(n)])
                count += 1
    wrap = r.randrange(4)
    body = b"A" + bytes([count]) + out + b"$\0" + bytes([count])
    if wrap == 0:
        body = b"rc" + body + b"."
    elif wrap == 1:
        body = b'o"\1q' + body + b"{\1"
    elif wrap == 2:
        body = b';"\1q' + body + b":\2"
    else:
        body = b"'" + body + b",\1"
    if wrap != 2 or True:
        # ids are shifted by the wrapper; references stay in range
        pass
    return prefixed(body)


def run(c):
    r = random.Random(f"X02-{c.seed}")
    lines = model.explore(c, "LoadsOptions", invariants=["All"])
    cases = sorted((json.loads(x) for x in lines), key=lambda d: json.dumps(d, sort_keys=True))
    for d in cases:
        d["given"].sort()
    c.count("option-sets", len(cases))
    recs, metas = [], []

    def run_one(case, via, b):
        kw, reg, opt, custom, tz = build(r, case, via)
        host = case["host"] if via == "loads" else case["reader"]
        given = dict(reg.index) if reg else None, dict(kw.get("js_constants", ()))
        if r.random() < .5:
            Alien(tag_readers=reg, **{k: v for k, v in kw.items() if r.random() < .5 or k == "js_constants"})
        if via == "loads":
            if case["node"] != "unset":
                kw["nodejs"] = case["node"] == "true"
            fn = lambda x: loads(x, **kw)  # noqa: E731
        elif via == "steps":
            fn = lambda x: loads(x, decode_steps=[TagReader(reg, **kw)])  # noqa: E731
        else:
            d = Decoder(decode_steps=iter([TagReader(tag_readers=reg, **kw)]))
            fn = d.decodes
        rec, meta = wire.rec_decode(
            b, fn, DecodeV8SerializeError, host=0 if host == "none" else 1, opt=opt,
            walk_kw=dict(custom=custom, tz=tz),
            info={"via": via, "options": sorted(kw), "opt": opt, "host": host})
        recs.append(rec)
        metas.append(meta)
        if given != (dict(reg.index) if reg else None, dict(kw.get("js_constants", ()))):
            c.violation("options were changed by reading with them", {"options": sorted(kw), "via": via})

    for case in cases:
        b = sink(r)
        if case["refused"]:
            kw, _, _, _, _ = build(r, case, "loads")
            if "decode_steps" in case["given"]:
                kw["decode_steps"] = [TagReader()]
            if case["node"] != "unset":
                kw["nodejs"] = case["node"] == "true"
            st, v = call(loads, b, **kw)
            c.count("refused-sets")
            if not (st == "err" and isinstance(v, TypeError)):
                c.violation("conflicting options were accepted",
                            {"options": sorted(kw), "outcome": repr(v)[:200]})
        elif case["given"] == ["decode_steps"]:
            rec, meta = wire.rec_decode(b, lambda x: loads(x, decode_steps=[TagReader()]),
                                        DecodeV8SerializeError, host=0,
                                        opt={"const": [], "over": []},
                                        walk_kw=dict(custom={}, tz=None), info={"via": "steps"})
            recs.append(rec)
            metas.append(meta)
        else:
            run_one(case, "loads", b)
            c.count("accepted-sets")
    ok = [d for d in cases if not d["refused"] and "decode_steps" not in d["given"]]
    for b in gen_streams.wellformed(r, c.n(3000, 40000)):
        if len(b) > 2000 or (len(b) > 300 and r.random() < 0.7):
            continue
        run_one(r.choice(ok), r.choice(["loads", "steps", "decoder"]), b)

    def report(verdict, status, amb, rec, meta):
        if amb:
            return
        c.count("judged-" + status)
        if verdict == "ok":
            c.sample({"bytes": meta["bytes"], "info": meta.get("info")})
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
