"""L01: the low-level stream writer and reader follow the format, call by call."""
import datetime
import json
import os
import random
import struct

import model
from absval import big_tok, dbl_tok, int_tok, mag, magtok, str_tok
from common import call, write_trace
from v8serialize import DecodeV8SerializeError, SerializationFeature
from v8serialize._errors import V8SerializeError
from v8serialize._references import ForwardReferenceError, SerializedIdOutOfRangeV8SerializeError
from v8serialize.constants import (JS_ARRAY_BUFFER_TAGS, JS_CONSTANT_TAGS, JS_OBJECT_KEY_TAGS, JS_PRIMITIVE_OBJECT_TAGS,
                                   JS_STRING_TAGS, ArrayBufferViewTag, JSErrorName, SerializationTag, TagConstraint)
from v8serialize.decode import ReadableTagStream
from v8serialize.encode import WritableTagStream
from v8serialize.jstypes import (JSArrayBuffer, JSArrayBufferTransfer, JSErrorData, JSPrimitiveObject, JSRegExp,
                                 JSRegExpFlag, JSSharedArrayBuffer)
from v8serialize.jstypes._v8 import V8SharedObjectReference

T = SerializationTag
F = SerializationFeature
NAMES = [JSErrorName.Error, JSErrorName.EvalError, JSErrorName.RangeError, JSErrorName.ReferenceError,
         JSErrorName.SyntaxError, JSErrorName.TypeError, JSErrorName.UriError]
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
CONS = [JS_OBJECT_KEY_TAGS, JS_STRING_TAGS, JS_ARRAY_BUFFER_TAGS, JS_CONSTANT_TAGS, JS_PRIMITIVE_OBJECT_TAGS]
COMPOSITE = {"map", "set", "object", "dense", "sparse", "error", "host"}


def cons(tags):
    for k in CONS:
        if sorted(int(t) for t in k.allowed_tags) == sorted(tags):
            return k
    return TagConstraint(name="some", allowed_tags=frozenset(T(t) for t in tags))


def num(m):
    return int.from_bytes(bytes(m), "little")


def signed(neg, m):
    return -num(m) if neg else num(m)


def text(cps):
    return "".join(map(chr, cps))


def double(b):
    return struct.unpack("<d", bytes(b))[0]


def nids(log):
    """How many serialized ids there are."""
    i = 0
    while True:
        try:
            log.get_object(i)
        except SerializedIdOutOfRangeV8SerializeError:
            return i
        except ForwardReferenceError:
            pass
        i += 1


class Fake:
    """A view that says what it is told to."""


class Writer:
    def __init__(self, st, r):
        f = F.MaxCompatibility
        f |= F.ResizableArrayBuffers if st["f"]["resizable"] else f
        f |= F.Float16Array if st["f"]["float16"] else f
        f |= F.CircularErrorCause if st["f"]["circular"] else f
        self.f = st["f"]
        self.r = r
        self.s = WritableTagStream(data=bytearray(st["w"]), features=f)
        self.byid = {}
        for i in range(st["n"]):
            self.byid[self.s.objects.record_reference(object())] = None
        if st["con"]:
            self.s.constrain_tags(cons(st["con"]))

    def encode_object(self, op):
        self.run(op)

    def pairs(self, ops):
        p = list(zip(ops[::2], ops[1::2]))
        return p if self.r.random() < .5 else iter(p)

    def ident(self):
        o = Fake()
        o.keep = self
        self.byid[len(self.byid)] = o
        return o

    def run(self, op):
        s, k, r = self.s, op[0], self.r
        tagged = {} if len(op) < 2 or op[1] != 0 else {"tag": None}
        if k == "tag":
            s.write_tag(None if op[1] < 0 else T(op[1]))
        elif k == "constrain":
            self.cm = s.constrain_tags(cons(op[1]))
        elif k == "free":
            with s.constrain_tags(CONS[0]):
                pass
        elif k == "const":
            s.write_constant(T(op[1]))
        elif k == "header":
            s.write_header()
        elif k == "varint":
            s.write_varint(signed(op[1], op[2]))
        elif k == "zigzag":
            s.write_zigzag(signed(op[1], op[2]))
        elif k == "double":
            x = double(op[2])
            if abs(x) < 2**53 and x == int(x) and (x or op[2][7] == 0) and r.random() < .3:
                x = int(x)
            s.write_double(x, **tagged)
        elif k in ("int32", "uint32", "bigint"):
            getattr(s, "write_" + k)(signed(op[2], op[3]), **tagged)
        elif k in ("latin1", "utf8", "utf16"):
            f = {"latin1": s.write_string_onebyte, "utf8": s.write_string_utf8, "utf16": s.write_string_twobyte}[k]
            f(text(op[2]), **tagged)
        elif k == "prim":
            v = {121: lambda: True, 120: lambda: False, 115: lambda: text(op[2]), 110: lambda: double(op[2]),
                 122: lambda: signed(op[2][0], op[2][1:])}[op[1]]()
            o = JSPrimitiveObject(v, tag=T.kBigIntObject) if op[1] == 122 else JSPrimitiveObject(v)
            self.obj(s.write_js_primitive_object, o)
        elif k == "regexp":
            self.obj(s.write_js_regexp, JSRegExp(text(op[1]), JSRegExpFlag(op[2])))
        elif k == "date":
            ms = int(double(op[1]))
            self.obj(s.write_js_date, EPOCH + datetime.timedelta(milliseconds=ms))
        elif k == "error":
            e = JSErrorData(name=NAMES[op[1]], message=text(op[2][0]) if op[2] else None,
                            stack=text(op[3][0]) if op[3] else None, cause=op[4][0] if op[4] else None)
            self.obj(s.write_js_error, e, self)
        elif k == "map":
            self.obj(s.write_jsmap, self.pairs(op[1]), self)
        elif k == "set":
            self.obj(s.write_jsset, list(op[1]) if r.random() < .5 else iter(op[1]), self)
        elif k == "object":
            self.obj(s.write_js_object, self.pairs(op[1]), self)
        elif k == "dense":
            if op[2] or r.random() < .5:
                s.write_js_array_dense(op[1], self, properties=self.pairs(op[2]), identity=self.ident())
            else:
                self.obj(s.write_js_array_dense, list(op[1]), self)
        elif k == "sparse":
            self.obj(s.write_js_array_sparse, self.pairs(op[3]), self, length=signed(op[1], op[2]))
        elif k == "refid":
            s.write_object_reference(serialized_id=op[1])
        elif k == "refobj":
            s.write_object_reference(obj=self.byid[op[1]] if op[1] in self.byid else Fake())
        elif k == "buffer":
            o = JSArrayBuffer(bytes(op[1])) if not op[2] else JSArrayBuffer(bytes(op[1]), max_byte_length=op[2][0])
            self.obj(s.write_js_array_buffer, o)
        elif k == "shared":
            self.obj(s.write_js_array_buffer, JSSharedArrayBuffer(num(op[1])))
        elif k == "transfer":
            self.obj(s.write_js_array_buffer, JSArrayBufferTransfer(num(op[1])))
        elif k == "sharedobj":
            self.obj(s.write_v8_shared_object_reference, V8SharedObjectReference(num(op[1])))
        elif k == "view":
            o = Fake()
            o.view_tag, o.byte_offset, o.byte_length = ArrayBufferViewTag(op[1]), num(op[2]), num(op[3])
            o.is_backing_buffer_resizable, o.is_length_tracking = bool(op[4]), bool(op[4] and op[5])
            o.backing_buffer = JSArrayBuffer(b"", max_byte_length=9 if op[4] else None)
            self.obj(s.write_js_array_buffer_view, o)
        elif k == "host":
            v = self.ident()

            def ser(*, stream, value):
                if stream is not s or value is not v:
                    raise AssertionError("other arguments")
                for o in op[1]:
                    self.run(o)
            if r.random() < .5:
                o = Fake()
                o.serialize_host_object = ser
                ser = o
            s.write_host_object(v, serializer=ser)
        else:
            raise AssertionError(k)

    def obj(self, f, o, *a, **k):
        """An object is known by itself or by the given identity."""
        n = len(self.byid)
        if self.r.random() < .5:
            k["identity"] = i = Fake()
        else:
            i = o
        self.byid[n] = i
        try:
            f(o, *a, **k)
        except ValueError:
            if n + 1 == len(self.byid) and nids(self.s.objects) == n:
                del self.byid[n]
            raise

    def apply(self, op):
        n = len(self.byid)

        def go():
            self.run(op)
            return "ok"
        st, v = call(go)
        if st == "ok":
            return v
        if st == "err" and isinstance(v, (ValueError, V8SerializeError)):
            if op[0] not in COMPOSITE:
                for i in [i for i in self.byid if i >= n]:
                    del self.byid[i]
            return "refused"
        return f"{st}: {v!r}"[:120]

    def observe(self):
        con = self.s.allowed_tags
        return {"w": list(self.s.data), "n": nids(self.s.objects), "f": self.f, "open": [],
                "con": sorted(int(t) for t in con.allowed_tags) if con else []}


# ---------------------------------------------------------------------------- operations

INTS = [0, 1, -1, 63, 64, -64, -65, 127, 128, 255, 256, 8191, 8192, 16383, 16384, 2**21 - 1, 2**21, 2**28, 2**31 - 1, 2**31,
        -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**53, -2**63, 2**64, 2**70]
TEXTS = ["", "a", "ab", "é", "ÿ", "Ā", "€", "😀", "a😀", "\x00", "￿", "߿ࠀ"]
DOUBLES = [0.0, -0.0, 1.0, -1.5, 5e-324, 1.7976931348623157e308, float("inf"), float("nan"), 2.0**53, 1e21, 4294967296.0]


def D(x):
    return list(struct.pack("<d", x)) if x == x else [0, 0, 0, 0, 0, 0, 248, 127]


def sg(n):
    return [1 if n < 0 else 0, mag(abs(n))]


def cps(s):
    return [ord(c) for c in s]


def CON(i):
    return sorted(int(t) for t in CONS[i].allowed_tags)


def alphabet(big):
    """The calls of the bounded model."""
    A = [["tag", 78], ["tag", 0], ["tag", -1], ["constrain", CON(0)], ["constrain", CON(1)], ["free"], ["header"],
         ["const", 84], ["const", 45], ["const", 73]]
    for n in INTS if big else [0, -1, 64, 16384, -2**31, 2**31, 2**32]:
        A += [["varint", *sg(n)], ["int32", 1, *sg(n)], ["uint32", 1, *sg(n)]]
        if n in (0, -1, 2**32, 255, -2**63):
            A += [["zigzag", *sg(n)], ["bigint", 1, *sg(n)], ["bigint", 0, *sg(n)], ["int32", 0, *sg(n)], ["uint32", 0, *sg(n)]]
    for s in TEXTS if big else ["", "a", "ÿ", "Ā", "😀"]:
        A += [["latin1", 1, cps(s)], ["utf8", 1, cps(s)], ["utf16", 1, cps(s)]]
    A += [["latin1", 0, cps("é")], ["utf8", 0, cps("é")], ["utf16", 0, cps("é")], ["utf16", 1, [0xd800]], ["utf8", 1, [97, 0xdfff]]]
    A += [["double", 1, D(x)] for x in (DOUBLES if big else [-0.0, 1.5])] + [["double", 0, D(1.0)]]
    A += [["prim", 121, []], ["prim", 120, []], ["prim", 110, D(2.5)], ["prim", 122, [1, 5]], ["prim", 115, cps("é")],
          ["regexp", cps("a"), 3], ["regexp", [], 0], ["date", D(86400000.0)], ["date", D(-1.0)],
          ["buffer", [1, 2], []], ["buffer", [1, 2], [300]], ["buffer", [], [0]], ["shared", mag(300)], ["transfer", mag(0)],
          ["sharedobj", mag(2**32 - 1)], ["view", 66, mag(0), mag(2), 0, 0], ["view", 100, mag(4), mag(300), 1, 0],
          ["view", 104, mag(0), mag(2), 1, 1], ["refid", 0], ["refid", 1], ["refid", -1], ["refobj", 0], ["refobj", 99],
          ["host", [["varint", *sg(3)], ["utf8", 1, [97]]]],
          ["map", []], ["map", [["uint32", 1, *sg(1)], ["map", []]]], ["set", [["utf16", 1, cps("ab")]]],
          ["object", [["utf16", 1, cps("k")], ["utf16", 1, cps("v")]]], ["object", [["const", 84], ["const", 84]]],
          ["object", [["double", 1, D(1.5)], ["refid", 0]]],
          ["dense", [], []], ["dense", [["const", 45], ["refid", 0]], [["utf8", 1, [97]], ["const", 48]]],
          ["sparse", 0, mag(2**32 - 1), [["uint32", 1, *sg(5)], ["set", []]]], ["sparse", 0, mag(2**32), []], ["sparse", 1, [1], []],
          ["error", 0, [], [], []], ["error", 2, [cps("m")], [cps("s")], [["const", 48]]], ["error", 6, [[]], [], []],
          ["error", 1, [], [], [["refid", 0]]], ["error", 0, [], [], [["error", 4, [], [], [["refid", 1]]]]]]
    return A


def rnum(r):
    return r.choice(INTS) if r.random() < .5 else r.getrandbits(r.choice([3, 7, 8, 14, 31, 32, 33, 64, 80])) * r.choice([1, 1, -1])


def rtext(r, top=0x10ffff):
    k = r.choice([0, 0, 1, 1, 2, 3, 5, 62, 63, 64, 65, 126, 127, 128]) if r.random() < .3 else r.choice([0, 1, 1, 2, 3])
    out = []
    for _ in range(k):
        c = r.choice([97, 98, r.randint(0, 255), r.randint(0, min(top, 0x7ff)), r.randint(0, top), 0x10ffff, 0xffff])
        out.append(97 if 0xd800 <= c < 0xe000 or c > top else c)
    return out


def rdate(r):
    return D(float(r.choice([0, 1, -1, 999, 10**12, -10**12, 253402300799999, -62135510400000, r.randint(-10**13, 10**13)])))


def rand_op(r, n, fuel=3, key=False):
    """A random call; n: about how many objects have an id."""
    t = 1 if fuel < 3 or r.random() < .85 else 0
    leaf = ["int32", "uint32", "double", "latin1", "utf8", "utf16"]
    if key:
        k = r.choice(leaf + ["nstr", "nnum"]) if r.random() < .95 else "const"
    elif fuel > 0 and r.random() < .3:
        k = r.choice(["map", "set", "object", "dense", "sparse", "error", "host"] if fuel > 2 else ["map", "set", "object", "dense", "sparse", "error"])
    else:
        k = r.choice(leaf + ["const", "bigint", "prim", "prim", "regexp", "date", "refid", "refobj", "buffer", "shared",
                             "transfer"] + (["tag", "header", "varint", "zigzag", "sharedobj", "view", "view", "constrain", "free",
                                             "free"] if fuel == 3 else []))
    sub = lambda m: [rand_op(r, n + 1, fuel - 1) for _ in range(m)]       # noqa: E731
    props = lambda m: [rand_op(r, n + 1, fuel - 1, key=i % 2 == 0) for i in range(2 * m)]    # noqa: E731
    m = r.choice([0, 1, 1, 2, 3])
    pm = r.choice([0, 0, 1, 2])
    if k in COMPOSITE and r.random() < .03:     # counts of two digits
        if r.random() < .5:
            m = r.choice([63, 64, 127, 128, 129, 200])
        else:
            pm = r.choice([127, 128, 129, 200])
        sub = lambda m: [rand_op(r, n + 1, 0) for _ in range(m)]       # noqa: E731
        props = lambda m: [rand_op(r, n + 1, 0, key=i % 2 == 0) for i in range(2 * m)]    # noqa: E731
        if r.random() < .7:     # legal ones
            props = lambda m: [["latin1", 1, cps(f"k{i}")] if i % 2 == 0 else ["const", 84] for i in range(2 * m)]    # noqa: E731
            sub = lambda m: [["int32", 1, *sg(i)] for i in range(m)]       # noqa: E731
    if k == "tag":
        return [k, r.choice([-1, 0, 73, 95, 111])]
    if k == "constrain":
        return [k, CON(r.randint(0, 4))]
    if k in ("free", "header"):
        return [k]
    if k == "const":
        return [k, r.choice([45, 95, 48, 84, 70] if r.random() < .9 or fuel < 3 else [73, 0, 111])]
    if k in ("varint", "zigzag"):
        return [k, *sg(rnum(r))]
    if k == "bigint":
        return [k, t, *sg(rnum(r))]
    if k in ("int32", "uint32"):
        v = rnum(r)
        if r.random() < .85:
            v = v % 2**32 if k == "uint32" else (v + 2**31) % 2**32 - 2**31
        return [k, t, *sg(v)]
    if k == "double":
        return [k, t, D(r.choice(DOUBLES) if r.random() < .5 else r.uniform(-1e9, 1e9))]
    if k in ("latin1", "utf8", "utf16"):
        c = rtext(r, 255 if k == "latin1" and r.random() < .9 else 0x10ffff)
        if r.random() < .03:
            c.insert(r.randint(0, len(c)), r.choice([0xd800, 0xdfff]))
        return [k, t, c]
    if k in ("nstr", "nnum", "prim"):
        g = {"nstr": 115, "nnum": 110}.get(k) or r.choice([121, 120, 110, 122, 115])
        return ["prim", g, D(r.choice(DOUBLES)) if g == 110 else rtext(r) if g == 115 else
                [x for y in sg(rnum(r)) for x in (y if isinstance(y, list) else [y])] if g == 122 else []]
    if k == "regexp":
        f = r.randint(0, 511)
        return [k, rtext(r), f & ~16 if f & 256 else f]
    if k == "date":
        return [k, rdate(r)]
    if k in ("refid", "refobj"):
        return [k, r.randint(0, n + 1)]
    if k == "buffer":
        b = [r.randint(0, 255) for _ in range(r.choice([0, 1, 2, 3, 127, 128]) if r.random() < .3 else r.randint(0, 3))]
        return [k, b, [] if r.random() < .5 else [len(b) + r.choice([0, 0, 1, 200])]]
    if k in ("shared", "transfer", "sharedobj"):
        return [k, mag(abs(rnum(r)) % 2**32)]
    if k == "view":
        a = r.randint(0, 1)
        return [k, r.choice([int(x) for x in ArrayBufferViewTag]), mag(abs(rnum(r)) % 2**32), mag(abs(rnum(r)) % 2**32), a, a and r.randint(0, 1)]
    if k in ("map",):
        return [k, sub(2 * m)]
    if k in ("set", "host"):
        return [k, sub(m)]
    if k == "object":
        return [k, props(m)]
    if k == "dense":
        return [k, sub(m), props(pm)]
    if k == "sparse":
        v = rnum(r)
        if r.random() < .9:
            v = abs(v) % 2**32
        return [k, *sg(v), props(m)]
    if k == "error":
        return [k, r.randint(0, 6), [rtext(r)] if r.random() < .6 else [], [rtext(r)] if r.random() < .6 else [],
                sub(1) if r.random() < .5 else []]
    raise AssertionError(k)


def start(r):
    return {"w": [], "n": 0, "con": [], "open": [],
            "f": {"resizable": r.randint(0, 1), "float16": r.randint(0, 1), "circular": r.randint(0, 1)}}


def write_history(r):
    st = start(r)
    d = Writer(st, r)
    steps = []
    for _ in range(r.choice([1, 4, 8, 16])):
        op = rand_op(r, len(d.byid))
        if op == ["varint", 1, []]:
            continue
        res = d.apply(op)
        steps.append({"op": op, "r": res, "obs": [d.observe()] if res == "ok" or op[0] not in COMPOSITE else []})
        if res != "ok" and op[0] in COMPOSITE:
            break
    return {"start": st, "steps": steps}, d


# ---------------------------------------------------------------------------- reading


class Reader:
    def __init__(self, b, pos, n, ver, r):
        self.s = ReadableTagStream(b, pos=pos, version=ver)
        self.r = r
        for _ in range(n):
            self.s.objects.record_reference(object())

    # a decode context for what is inside of containers
    @property
    def stream(self):
        return self.s

    def decode_object(self, *, tag=None):
        s, t = self.s, tag
        if t is None:
            if self.r.random() < .5:
                t = s.read_tag()
            else:
                t = s.read_tag(consume=False)
                s.pos += 1
        if t in JS_CONSTANT_TAGS:
            return Tok([int(t)])
        if t is T.kInt32:
            return Tok(int_tok(s.read_int32()))
        if t is T.kUint32:
            return Tok(int_tok(s.read_uint32()))
        if t is T.kDouble:
            return Tok(dbl_tok(s.read_double()))
        if t is T.kBigInt:
            return Tok(int_tok(s.read_bigint()))
        if t in (T.kOneByteString, T.kTwoByteString, T.kUtf8String):
            return self.string(t)
        f = {T.kRegExp: "regexp", T.kDate: "date", T.kError: "error", T.kBeginJSMap: "map", T.kBeginJSSet: "set",
             T.kBeginJSObject: "object", T.kBeginDenseJSArray: "dense", T.kBeginSparseJSArray: "sparse", T.kObjectReference: "ref"}.get(t)
        if f:
            return Tok(self.read([f, 0]))
        if t in JS_PRIMITIVE_OBJECT_TAGS:
            return Tok(self.read(["prim", int(t)]))
        if t in JS_ARRAY_BUFFER_TAGS:
            return Tok(self.read(["buffer", int(t)]))
        s.throw("unhandled")

    def string(self, t):
        v = {T.kOneByteString: self.s.read_string_onebyte, T.kUtf8String: self.s.read_string_utf8,
             T.kTwoByteString: self.s.read_string_twobyte}[t]()
        return Text(v)

    def drain(self, g, out, pair):
        n = 0
        it = iter(g)
        while True:
            try:
                x = next(it)
            except StopIteration as e:
                return n, e.value
            n += 1
            for y in x if pair else [x]:
                out += toks(y)

    def read(self, op):
        s, k = self.s, op[0]
        tag = {"tag": bool(op[1])} if len(op) > 1 and (op[1] or self.r.random() < .5) else {}
        idn = object()
        n0 = nids(s.objects)
        if k == "tag":
            c = op[1]
            c = None if not c else T(c[0]) if len(c) == 1 and self.r.random() < .5 else cons(c)
            x = s.read_tag(c, consume=bool(op[2]))
            assert type(x) is T
            return [int(x)]
        if k == "peak":
            x = s.peak_tag()
            return [-1 if x is None else int(x)]
        if k == "eof":
            return [int(s.eof)]
        if k == "padding":
            assert s.read_padding() is None
            return []
        if k == "bytes":
            return list(s.read_bytes(op[1]))
        if k == "varint":
            return int_tok(s.read_varint())
        if k == "zigzag":
            return int_tok(s.read_zigzag())
        if k == "header":
            x = s.read_header()
            assert x == s.version
            return [x]
        if k == "double":
            return dbl_tok(s.read_double(**tag))
        if k in ("int32", "uint32", "bigint"):
            x = getattr(s, "read_" + k)(**tag)
            assert type(x) is int
            return int_tok(x)
        if k in ("latin1", "utf8", "utf16"):
            return str_tok({"latin1": s.read_string_onebyte, "utf8": s.read_string_utf8, "utf16": s.read_string_twobyte}[k](**tag))
        if k == "prim":
            i, o = s.read_js_primitive_object(T(op[1]) if op[1] else None)
            assert s.objects.get_object(i) is o
            v = o.value
            big = o.tag is T.kBigIntObject
            return [i, *(([84] if v else [70]) if isinstance(v, bool) else int_tok(v) if big else str_tok(v) if isinstance(v, str) else dbl_tok(v))]
        if k == "regexp":
            i, o = s.read_js_regexp(self, **tag)
            assert s.objects.get_object(i) is o
            return [i, 82, *str_tok(str(o.source)), int(o.flags)]
        if k == "date":
            i, o = s.read_js_date(tz=datetime.timezone.utc, **tag)
            assert s.objects.get_object(i) is o
            d = o - EPOCH
            ms, rem = divmod(d, datetime.timedelta(milliseconds=1))
            assert not rem
            return [i, 68, *int_tok(ms)]
        if k == "error":
            got = []
            how = self.r.random() < .5
            if how:
                i, o = s.read_js_error(self, **tag)
                e = o
            else:
                obj = object()

                def build(data):
                    got.append(data)
                    return obj, data
                i, o = s.read_js_error(self, error=build, **tag)
                assert o is obj and len(got) == 1
                e = got[0]
            assert s.objects.get_object(i) is o
            return [114, i, NAMES.index(e.name), *(str_tok(e.message) if e.message is not None else [0]),
                    *(str_tok(e.stack) if e.stack is not None else [0]), *(toks(e.cause) if e.cause is not None else [0])]
        if k in ("map", "set", "object", "dense"):
            f = {"map": s.read_jsmap, "set": s.read_jsset, "object": s.read_js_object, "dense": s.read_js_array_dense}[k]
            g = f(self, identity=idn, **tag)
            out = []
            if k == "dense":
                ln = None
                items = []
                it = iter(g)
                while True:
                    try:
                        items.append(next(it))
                    except StopIteration as e:
                        ln, props = e.value
                        break
                assert s.objects.get_object(n0) is idn
                for i, (kk, v) in enumerate(items):
                    if i < ln:
                        assert kk == i
                        out += toks(v)
                    else:
                        out += toks(kk) + toks(v)
                assert len(items) == ln + props
                return [65, n0, *magtok(ln), *out, 0, props]
            n, ret = self.drain(g, out, k != "set")
            assert s.objects.get_object(n0) is idn
            return [{"map": 59, "set": 39, "object": 111}[k], n0, *out, 0, ret]
        if k == "sparse":
            ln, g = s.read_js_array_sparse(self, identity=idn, **tag)
            assert s.objects.get_object(n0) is idn
            out = []
            n, ret = self.drain(g, out, True)
            return [97, n0, *magtok(ln), *out, 0, ret]
        if k == "ref":
            i, o = s.read_object_reference(**tag)
            assert s.objects.get_object(i) is o
            return [94, i]
        if k == "buffer":
            made = []

            def mk(kind):
                def f(**kw):
                    if "data" in kw:
                        kw["data"] = bytes(kw["data"])
                    made.append((kind, kw, object()))
                    return made[-1][2]
                return f
            o = s.read_js_array_buffer(array_buffer=mk("b"), shared_array_buffer=mk("s"), array_buffer_transfer=mk("t"),
                                       tag=T(op[1]) if op[1] else None)
            (kind, kw, x), = made
            assert x is o and s.objects.get_object(n0) is o
            if kind == "b":
                assert set(kw) == {"data", "max_byte_length", "resizable"}
                z = kw["resizable"]
                assert z or kw["max_byte_length"] is None
                return [n0, 66, int(z), *(magtok(kw["max_byte_length"]) if z else [0]), len(kw["data"]), *kw["data"]]
            return [n0, 117 if kind == "s" else 116, *magtok(kw["buffer_id" if kind == "s" else "transfer_id"])]
        if k == "view":
            made = []

            def mkv(*, buffer, format, byte_offset, byte_length):
                made.append((buffer, format, byte_offset, byte_length))
                return made
            buf = object()
            o = s.read_js_array_buffer_view(buf, array_buffer_view=mkv, **tag)
            assert o is made and made[0][0] is buf and s.objects.get_object(n0) is made
            _, f, a, ln = made[0]
            return [86, int(f), *magtok(a), *([99] if ln is None else magtok(ln))]
        if k == "sharedobj":
            i, o = s.read_v8_shared_object_reference(**tag)
            assert s.objects.get_object(i) is o
            return [i, *int_tok(o.shared_value_id)]
        if k == "host":
            def de(*, stream):
                assert stream is s
                return bytes(s.read_bytes(op[2])) or Fake()
            if self.r.random() < .5:
                f = Fake()
                f.deserialize_host_object = de
                de = f
            o = s.read_host_object(de, **tag)
            assert s.objects.get_object(n0) is o
            return [] if isinstance(o, Fake) else list(o)
        if k == "value":
            return toks(self.decode_object())
        raise AssertionError(k)

    def apply(self, op):
        st, v = call(self.read, op)
        if st == "ok":
            return {"st": "ok", "v": v}
        if st == "err" and isinstance(v, DecodeV8SerializeError):
            return {"st": "refused", "v": []}
        return {"st": f"{st}: {v!r}"[:150], "v": []}

    def observe(self, b):
        return {"pos": self.s.pos, "n": nids(self.s.objects), "ver": self.s.version, "b": b}


class Tok(float):
    """A decoded value: its tokens (a float, so that it can be a key)."""

    def __new__(cls, t):
        x = float.__new__(cls, 0)
        x.t = t
        return x


class Text(str):
    pass


def toks(x):
    return x.t if isinstance(x, Tok) else str_tok(x)


READS = {"varint": ["varint"], "zigzag": ["zigzag"], "header": ["header"], "const": ["value"], "refid": ["ref", 1],
         "refobj": ["ref", 1], "buffer": ["buffer", 0], "shared": ["buffer", 0], "transfer": ["buffer", 0], "prim": ["prim", 0]}


def matching(op):
    if op[0] in READS:
        return READS[op[0]]
    if op[0] in ("latin1", "utf8", "utf16", "double", "int32", "uint32", "bigint"):
        return [op[0], op[1]]
    return [op[0], 1]


def any_read(r):
    k = r.choice(["tag", "tag", "peak", "eof", "padding", "bytes", "varint", "zigzag", "header", "double", "int32", "uint32",
                  "bigint", "latin1", "utf8", "utf16", "prim", "regexp", "date", "error", "map", "set", "object", "dense", "sparse",
                  "ref", "buffer", "view", "sharedobj", "host", "value", "value", "value"])
    if k == "tag":
        return [k, r.choice([[], [], CON(r.randint(0, 4)), [r.choice([78, 111, 0, 34])]]), r.randint(0, 1)]
    if k in ("peak", "eof", "padding", "varint", "zigzag", "header", "value"):
        return [k]
    if k == "bytes":
        return [k, r.choice([0, 1, 2, 3, 200])]
    if k == "prim":
        return [k, r.choice([0, 0, 121, 120, 110, 122, 115])]
    if k == "buffer":
        return [k, r.choice([0, 0, 66, 126, 117, 116])]
    if k == "host":
        return [k, r.randint(0, 1), r.choice([0, 1, 3])]
    return [k, r.randint(0, 1)]


def mutate(b, r):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2])):
        x = r.random()
        p = r.randint(0, len(b)) if b else 0
        ends = [i for i, v in enumerate(b) if v in (58, 44, 123, 36, 64, 46)]
        if x < .15 and ends:
            b[r.choice(ends)] = r.choice([58, 44, 123, 36, 64, 46])
        elif x < .4 and b:
            p = min(p, len(b) - 1)
            b[p] = r.choice([0, 1, 2, 127, 128, 255, r.randint(0, 255), (b[p] + 1) % 256, b[p] ^ 128, r.choice([34, 99, 83, 94, 111, 65])])
        elif x < .6:
            b[p:] = b""
        elif x < .8:
            b[p:p] = bytes([r.choice([0, 0, 128, 1, 94, 48])])
        else:
            del b[p:p + r.choice([1, 1, 2])]
    return bytes(b)


def read_history(r):
    """What was written is read back by the matching calls, or something like it by any calls."""
    st = start(r)
    w = Writer(st, r)
    plan = []
    for _ in range(r.choice([1, 2, 4, 8])):
        op = rand_op(r, len(w.byid), fuel=r.choice([0, 2, 3]))
        if op[0] in ("host", "constrain", "free", "tag"):
            continue
        a, ids = len(w.s.data), len(w.byid)
        if w.apply(op) != "ok":
            if op[0] in COMPOSITE:
                break
            continue
        plan.append((a, ids, matching(op)))
    b = bytes(w.s.data)
    if not b:
        return None
    mode = r.random()
    ver = r.choice([13, 14, 15]) if mode >= .4 else 15
    if mode < .4:
        p0, n0, ops = 0, 0, [x for _, _, x in plan] + [["eof"]]
        if not plan or plan[0][0]:
            return None
    else:
        i = r.randrange(len(plan)) if plan else 0
        p0, n0 = (plan[i][0], plan[i][1]) if plan else (0, 0)
        ops = [x for _, _, x in plan[i:]] if r.random() < .6 else []
        tail = b[p0:]
        if r.random() < .8:
            tail = mutate(tail, r)
        if r.random() < .2:
            tail = bytes(r.choice([1, 2])) + tail
        b = b[:p0] + tail
        for _ in range(r.choice([1, 2, 4])):
            ops.insert(r.randint(0, len(ops)), any_read(r))
    rd = Reader(b if r.random() < .7 else r.choice([bytearray, memoryview])(b), p0, n0, ver, r)
    hist = {"start": {"b": list(b), "pos": p0, "n": n0, "ver": ver}, "steps": []}
    for op in ops:
        res = rd.apply(op)
        ok = res["st"] == "ok"
        hist["steps"].append({"op": op, "r": res, "obs": [rd.observe(list(b))] if ok else []})
        if not ok:
            break
    return hist


def near_history(r):
    """One item with something slightly wrong at its start or end."""
    st = start(r)
    st["f"]["resizable"] |= r.randint(0, 1)
    w = Writer(st, r)
    op = rand_op(r, 0, fuel=r.choice([1, 2, 2]))
    while op[0] not in COMPOSITE | {"buffer", "prim", "regexp"} and r.random() < .7:
        op = rand_op(r, 0, fuel=2)
    if op[0] in ("host", "constrain", "free", "tag") or w.apply(op) != "ok":
        return None
    b = bytearray(w.s.data)
    for _ in range(r.choice([1, 1, 1, 2])):
        x = r.random()
        if not b:
            break
        p = r.randint(1, min(3, len(b)))
        if x < .3 and b[-p] in (58, 44, 123, 36, 64, 46):
            b[-p] = r.choice([58, 44, 123, 36, 64, 46])
        elif x < .55:
            b[-p] = (b[-p] + r.choice([1, -1])) % 256
        elif x < .75:
            q = r.randint(0, min(4, len(b) - 1))
            b[q] = (b[q] + r.choice([1, -1, 1, -1, 2, 128])) % 256
        elif op[0] == "buffer" and len(b) > 2:
            b[r.randint(1, 2)] = r.choice([b[1] + 1, abs(b[1] - 1), 0, 1, 255]) % 256
        elif op[0] == "error":
            b[-1:-1] = r.choice([b's"\x01x', b'm"\x01x', b"c0", b"R"])
        elif x < .85:
            b[-p:-p] = r.choice([b"0", b"S\x01a0", b"\x00", b"_0", b"I\x02T", b"b"])
        else:
            del b[-p]
    n = r.choice([0, 0, 0, 1, 2])
    b = bytes(b)
    rd = Reader(b, 0, n, r.choice([13, 14, 15, 15]), r)
    hist = {"start": {"b": list(b), "pos": 0, "n": n, "ver": rd.s.version}, "steps": []}
    for op in [r.choice([matching(op), matching(op), matching(op), ["value"]]), ["eof"]]:
        res = rd.apply(op)
        ok = res["st"] == "ok"
        hist["steps"].append({"op": op, "r": res, "obs": [rd.observe(list(b))] if ok else []})
        if not ok:
            break
    return hist


def run(c):
    r = random.Random(c.seed * 7919 + 3)
    # 1. every sequence of up to two calls of the writer
    starts = [start(r) for _ in range(8)]
    seen = []
    for s in starts:
        if s not in seen:
            seen.append(s)
    if not c.thorough:
        seen = [dict(start(r), f=f) for f in ({"resizable": 1, "float16": 1, "circular": 1}, {"resizable": 0, "float16": 0, "circular": 0})]
    key = write_trace([{"starts": seen, "ops": alphabet(c.thorough)}])
    os.environ["KEYS"] = key
    try:
        lines = model.explore(c, "StreamMC", {"Depth": 2}, ["InvReadBack", "InvRefused"], mem="12g")
    finally:
        del os.environ["KEYS"]
        os.unlink(key)
    g = model.Graph(ln for ln in lines if ok_line(ln))
    model.replay(c, g, seen, lambda st: Writer(st, r), rng=r, what="writer", tour_steps=0)
    # 2. recorded long histories
    hs, keep = [], 0
    for _ in range(c.n(900, 15000)):
        h, d = write_history(r)
        hs.append(h)
    c.sample(hs[0])
    model.judge(c, "StreamWriteTrace", hs, what="writes")
    hs = [h for h in (read_history(r) for _ in range(c.n(4000, 50000))) if h]
    hs += [h for h in (near_history(r) for _ in range(c.n(6000, 80000))) if h]
    c.sample(hs[0])
    for h in hs:
        for x in h["steps"]:
            c.count("read-" + x["r"]["st"][:8])
    model.judge(c, "StreamReadTrace", hs, what="reads")


def ok_line(ln):
    """What is left half-written by a refused container is not specified."""
    d = json.loads(ln)
    return d["r"] == "ok" or d["op"][0] not in COMPOSITE
