"""B01: views over resizable buffers track their buffer like JavaScript's."""
import array
import random

import model
from v8serialize import V8SerializeError
from v8serialize.constants import ArrayBufferViewTag as Tag
from v8serialize.jstypes import (
    ArrayBufferViewStructFormat, JSArrayBuffer, JSArrayBufferTransfer, JSBigInt64Array,
    JSBigUint64Array, JSDataView, JSFloat16Array, JSFloat32Array, JSFloat64Array, JSInt8Array,
    JSInt16Array, JSInt32Array, JSSharedArrayBuffer, JSUint8Array, JSUint8ClampedArray,
    JSUint16Array, JSUint32Array, create_view,
)
from v8serialize.jstypes.jsbuffers import (
    BoundsJSArrayBufferError, ByteLengthJSArrayBufferError, ItemSizeJSArrayBufferError,
)

BY_SIZE = {1: [JSUint8Array, JSInt8Array, JSDataView, JSUint8ClampedArray],
           2: [JSUint16Array, JSInt16Array, JSFloat16Array],
           4: [JSUint32Array, JSInt32Array, JSFloat32Array],
           8: [JSFloat64Array, JSBigInt64Array, JSBigUint64Array]}
ERRS = (ByteLengthJSArrayBufferError, ItemSizeJSArrayBufferError, BoundsJSArrayBufferError,
        TypeError, IndexError, ValueError)


def typed(d, rng):
    """A buffer of the bytes whose items are not bytes."""
    z = max(z for z in (1, 2, 4, 8) if len(d) % z == 0)
    if rng and rng.random() < .3 and len(d) >= 2 and z > 1:
        return memoryview(bytearray(d)).cast("B", (2, len(d) // 2))
    a = array.array({1: "b", 2: "H", 4: "I", 8: "d"}[z])
    a.frombytes(d)
    return a if rng and rng.random() < .5 else memoryview(a)


class Driver:
    """A real buffer of a kind, and views over it."""

    def __init__(self, state, style, rng=None):
        d = bytes(state["data"])
        self.style = style
        self.rng = rng
        self.n = 0
        self.views = []
        if style == "bytearray":          # resized by its owner
            self.raw = self.b = bytearray(d)
        elif style == "bytes":
            self.b = d
        elif style == "rawtyped":
            self.b = typed(d, rng)
        elif style == "typed":
            self.b = JSArrayBuffer(typed(d, rng), readonly=state["ro"] or None, copy_data=False)
        elif state["ro"]:
            self.b = JSArrayBuffer(d, readonly=True) if style == "copy" else \
                JSArrayBuffer(memoryview(bytearray(d)), readonly=True, copy_data=False)
        elif state["rsz"]:
            if style == "length":
                self.b = JSArrayBuffer(state["max"], resizable=True)
                self.b.data[:len(d)] = d
                self.b.resize(len(d))
            elif style == "wrap":
                self.raw = bytearray(d)
                self.b = JSArrayBuffer(self.raw, max_byte_length=state["max"], copy_data=False)
            else:
                self.b = JSArrayBuffer(d, max_byte_length=state["max"])
        else:
            self.raw = bytearray(d)
            self.b = JSArrayBuffer(d) if style != "wrap" else JSArrayBuffer(self.raw, copy_data=False)

    def cls(self, sz):
        self.n += 1
        return (self.rng.choice(BY_SIZE[sz]) if self.rng else
                BY_SIZE[sz][self.n % len(BY_SIZE[sz])])

    def info(self, v):
        inr, off, ln, track = v.is_in_range, v.byte_offset, v.byte_length, v.is_length_tracking
        with v.get_buffer_as_memoryview() as mv:
            ro, data = mv.readonly, bytes(mv)
        with v.get_buffer() as buf:
            m = buf.buffer if isinstance(v, JSDataView) else buf
            if m.tobytes() != data or len(m) * v.data_format.byte_length != ln:
                return ["get_buffer() and get_buffer_as_memoryview() disagree"]
        return [int(inr), off, ln, int(track), int(ro), *data]

    def own(self, n):
        if n < len(self.raw):
            del self.raw[n:]
        else:
            self.raw.extend(bytes(n - len(self.raw)))

    def apply(self, op):
        return model.outcome(self.do, op, ok=lambda x: x, errors=ERRS)

    def do(self, op):
        n = op[0]
        none = ["none"]
        if n == "resize":
            if self.style == "bytearray":
                self.own(op[1])
            else:
                self.b.resize(op[1])
            return none
        if n == "own":
            self.own(op[1])
            return none
        if n in ("create", "frombytes"):
            cls = self.cls(op[1])
            kw = {"byte_offset": op[2]} if op[2] or self.n % 2 else {}
            if op[3] != -1:
                kw["byte_length"] = op[3]
            if op[4]:
                kw["readonly"] = True
            if n == "create":
                fmt = cls.view_tag if self.n % 3 else ArrayBufferViewStructFormat(cls.view_tag)
                v = create_view(self.b, fmt, **kw)
                if type(v) is not cls:
                    return ["wrong type", type(v).__name__]
            else:
                v = cls.from_bytes(self.b, **kw)
            self.views.append(v)
            return none
        if n == "new":
            kw = {"readonly": True} if op[4] else {}
            self.views.append(self.cls(op[1])(self.b, op[2], None if op[3] == -1 else op[3], **kw))
            return none
        if n == "look":
            return ["info", *map(self.info, self.views)]
        v = self.views[op[1] - 1]
        sz = v.data_format.byte_length
        if n == "fill":
            with v.get_buffer_as_memoryview() as mv:
                mv[:] = bytes([op[2]]) * len(mv)
            if v.get_buffer_as_memoryview().readonly:   # an empty write does not notice
                raise TypeError
            return none
        from v8serialize.jstypes.jsbuffers import DataType
        import struct
        fmt = v.data_format.format
        with v.get_buffer() as buf:
            if n == "poke":
                x = struct.unpack(("B" if fmt == "c" else fmt), bytes([op[3]]) * sz)[0]
                if isinstance(v, JSDataView):
                    if buf.buffer.readonly:
                        raise TypeError
                    try:
                        buf.set_uint8(op[2], x)
                    except BoundsJSArrayBufferError:
                        raise IndexError from None
                else:
                    if buf.readonly:
                        raise TypeError
                    buf[op[2]] = x
                return none
            if n == "peek":
                if isinstance(v, JSDataView):
                    try:
                        x = buf.get_uint8(op[2])
                    except BoundsJSArrayBufferError:
                        raise IndexError from None
                else:
                    x = buf[op[2]]
                return ["bytes", *struct.pack(("B" if fmt == "c" else fmt), x)]
        raise AssertionError(op, DataType)

    def observe(self):
        b = self.b
        js = isinstance(b, JSArrayBuffer)
        data = list(b.data) if js else list(bytes(b))
        return {"data": data, "max": b.max_byte_length if js else None,
                "rsz": b.resizable if js else None,
                "views": [[v.data_format.byte_length, v.item_offset,
                           -1 if v.item_length is None else v.item_length,
                           v.readonly is True] for v in self.views]}


def same(o, s):
    return (o["data"] == s["data"] and o["max"] in (None, s["max"])
            and o["rsz"] in (None, s["rsz"])
            and o["views"] == [[v["sz"], v["off"], v["len"], v["ro"]] for v in s["views"]])


STYLES = {"resizable": ["copy", "wrap", "length", "bytearray"], "fixed": ["copy", "wrap", "typed", "rawtyped"],
          "readonly": ["copy", "wrap", "bytes", "typed"]}


def history(r, kind):
    mx = r.choice([3, 8, 17, 40, 200])
    n = mx if kind != "resizable" else r.randint(0, mx)
    start = {"data": [r.randint(0, 111) for _ in range(n)], "max": mx,
             "rsz": kind == "resizable", "ro": kind == "readonly", "views": [], "over": []}
    style = r.choice(STYLES[kind])
    d = Driver(start, style, r)
    steps = []
    sizes = [1, 2, 4, 8]
    for _ in range(r.choice([10, 40, 80])):
        k = r.random()
        z = r.choice(sizes)
        if k < 0.25:
            n = r.choice([0, mx, r.randint(0, mx), r.randint(-1, mx + 1), r.randint(0, mx)])
            op = ["resize", n]
            if style in ("bytearray", "bytes", "rawtyped") and not (0 <= n <= mx and kind == "resizable"):
                continue
            if style == "wrap" and kind != "readonly" and r.random() < .3:
                op = ["own", r.choice([mx, mx + r.randint(1, 20), mx + 1 if kind == "fixed" else r.randint(0, mx)])]
        elif k < 0.45 and len(d.views) < 6:
            al = lambda x: x // z * z if r.random() < 0.7 else x  # noqa: E731
            op = [r.choice(["create", "frombytes"]), z, al(r.randint(-1, mx)),
                  r.choice([-1, al(r.randint(0, mx))]), r.choice([0, 0, 0, 1])]
            if r.random() < 0.3:
                op = ["new", z, r.randint(-1, mx // z + 1), r.choice([-1, r.randint(-2, mx // z + 1)]),
                      r.choice([0, 0, 0, 1])]
            if op[3] < -1:
                op[3] = -2
        elif d.views and k < 0.8:
            i = r.randint(1, len(d.views))
            v = r.choice([1, 7, 63, 64])
            op = r.choice([["fill", i, v], ["poke", i, r.randint(0, mx // 2 + 1), v],
                           ["peek", i, r.randint(0, mx // 2 + 1)]])
        else:
            op = ["look"]
        res = d.apply(op)
        steps.append({"op": op, "r": res, "obs": []})
        if res[0] in ("unexpected", "hang"):
            break
        if r.random() < 0.5:
            steps.append({"op": ["look"], "r": d.apply(["look"]), "obs": []})
    return {"start": start, "steps": steps}


def remote(c):
    """Buffers whose bytes are elsewhere: views keep what they were created with."""
    for mk in (lambda: JSSharedArrayBuffer(3), lambda: JSArrayBufferTransfer(4)):
        for sz, classes in BY_SIZE.items():
            for cls in classes:
                for off in (0, 1, 5):
                    for ln in (0, 1, 9):
                        for v in (cls(mk(), off, ln), create_view(
                                mk(), cls.view_tag, byte_offset=off * sz, byte_length=ln * sz)):
                            c.evaluations += 1
                            if (v.byte_offset, v.byte_length, v.is_length_tracking) != \
                                    (off * sz, ln * sz, False):
                                c.violation("a view of a remote buffer lost its region",
                                            [repr(v), v.byte_offset, v.byte_length])


def run(c):
    r = random.Random(f"B01-{c.seed}")
    for kind in STYLES:
        quick = [(3, 2, "{1, 2}", "FALSE", "{0, 2}"), (8, 1, "{2, 4, 8}", "TRUE", "{0, 2, 4}")]
        deep = [(4, 2, "{1, 2}", "TRUE", "{0, 2}"), (9, 2, "{4, 8}", "FALSE", "{2}"),
                (17, 1, "{1, 2, 4, 8}", "TRUE", "{0, 2, 3, 4}")]
        todo = [(*x, "FALSE") for x in (deep if c.thorough else quick)]
        if kind != "readonly":
            todo.append((4, 2 if c.thorough else 1, "{1, 2}", "TRUE", "{0, 2}", "TRUE"))
        for mx, nv, sizes, wr, outside, owner in todo:
            if kind != "resizable":
                nv = 1
            lines = model.explore(c, "BuffersMC", {
                "Max": mx, "Kind": f'"{kind}"', "NViews": nv, "Sizes": sizes, "Writes": wr,
                "Outside": outside, "Owner": owner}, ["InvWellFormed", "InvViews"], mem="12g")
            g = model.Graph(lines)
            c.count("model-transitions", len(g))
            inits = [{"data": list(range(1, n + 1)), "max": mx if kind == "resizable" else n,
                      "rsz": kind == "resizable", "ro": kind == "readonly", "views": [], "over": []}
                     for n in range(mx + 1)]
            for style in STYLES[kind]:
                if style in ("bytearray", "bytes", "rawtyped") or owner == "TRUE" and style != "wrap":
                    continue
                # (no NaNs among the bytes: Python does not keep their payloads)
                few = len(g) > 20000 and style != STYLES[kind][0] and not c.thorough
                model.replay(c, g, inits, lambda s: Driver(s, style), rng=r,
                             what=f"{kind}-{style}", tour_steps=c.n(20000 if few else 3000, 60000),
                             observe=0.3, state_eq=same, each=not few)
    hs = [history(r, kind) for kind in STYLES for _ in range(c.n(150, 3000))]
    c.sample({"history": [x["op"] for x in hs[0]["steps"][:6]]})
    model.judge(c, "BuffersTrace", hs, what="buffer-history", invariants=["InvWellFormed"])
    remote(c)
