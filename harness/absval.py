"""Abstraction function: Python value graphs -> canonical token sequences.

The token format is the one defined by Canon() in spec/V8Wire.tla; see there.
mode "py": the result of loads().  mode "js": the JavaScript value that a value
passed to dumps() stands for.
"""
from __future__ import annotations

import re
import struct
from collections import abc
from datetime import datetime, timedelta, timezone

from v8serialize.jstypes import (
    JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSError, JSErrorData, JSHole,
    JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSSet, JSSharedArrayBuffer,
    JSUndefined,
)
from v8serialize.jstypes.jsbuffers import JSArrayBufferView
from v8serialize.jstypes._v8 import V8SharedObjectReference

MAX_INDEX = 2**32 - 2
NEG_ZERO = struct.pack("<d", -0.0)
ERR_NAMES = {"EvalError": 1, "RangeError": 2, "ReferenceError": 3,
             "SyntaxError": 4, "TypeError": 5, "UriError": 6}
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


class Unrepresentable(Exception):
    """The value has no canonical form (it is not a value the model knows)."""


def mag(n: int) -> list[int]:
    return list(n.to_bytes((n.bit_length() + 7) // 8, "little"))


def magtok(n: int) -> list[int]:
    m = mag(n)
    return [len(m), *m]


def int_tok(n: int) -> list[int]:
    m = mag(abs(n))
    return [73, 1 if n < 0 else 0, len(m), *m]


def big_tok(n: int) -> list[int]:
    return [90, *int_tok(n)[1:]]


def dbl_tok(f: float) -> list[int]:
    if f != f:
        return [78, 0, 0, 0, 0, 0, 0, 248, 127]
    return [78, *struct.pack("<d", f)]


def str_tok(s: str) -> list[int]:
    return [34, len(s), *map(ord, s)]


def num_tok(f: float, mode: str) -> list[int]:
    if mode != "py" and f == f and abs(f) < 2.0**53 and f.is_integer() \
            and struct.pack("<d", f) != NEG_ZERO:
        return int_tok(int(f))
    return dbl_tok(f)


def float_exp(f: float) -> int:
    return (struct.unpack("<Q", struct.pack("<d", f))[0] >> 52) & 0x7FF


class Sentinel:
    """A value only used to stand for a JavaScript constant (see js_constants)."""

    def __init__(self, k: int):
        self.k = k

    def __repr__(self):
        return f"Sentinel({self.k})"


class HostVal:
    """What the custom host object deserializer of the checks makes."""

    def __init__(self, code: int, data: bytes):
        self.code, self.data = code, data


def prim_tok(v, mode: str):
    """Token of a primitive value, None if v is not one."""
    if isinstance(v, Sentinel):
        return [200, v.k]
    if v is JSUndefined:
        return [95]
    if v is None:
        return [48]
    if v is JSHole:
        return [45]
    if v is True:
        return [84]
    if v is False:
        return [70]
    if isinstance(v, int) and not isinstance(v, bool):
        v = int(v)
        if mode != "py" and not (-(2**53) < v < 2**53):
            return big_tok(v)
        return int_tok(v)
    if isinstance(v, float):
        return num_tok(float(v), mode)
    if isinstance(v, str):
        return str_tok(v)
    return None


def svz(v, mode):
    """Representative of a Map key / Set element in js mode."""
    if mode != "py" and isinstance(v, float) and v == 0:
        return 0
    return v


def key_tok(k) -> list[int]:
    if isinstance(k, int) and not isinstance(k, bool):
        if 0 <= k <= MAX_INDEX:
            return int_tok(int(k))
        return str_tok(str(int(k)))
    if isinstance(k, str):
        if re.fullmatch(r"0|[1-9][0-9]{0,9}", k, re.A) and int(k) <= MAX_INDEX:
            return int_tok(int(k))
        return str_tok(k)
    raise Unrepresentable(f"property key {k!r}")


def date_tok(v: datetime) -> list[int]:
    # TZ=UTC in every check, so naive datetimes are UTC
    d = (v if v.tzinfo is not None else v.replace(tzinfo=timezone.utc)) - EPOCH
    us = d // timedelta(microseconds=1)
    if us % 1000 == 0:
        return [68, *int_tok(us // 1000)]
    return [68, *dbl_tok(us / 1000)]


IMMUTABLE = (bytes, tuple, frozenset, datetime, JSRegExp, re.Pattern,
             V8SharedObjectReference, JSPrimitiveObject, JSSharedArrayBuffer,
             JSArrayBufferTransfer)


class Walker:
    """One canonical walk.

    merge: equal immutable values are one node.  flat: identity is ignored.
    rab: resizable buffers keep their maximum (else they become fixed ones).
    custom: {class: (number, kind)} of customised representations; tz: the
    timezone of customised dates.
    """

    def __init__(self, mode: str, merge: bool = False, flat: bool = False, rab: bool = True,
                 custom=None, tz=None):
        self.custom = custom
        self.tz = tz
        self.mode = mode
        self.merge = merge
        self.flat = flat
        self.rab = rab
        self.seen: dict[object, int] = {}
        self.keep: list[object] = []
        self.out: list[int] = []

    def ident(self, v):
        if self.merge:
            k = merge_key(v)
            if k is not None:
                return ("m", k)
        return ("i", id(v))

    def back(self, v) -> bool:
        """Emit a back reference if v was met before, else number it."""
        k = self.ident(v)
        if k in self.seen and not self.flat:
            self.out += [94, self.seen[k]]
            return True
        self.seen[k] = len(self.seen) + 1
        self.keep.append(v)
        return False

    def walk(self, v) -> None:
        out = self.out
        mode = self.mode
        t = prim_tok(v, mode)
        if t is not None:
            out += t
            return
        if self.back(v):
            return
        kind = None
        if self.custom is not None:
            num, kind = self.custom.get(type(v), (0, None))
            if num:
                out += [210, num]
            elif isinstance(v, datetime) and v.tzinfo is not None:
                out += [210, 1 if v.tzinfo is self.tz else 9]
        if kind is not None and kind.endswith("!"):
            v = v.partial
        if kind == "darr":
            # "0" and 0 name one JS property, but are two keys of a dict
            items = list({int(k) if isinstance(k, str) and re.fullmatch(r"0|[1-9][0-9]{0,8}", k, re.A)
                          else k: x for k, x in v.items()}.items())
            n = sum(isinstance(k, int) for k, _ in items)
            out += [65, *magtok(n), len(items)]
            self.props(items)
        elif isinstance(v, HostVal):
            out += [220, *magtok(v.code), len(v.data), *v.data]
        elif isinstance(v, JSArray):
            items = list(v.items())
            out += [65, *magtok(len(v.array)), len(items)]
            self.props(items)
        elif isinstance(v, JSObject) or kind == "dobj":
            items = list(v.items())
            out += [111, len(items)]
            self.props(items)
        elif isinstance(v, (JSErrorData, BaseException)) or kind == "err":
            self.error(v)
        elif isinstance(v, JSPrimitiveObject):
            if mode == "py":
                raise Unrepresentable("wrapper object in loads() result")
            x = v.value
            from v8serialize.constants import SerializationTag as S
            if mode == "rt":
                del self.seen[self.ident(v)]
                out += prim_tok(x, mode)
            elif v.tag is S.kBigIntObject:
                out += [115, *big_tok(int(x))]
            elif v.tag is S.kNumberObject:
                out += [115, *num_tok(float(x), mode)]
            else:
                out += [115, *prim_tok(x, mode)]
        elif isinstance(v, JSRegExp):
            out += [82, *str_tok(v.source), int(v.flags.canonical)]
        elif isinstance(v, re.Pattern):
            r = JSRegExp.from_python_pattern(v)
            out += [82, *str_tok(r.source), int(r.flags.canonical)]
        elif isinstance(v, datetime):
            out += date_tok(v)
        elif isinstance(v, V8SharedObjectReference):
            out += [112, *magtok(v.shared_value_id)]
        elif isinstance(v, JSArrayBufferView):
            # bytearrays can change size, but are written as fixed-length buffers
            track = v.is_length_tracking and self.rab \
                and not isinstance(v.backing_buffer, (bytearray, memoryview))
            isz = v.data_format.byte_length
            out += [86, int(v.view_tag), 1 if track else 0]
            remote = isinstance(v.backing_buffer,
                                (JSSharedArrayBuffer, JSArrayBufferTransfer))
            if remote or mode == "py":
                out += magtok(v.item_offset * isz)
                out += [0] if track else magtok(
                    v.byte_length if v.item_length is None else v.item_length * isz)
            else:
                out += magtok(v.byte_offset)
                out += [0] if track else magtok(v.byte_length)
            self.buffer(v.backing_buffer)
        elif isinstance(v, (JSArrayBuffer, JSSharedArrayBuffer, JSArrayBufferTransfer,
                            bytes, bytearray, memoryview)):
            self.buffer_body(v)
        elif isinstance(v, abc.Mapping):
            items = list(v.items())
            out += [59, len(items)]
            for k, x in items:
                self.walk(svz(k, mode))
                self.walk(x)
        elif isinstance(v, abc.Set):
            items = list(v)
            out += [39, len(items)]
            for x in items:
                self.walk(svz(x, mode))
        elif isinstance(v, abc.Collection):
            items = [(i, x) for i, x in enumerate(v) if x is not JSHole]
            out += [65, *magtok(len(v)), len(items)]
            self.props(items)
        else:
            raise Unrepresentable(f"{type(v).__name__}")

    def props(self, items) -> None:
        for k, x in items:
            self.out += key_tok(k)
            self.walk(x)

    def error(self, v) -> None:
        if isinstance(v, BaseException) and not isinstance(v, JSError):
            v = JSErrorData.from_exception(v)
        self.out += [114, ERR_NAMES.get(str(v.name), 0)]
        msg = v.message
        if msg is None and self.mode != "js":
            msg = ""
        self.out += [0] if msg is None else str_tok(msg)
        self.out += [0] if v.stack is None else str_tok(v.stack)
        if v.cause is None:
            self.out += [0] if self.mode == "js" else [48]
        else:
            self.walk(v.cause)

    def buffer(self, b) -> None:
        if not self.back(b):
            self.buffer_body(b)

    def buffer_body(self, b) -> None:
        out = self.out
        if isinstance(b, JSSharedArrayBuffer):
            out += [117, *magtok(b.buffer_id)]
        elif isinstance(b, JSArrayBufferTransfer):
            out += [116, *magtok(b.transfer_id)]
        elif isinstance(b, JSArrayBuffer):
            with b.data as data:
                if self.mode == "py" and data.readonly:
                    raise Unrepresentable("a buffer that was read is read-only")
            data = bytes(b.data)
            rsz = b.resizable and self.rab
            out += [66, 1 if rsz else 0]
            out += magtok(b.max_byte_length) if rsz else [0]
            out += [len(data), *data]
        else:
            data = bytes(b)
            out += [66, 0, 0, len(data), *data]


def merge_key(v):
    """Key under which immutable values are interchangeable (same deep type)."""
    t = prim_tok(v, "py")
    if t is not None:
        return tuple(t)
    if isinstance(v, bytes):
        return ("bytes", v)
    if isinstance(v, tuple):
        ks = [merge_key(x) for x in v]
        return None if None in ks else (type(v), *ks)
    if isinstance(v, frozenset):
        ks = [merge_key(x) for x in v]
        return None if None in ks else (type(v), frozenset(ks))
    if isinstance(v, datetime):
        return ("dt", v) if v.tzinfo is not None else ("dtn", v)
    if isinstance(v, JSRegExp):
        return ("re", v.source, int(v.flags))
    if isinstance(v, re.Pattern):
        return ("pat", v.pattern, v.flags)
    if isinstance(v, V8SharedObjectReference):
        return ("shared", v.shared_value_id)
    if isinstance(v, JSPrimitiveObject):
        return ("prim", v.tag, merge_key(v.value))
    if isinstance(v, JSSharedArrayBuffer):
        return ("sab", v.buffer_id)
    if isinstance(v, JSArrayBufferTransfer):
        return ("xfer", v.transfer_id)
    if isinstance(v, JSArrayBufferView):
        k = merge_key(v.backing_buffer)
        if k is None:
            k = ("id", id(v.backing_buffer))
        return ("view", type(v), k, v.item_offset, v.item_length, v.readonly)
    return None


def canon(v, mode: str, merge: bool = False, **k) -> list[int]:
    w = Walker(mode, merge, **k)
    w.walk(v)
    return w.out


def canon_forms(v, mode: str, **k) -> list[list[int]]:
    """The acceptable canonical forms: by identity, and with equal immutables merged."""
    a = canon(v, mode, **k)
    if k.get("flat"):
        return [a]
    b = canon(v, mode, merge=True, **k)
    return [a] if a == b else [a, b]
