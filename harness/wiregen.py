"""Every short stream over an alphabet, as TLC enumerates them (WireMC), run on the real loads()."""
from __future__ import annotations

import json
import os
import struct

import absval
import model
import wire
from common import call, hexs, write_trace
from v8serialize import DecodeV8SerializeError, loads


def dbl(t, x):
    return t + struct.pack("<d", x)


LEAF = [b"0", b"T", b"_", b"-", b"I\x02", b"U\x01", dbl(b"N", 1.0), dbl(b"N", -0.0), b'"\x01a', b"S\x02\xc3\xa9", b"c\x02a\x00",
        b"Z\x02\x05", b"y", b's"\x01b', b"z\x03\x07", b"D" + struct.pack("<d", 5.0), b'R"\x01a\x01', b"p\x03", b"B\x01x", b"u\x02",
        b"\\\x00\x02ab"]
REFS = [b"^\x00", b"^\x01", b"^\x02"]
END = {k: [t + bytes(x) for x in v] for k, t, v in (
    ("o", b"{", [[0], [1], [2], [3]]), ("m", b":", [[0], [2], [4], [1]]), ("s", b",", [[0], [1], [2]]),
    ("d", b"$", [[0, 0], [0, 1], [0, 2], [1, 1], [1, 2], [2, 1], [1, 0]]), ("p", b"@", [[0, 0], [0, 2], [1, 2], [2, 2], [1, 5], [2, 5]]))}
V = [b"VB\x00\x01\x00", b"VB\x01\x01\x00", b"VW\x00\x02\x00", b"V?\x00\x00\x00", b"VB\x00\x00\x03", b"VB\x01\x01\x02", b"Vh\x00\x02\x02",
     b"VB\x02\x01\x00", b"VW\x01\x02\x00", b"VB\x00\x03\x00"]

ALPHABETS = {
    # name: (chunks, versions, depth in the quick check, in the thorough one)
    "objects": ([b"o", *END["o"][:3], b'"\x01a', b'"\x010', b"I\x00", b"U\x00", dbl(b"N", 0.0), b's"\x01a', b"^\x00", b"^\x01", b"T", b"-"],
                [15], 5, 6),
    "arrays": ([b"A\x00", b"A\x01", b"A\x02", *END["d"], b"-", b"0", b"I\x02", b'"\x01k', b"^\x00", b"^\x01"], [15], 5, 6),
    "sparse": ([b"a\x00", b"a\x02", b"a\x05", *END["p"], b"0", b"I\x02", b"U\x04", b'"\x011', b'"\x01k', b"^\x00", b"-"], [14], 5, 6),
    "maps": ([b";", *END["m"], dbl(b"N", 0.0), dbl(b"N", -0.0), b"I\x00", b"T", b'"\x01a', b"^\x00", b"^\x01", b"-", b"F"], [15], 5, 6),
    "sets": ([b"'", *END["s"], dbl(b"N", 1.0), b"I\x02", b"U\x01", b"T", b'"\x01a', b"^\x00", b"^\x01", b"-", b"B\x00"], [13], 5, 6),
    "errors": ([b"r", b".", b"R", b"E", b'm"\x01x', b'mS\x01y', b's"\x01s', b's"\x00', b"c", b"0", b"^\x00", b"^\x01", b"o", b"{\x00"], [15], 5, 6),
    "error parts": ([b"r.", b"rRm\"\x01x.", b"rs\"\x01s.", b"rc", b'rEmS\x02\xc3\xa9c', b'rs"\x01yc', b".", b's"\x01z.', b"ss\x01z.", b'rm"\x00s"\x00c0', b"^\x00",
                     b"^\x01", b"A\x02", b'"\x01k', b"o", *END["d"][2:3], b"{\x01"], [15], 5, 6),
    "buffers": ([b"B\x02ab", b"~\x02\x04ab", b"B\x00", b"u\x01", b"^\x00", b"^\x01", b"A\x02", b"A\x01", *END["d"][1:3], b"\x00", b"0", *V],
                [13, 14, 15], 4, 5),
    "remote": ([b"u\x01", b"t\x01", b"t\x02", b"B\x00", b"^\x00", b"^\x01", b"^\x02", b"A\x02", b"A\x03", *END["d"][2:3], b"0", *V[:4], V[5]],
               [15], 5, 6),
    "ids": ([b"A\x03", b"A\x02", b"o", b'"\x01a', b'R"\x01a\x00', b'Rs\x01a\x00', b"D" + struct.pack("<d", 0.0), b"y", b's"\x01a', b"p\x01",
             b"\\\x01\x00", *REFS, b"{\x01", b"$\x00\x03", b"$\x00\x02"], [15], 5, 6),
    "pieces": ([bytes([x]) for x in (0, 1, 2, 34, 48, 65, 73, 78, 82, 90, 94, 99, 111, 123, 36, 128, 255, 114, 46)], [15], 4, 5),
}


CLOSERS = {x for k in END for x in END[k]}


def enumerate_streams(c, name, chunks, vers, depth, finish):
    if finish:
        chunks = [x for x in chunks if x not in CLOSERS]
    path = write_trace([{"chunks": [list(x) for x in chunks], "vers": vers}])
    os.environ["KEYS"] = path
    try:
        lines = model.explore(c, "WireMC", {"Max": depth, "Finish": str(finish).upper()}, ["StrictAgrees", "Settled", "IdsResolve", "DoneIsEmpty", "Bounded"], mem="12g")
    finally:
        del os.environ["KEYS"]
        os.unlink(path)
    c.count("streams-" + name, len(lines))
    return sorted(set(lines))


def outcome(b):
    """(what happened, the canonical forms of the value)"""
    st, v = call(loads, b, nodejs=True)
    if st == "hang":
        return "hang", []
    if st == "err":
        return ("refused" if isinstance(v, DecodeV8SerializeError) and wire.located(v, b) else f"{v!r}"[:200]), []
    try:
        return "ok", absval.canon_forms(v, "py")
    except absval.Unrepresentable as e:
        return f"an unexpected value: {e}", []


def run(c, r, wellformed):
    """Run the streams and compare: well-formed ones, or the others."""
    sets = dict(ALPHABETS)
    every = sorted({x for a in ALPHABETS.values() for x in a[0]} | set(LEAF))
    for i in range(c.n(1, 8)):
        sets[f"random"] = (r.sample(every, 12) + [b"o", b"A\x01", b"$\x00\x01", b"{\x01"], [15], 4, 5)
    for name, (chunks, vers, q, t) in sets.items():
        if wellformed and name in ("pieces", "errors"):
            continue
        if wellformed and name == "error parts":
            q = 4
        for ln in enumerate_streams(c, name, chunks, vers, c.n(q, t), wellformed):
            d = json.loads(ln)
            if (d["s"] == "ok" and not d["a"]) != wellformed:
                continue
            b = bytes(d["b"])
            got, forms = outcome(b)
            c.traces += 1
            meta = {"bytes": hexs(b), "outcome": got}
            if got not in ("ok", "refused"):
                c.violation("loads() gave neither a value nor the documented error", meta)
            elif d["a"]:
                continue
            elif d["s"] == "bad" and got == "ok":
                c.violation("accepted malformed data", meta)
            elif d["s"] == "ok" and got != "ok":
                c.violation("rejected well-formed data", meta)
            elif d["s"] == "ok" and d["c"] not in forms:
                c.violation("decoded a different value", meta)
