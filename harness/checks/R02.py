"""R02: sharing, cycles and distinctness survive dumps()/loads()."""
import random
from datetime import datetime, timezone

import gen_values
import wire
from v8serialize import SerializationFeature, dumps, loads
from v8serialize.jstypes import JSRegExp

F = SerializationFeature
ALL = F.ResizableArrayBuffers | F.RegExpUnicodeSets | F.Float16Array | F.CircularErrorCause


def far_apart(n, r):
    """Equal immutable values with n others between their occurrences."""
    for make in (lambda: tuple([1, 2]), lambda: bytes([7, 8]), lambda: JSRegExp("q"),
                 lambda: datetime(2020, 1, 1, tzinfo=timezone.utc), lambda: frozenset([1])):
        a, b = make(), make()
        many = [r.choice([(0, i), i.to_bytes(2, "big") + b"x", frozenset([-1 - i])]) for i in range(n)]
        yield [a, *many, b, a, *many[:2], b]


def run(c):
    r = random.Random(f"R02-{c.seed}")
    recs, metas = [], []

    def add(v):
        st, why, rec = wire.roundtrip_value(v, lambda x: dumps(x, features=ALL), loads)
        meta = {"value": gen_values.show(v)}
        if st != "ok":
            c.violation("dumps() did not encode a supported value",
                        {**meta, "outcome": repr(why)[:300]})
            return
        if why:
            meta["outcome"] = why
        recs.append(rec)
        metas.append(meta)

    for v in gen_values.shapes(c.thorough):
        add(v)
    for n in (40, 140, 300) if not c.thorough else (40, 140, 300, 600, 1100, 2100):
        for v in far_apart(n, r):
            add(v)
    for v, feats in gen_values.graphs(r, c.n(1800, 30000), share=0.45):
        add(v)

    def report(verdict, status, amb, rec, meta):
        if verdict == "ok":
            c.sample(meta)
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
