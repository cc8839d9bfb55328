"""R01: loads(dumps(v)) is the JavaScript image of v."""
import random
from datetime import datetime

import gen_values
import wire
from v8serialize import SerializationFeature, dumps, loads
from v8serialize.jstypes import JSMap, JSRegExp, JSSet

F = SerializationFeature
ALL = F.ResizableArrayBuffers | F.RegExpUnicodeSets | F.Float16Array | F.CircularErrorCause


def run(c):
    r = random.Random(f"R01-{c.seed}")
    recs, metas = [], []

    def add(v, all_):
        st, why, rec = wire.roundtrip_value(
            v, lambda x: dumps(x, features=ALL if all_ else None), loads, flat=1, rab=all_)
        meta = {"value": gen_values.show(v)}
        if st != "ok":
            c.violation("dumps() did not encode a supported value",
                        {**meta, "outcome": repr(why)[:300]})
            return
        if why:
            meta["outcome"] = why
        recs.append(rec)
        metas.append(meta)

    for v in gen_values.handmade():
        add(v, True)
    for i in range(c.n(2400, 30000)):
        v, feats = gen_values.tree(r)
        add(v, bool(feats))

    def report(verdict, status, amb, rec, meta):
        if verdict == "ok":
            c.sample(meta)
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
    gen_values.refused(c, r, dumps)

    # known finding: equal but distinct immutable keys of one collection
    for mk in (lambda: datetime(2020, 1, 1), lambda: (1, "x" * 3), lambda: frozenset([1, 2]),
               lambda: JSRegExp("a")):
        for v in (JSSet([mk(), mk()]), JSMap([(mk(), 1), (mk(), 2)])):
            if len(v) == 2 and len(loads(dumps(v))) != 2:
                c.violation("equal but distinct keys became one", gen_values.show(v),
                            key="equal-keys-merged")
