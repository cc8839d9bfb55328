"""W01: dumps() output is well-formed and denotes the input, for a strict reader."""
import random

import gen_values
import wire
from v8serialize import SerializationFeature, dumps

F = SerializationFeature
FEATS = {"resizable": F.ResizableArrayBuffers, "v": F.RegExpUnicodeSets,
         "float16": F.Float16Array, "circular": F.CircularErrorCause}


def run(c):
    r = random.Random(f"W01-{c.seed}")
    recs, metas = [], []

    def add(v, feats):
        f = F.MaxCompatibility
        for x in feats:
            f |= FEATS[x]
        st, b, rec = wire.encode_value(v, lambda x: dumps(x, features=f), feats=feats,
                                       rab="resizable" in feats)
        meta = {"value": gen_values.show(v), "features": sorted(feats)}
        if st != "ok":
            c.violation("dumps() did not encode a supported value",
                        {**meta, "outcome": repr(b)[:300]})
            return
        meta["bytes"] = bytes(b).hex()[:2000]
        recs.append(rec)
        metas.append(meta)

    for v in gen_values.handmade():
        add(v, ["v"])
        add(v, list(FEATS))
    for v, feats in gen_values.graphs(r, c.n(2200, 30000)):
        add(v, feats)

    def report(verdict, status, amb, rec, meta):
        c.count("features-" + ("+".join(meta["features"]) or "none"))
        if verdict == "ok":
            c.sample(meta)
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
