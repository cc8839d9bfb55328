"""D02: malformed input is always rejected, with DecodeV8SerializeError."""
import random

import gen_streams
import wire
import wiregen
from v8serialize import DecodeV8SerializeError, loads


def run(c):
    r = random.Random(f"D02-{c.seed}")
    recs, metas = [], []
    for b in gen_streams.malformed(r, c.n(4500, 60000)):
        rec, meta = wire.rec_decode(b, lambda x: loads(x, nodejs=True), DecodeV8SerializeError)
        recs.append(rec)
        metas.append(meta)

    def report(verdict, status, amb, rec, meta):
        # an ambiguous stream must still end in a value or the documented error
        if status == "ok" and not amb:
            return
        c.count("judged-malformed" if status == "bad" else "judged-ambiguous")
        if verdict == "ok":
            c.sample({"bytes": meta["bytes"], "outcome": meta.get("outcome", "")[:80]})
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
    wiregen.run(c, r, False)
