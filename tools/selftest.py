"""Shows that the binding of specification and code can fail.

1. Records of real executions are judged; then one field of each is altered
   (a byte, a token, the outcome) and TLC must reject the altered record.
2. The same for a recorded history of calls (a result, an observed state).
3. Models with a deliberate defect (a shared object log, a shared guard) must
   violate their invariant.

Run: TZ=UTC /opt/venv/bin/python tools/selftest.py
"""
import copy
import os
import random
import sys

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, "harness"))

import gen_streams  # noqa: E402
import gen_values  # noqa: E402
import model  # noqa: E402
import tlc  # noqa: E402
import wire  # noqa: E402
from checks import C01  # noqa: E402
from common import write_trace  # noqa: E402
from v8serialize import DecodeV8SerializeError, dumps, loads  # noqa: E402


class Silent:
    """Stands in for a check."""

    traces = 0
    thorough = False

    def __init__(self):
        self.bad = []

    def tlc(self, res):
        pass

    def count(self, *a):
        pass

    def violation(self, what, detail, key=None):
        self.bad.append(what)


def verdicts(recs):
    out = []
    wire.judge(Silent(), recs, [{}] * len(recs),
               report=lambda v, st, amb, rec, meta: out.append((v, st, amb)))
    return out


def wire_records():
    r = random.Random(1)
    recs = []
    for b in list(gen_streams.wellformed(r, 400))[-400:]:
        if len(b) < 200:
            recs.append(wire.rec_decode(b, loads, DecodeV8SerializeError)[0])
    for v, _ in list(gen_values.graphs(r, 200))[-200:]:
        st, b, rec = wire.encode_value(v, dumps)
        if st == "ok":
            recs.append(rec)
    good = [rec for rec, (v, st, amb) in zip(recs, verdicts(recs))
            if v == "ok" and st == "ok" and not amb]
    print(len(good), "records accepted")
    altered, what = [], []
    for rec in good:
        x = copy.deepcopy(rec)
        k = r.choice(["token", "byte", "outcome"])
        if k == "token":
            for t in x["tok"]:
                t[r.randrange(len(t))] += 1
        elif k == "byte":
            x["b"][r.randrange(2, len(x["b"]))] ^= 1 << r.randrange(8)
        else:
            if rec["kind"] == "encode":
                x["b"] = x["b"][:-1]
            else:
                x["acc"] = 0
        altered.append(x)
        what.append(k)
    res = {}
    for k, (v, st, amb) in zip(what, verdicts(altered)):
        a, b = res.get(k, (0, 0))
        res[k] = (a + (v != "ok"), b + 1)
    print("altered records rejected:", {k: f"{a} of {b}" for k, (a, b) in res.items()})
    assert res["token"][0] == res["token"][1] and res["outcome"][0] == res["outcome"][1]
    assert res["byte"][0] > res["byte"][1] * 0.8     # some bytes are free (open or unread)


def history():
    ref, inp = ["a", "b"], ["c", "d"]
    steps = [{"op": ["call", 1], "r": "a", "obs": []}, {"op": ["input", 2], "r": "d", "obs": []}]
    os.environ["KEYS"] = p = write_trace([{"res": ref, "inp": inp}])
    for r, want in (("d", 0), ("x", 1)):
        s = Silent()
        steps[1]["r"] = r
        model.judge(s, "CallHist", [{"start": 0, "steps": steps}], what="h")
        assert len(s.bad) == want
    os.unlink(p)
    print("altered history rejected")


def broken_models():
    os.environ["KEYS"] = p = write_trace([C01.PATTERNS])
    for m, consts in (("Calls", {"Calls": 2, "Shared": "TRUE"}),
                      ("EqThreads", {"Threads": 2, "Shared": "TRUE"})):
        try:
            model.explore(Silent(), m, consts, ["Right"])
        except tlc.TLCError as e:
            assert "Invariant Right is violated" in str(e), e
            print(m, "with Shared = TRUE: Right is violated, as it must be")
        else:
            raise SystemExit(f"{m}: the defect was not found")
    os.unlink(p)


wire_records()
history()
broken_models()
