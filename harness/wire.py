"""Wire-format trace validation: records of real dumps()/loads() runs judged by TLC."""
from __future__ import annotations

import os

import absval
import tlc
from common import MachineryError, call, hexs, parse_judgements, write_trace

def rec_decode(b: bytes, loads, err_cls, *, kind="decode", info=None, loads_kw=None, host=1,
               mode="py", opt=None, walk_kw=None):
    """Run loads(b) and record what happened."""
    rec = dict(b=list(b), mode=mode, strict=0, host=host, acc=0, err="clean", tok=[], tok2=[],
               feats=[], kind=kind, flat=0)
    if opt is not None:
        rec["opt"] = opt
    meta = {"bytes": hexs(b)}
    if info is not None:
        meta["info"] = info
    given = bytearray(b) if len(b) % 2 else bytes(b)
    st, v = call(loads, given, **(loads_kw or {}))
    if st == "ok":
        rec["acc"] = 1
        if len(b) % 2:                          # what was read does not depend on the data any more
            given[:] = bytes(255 - x for x in given)
        try:
            rec["tok"] = absval.canon_forms(v, mode, **(walk_kw or {}))
        except absval.Unrepresentable as e:
            rec["tok"] = [[0]]
            meta["unrepresentable"] = str(e)
    elif st == "hang":
        rec["err"] = "unclean"
        meta["outcome"] = "hang"
    else:
        meta["outcome"] = repr(v)[:300]
        if not isinstance(v, err_cls) or not located(v, b):
            rec["err"] = "unclean"
    return rec, meta


def located(e, b):
    """Whether the error names the data and a position in it."""
    return (type(e.position) is int and 0 <= e.position <= len(b) and bytes(e.data) == bytes(b)
            and isinstance(e.message, str) and e.message in str(e))


def judge(c, recs, metas, *, coverage=False, batch=6000, mem="8g", report=None, workers=8):
    """Have TLC judge the records; report(verdict, status, amb, rec, meta) for each."""
    for lo in range(0, len(recs), batch):
        part = recs[lo:lo + batch]
        path = write_trace(part)
        try:
            res = tlc.run("WireTrace", env={"TRACE": path}, workers=workers, mem=mem,
                          coverage=coverage)
        finally:
            os.unlink(path)
        c.tlc(res)
        js = parse_judgements(res)
        if set(js) != set(range(1, len(part) + 1)):
            raise MachineryError(f"TLC judged {len(js)} of {len(part)} records")
        for i, rec in enumerate(part):
            verdict, status, amb = js[i + 1]
            c.traces += 1
            c.count("stream-" + status + ("-ambiguous" if amb == "TRUE" else ""))
            report(verdict, status, amb == "TRUE", rec, metas[lo + i])
        if coverage:
            for a, n in res.actions().items():
                c.count("action-" + a.rstrip("_"), n)


def encode_value(v, dumps, *, feats=(), strict=1, kind="encode", rab=True, **opts):
    """Run dumps(v) and record it against the canonical form of v."""
    rec = dict(mode="js", strict=strict, host=1, acc=1, err="clean", tok2=[], feats=list(feats),
               kind=kind, flat=0)
    rec["tok"] = absval.canon_forms(v, "js", rab=rab)
    st, b = call(dumps, v)
    if st == "ok":
        rec["b"] = list(b)
    return st, b, rec


def roundtrip_value(v, dumps, loads, *, flat=0, rab=True):
    rec = dict(mode="rt", strict=0, host=1, acc=1, err="clean", feats=[], kind="rt", flat=flat)
    kw = {"flat": True} if flat else {}
    rec["tok2"] = absval.canon_forms(v, "rt", rab=rab, **kw)
    rec["tok"] = []
    st, b = call(dumps, v)
    if st != "ok":
        return st, b, rec
    rec["b"] = list(b)
    st2, w = call(loads, b)
    if st2 == "ok":
        try:
            rec["tok"] = absval.canon_forms(w, "rt", **kw)
        except absval.Unrepresentable as e:
            rec["tok"] = [[0]]
            return "ok", f"loads() gave an unexpected value: {e}", rec
    elif st2 == "hang":
        rec["err"] = "unclean"
        return "ok", "loads() hangs on its own output", rec
    else:
        rec["acc"] = 0
        return "ok", f"loads() of own output raised {w!r}", rec
    return "ok", None, rec
