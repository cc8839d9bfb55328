"""E01: errors keep name, message, stack and cause."""
import itertools
import random
import traceback

import gen_values
import model
import wire
from streams import StreamGen, mutate
from v8serialize import (DecodeV8SerializeError, JSErrorName, SerializationFeature,
                         V8SerializeError, dumps, loads)
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSMap, JSObject, JSUndefined

NAMES = ["Error", "EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "UriError"]
TAGS = {"EvalError": b"E", "RangeError": b"R", "ReferenceError": b"F", "SyntaxError": b"S",
        "TypeError": b"T", "URIError": b"U"}
CIRC = SerializationFeature.CircularErrorCause


# ---------------------------------------------------------------- exceptions

def describe(t):
    """A traceback.TracebackException in the specification's form."""
    def opt(x):
        return [] if x is None else [str(x)]
    return {"only": list(t.format_exception_only()),
            "frames": [{"name": str(f.name), "file": opt(f.filename), "line": opt(f.lineno),
                        "col": opt(getattr(f, "colno", None))} for f in t.stack or ()],
            "cause": [describe(t.__cause__)] if t.__cause__ else [],
            "ctx": [describe(t.__context__)] if t.__context__ else [],
            "sup": int(bool(t.__suppress_context__)),
            "subs": [describe(x) for x in getattr(t, "exceptions", None) or ()]}


def error_of(e):
    def opt(x):
        return [] if x is None else [str(x)]
    return {"name": str(getattr(e.name, "value", e.name)), "message": opt(e.message), "stack": opt(e.stack),
            "cause": [] if e.cause is None else [error_of(e.cause)]}


class Odd(Exception):
    def __str__(self):
        raise RuntimeError("no str")


class Multi(Exception):
    def __str__(self):
        return "first\nsecond  \n third\n"


class Outer:
    class Inner(Exception):
        pass


MESSAGES = ["", "m", "too low", "é€😀", "a: b", " padded ", "two\nlines", "tab\there", "\n", "x" * 300]


def leaf(r):
    cls = r.choice([ValueError, KeyError, TypeError, Exception, OSError, KeyboardInterrupt, Odd, Multi,
                    Outer.Inner, StopIteration, SystemExit, UnicodeDecodeError, SyntaxError, JSError])
    if cls is UnicodeDecodeError:
        return cls("utf-8", b"\xff", 0, 1, "bad")
    if cls is SyntaxError:
        if r.random() < .5:
            try:
                compile(r.choice(["a b", "def f(:\n  pass", "x = (", "'"]), "<src>", "exec")
            except SyntaxError as e:
                return e.with_traceback(None)
        return cls(r.choice(MESSAGES))
    if cls is OSError and r.random() < .5:
        return cls(2, "gone", "/x")
    args = r.choice([(), (r.choice(MESSAGES),), (r.choice(MESSAGES),), (1, "b"), (None,)])
    if cls is JSError:
        args = (r.choice(MESSAGES),)
    return cls(*args)


def thrown(e, depth):
    """e raised through some calls."""
    def go(n):
        if n:
            go(n - 1)
        else:
            raise e
    try:
        if depth == 4:
            (lambda: go(0))()
        else:
            go(depth)
    except BaseException as x:
        return x


def exception(r, d=0):
    if d < 3 and r.random() < .22:
        cls = r.choice([ExceptionGroup, BaseExceptionGroup])
        subs = [exception(r, d + 1) for _ in range(r.randint(1, 3))]
        if any(not isinstance(s, Exception) for s in subs):
            cls = BaseExceptionGroup
        e = cls(r.choice(["group", "é", "g\nh"]), subs)
    else:
        e = leaf(r)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        e.add_note(r.choice(["note", "n1\nn2", "", " indented"]))
    if r.random() < .7:
        e = thrown(e, r.randint(0, 4))
    e.__context__ = None
    if d < 3 and r.random() < .4:
        e.__cause__ = exception(r, d + 1)
        if r.random() < .3:
            e.__suppress_context__ = False
    if d < 4 and r.random() < .4:
        e.__context__ = exception(r, d + 1)
        if r.random() < .2:
            e.__suppress_context__ = True
    return e


def exceptions(c, r):
    hists, seen, cases = [], [], []
    for _ in range(c.n(500, 6000)):
        cases.append(exception(r))
    a, b = ValueError("a"), KeyError("b")      # cycles
    a.__cause__, b.__cause__ = b, a
    cases += [a, b]
    a = ValueError("self")
    a.__cause__ = a
    cases.append(a)
    a, b = ValueError("a"), KeyError("b")
    a.__context__, b.__context__ = b, a
    cases += [a, thrown(b, 2)]
    for e in cases:
        t = traceback.TracebackException.from_exception(e)
        st, x = wire.call(JSErrorData.from_exception, e)
        if st != "ok":
            c.violation("from_exception() failed", {"exception": repr(e)[:300], "outcome": repr(x)[:300]})
            continue
        try:
            hists.append({"start": 0, "steps": [{"op": describe(t), "r": error_of(x), "obs": []}]})
            seen.append(e)
        except RecursionError:
            pass
    # tracebacks with missing positions
    for file, line, col in itertools.product((None, "f.py"), (None, 3), (None, 0, 7)):
        t = traceback.TracebackException.from_exception(ValueError("v"))
        fs = traceback.FrameSummary("f.py", 3, "fn", lookup_line=False, line="x")
        fs.filename, fs.lineno, fs.colno = file, line, col
        t.stack = [fs, fs]
        st, x = wire.call(JSErrorData.from_traceback_exception, t)
        if st != "ok":
            c.violation("from_traceback_exception() failed", {"frame": [file, line, col], "outcome": repr(x)[:300]})
            continue
        hists.append({"start": 0, "steps": [{"op": describe(t), "r": error_of(x), "obs": []}]})
    c.count("exceptions", len(hists))
    model.judge(c, "ErrTextTrace", hists, what="exception conversion")
    return seen


# ---------------------------------------------------------------- errors written

TEXTS = [None, "", "m", "é€😀", "Error: x\n    at y (z:1:2)"]


def causes(e0):
    yield from [None, 0, "", False, JSUndefined, 1.5, 2**70, "c", [], [1, e0], {"a": e0}, JSMap([(e0, e0)]), e0,
                JSError("inner"), JSErrorData("inner", name="TypeError", cause=JSErrorData(None)),
                JSErrorData("deep", cause=JSErrorData("deeper", cause=["deepest"], stack="s"))]


def written(r, thorough):
    """Errors without cycles, at different places."""
    e0 = JSErrorData("shared", name="RangeError")
    names = [*NAMES, *[n for n in JSErrorName], "Custom", "", "error", "typeError", "TypeError "]
    for name, m, s in itertools.product(names, TEXTS, TEXTS):
        for cls in (JSErrorData, JSError):
            for cause in causes(e0) if thorough else r.sample(list(causes(e0)), 2):
                e = cls(m, name=name, stack=s, cause=cause)
                k = r.randint(0, 6)
                yield ([e, [e, e], {"a": e, "b": [e]}, JSMap([(e, 1), (2, e)]), [e0, e, e0],
                        [[1], e, [2], JSError("after", cause=e)], JSObject([("e", e), (0, [e])])][k])


def circular(r):
    """(value, is it circular through a cause)"""
    for cls in (JSErrorData, JSError):
        e = cls("m", stack="s")
        e.cause = e
        yield e, 1
        e = cls("m")
        e.cause = [1, e]
        yield [e], 1
        e = cls("m")
        e.cause = {"x": JSMap([(1, e)])}
        yield {"e": e}, 1
        a, b = cls("a"), cls("b", name="TypeError")
        a.cause, b.cause = b, a
        yield a, 1
        yield [b, a], 1
        a, b, d = cls("a"), cls("b"), cls("d")
        a.cause, b.cause, d.cause = b, d, b
        yield a, 1
        yield [d, b], 1
        lst = JSArray([0])
        e = cls("m", cause=lst)
        lst[1] = e
        yield lst, 0       # the cycle can be closed at the array
        yield e, 1         # ... or only at the error
        o = JSObject()
        e = cls("m", cause=o)
        o["e"] = cls("n", cause=[o])
        yield [o, e], 0
        yield [e, o], 0
        s = cls("shared")
        yield [cls("a", cause=s), cls("b", cause=s), s], 0
        yield cls("a", cause=[s, cls("c", cause=s)]), 0


# ---------------------------------------------------------------- errors read

def field_orders(r, thorough):
    """Every order of the error fields."""
    fields = {109: b"m\"\x01M", 115: b"s\"\x01S", 99: b"cI\x02", 46: b".", 69: b"E", 82: b"R", 70: b"F",
              83: b"S", 84: b"T", 85: b"U"}
    alph = [109, 115, 99, 46, 84, 85] if not thorough else list(fields)
    for n in range(0, 5):
        for p in itertools.product(alph, repeat=n):
            b = b"\xff\x0fA\x03r" + b"".join(fields[x] for x in p)
            yield b + b"T" + b"^\x01" + b"$\x00\x03"
            if r.random() < .2 and p and p[-1] == 46:
                yield b"\xff\x0fr" + b"".join(fields[x] for x in p)
    for p in itertools.permutations([109, 115, 99]):
        for nm in (b"", *(bytes([x]) for x in b"ERFSTU")):
            for ver in (13, 14, 15):
                yield bytes([255, ver]) + b"r" + nm + b"".join(fields[x] for x in p) + b"."
    for x in range(0, 256):
        yield b"\xff\x0fr" + bytes([x])
        yield b"\xff\x0fr" + bytes([x, 46])
        yield b"\xff\x0frm\"\x01M" + bytes([x]) + b"\"\x01X."
    # strings in every encoding, causes of every kind, references to the error itself
    strs = [b"\"\x00", b"\"\x01a", b"c\x02a\x00", b"\x00c\x02a\x00", b"S\x02\xc3\xa9", b"S\x01\xff", b"I\x02", b"_",
            b"c\x01a", b"^\x00", b"s\"\x01a"]
    cs = [b"_", b"0", b"-", b"T", b"I\x01", b"\"\x01a", b"^\x00", b"^\x01", b"A\x01^\x00$\x00\x01", b"o{\x00",
          b"r.", b"rc^\x00.", b"rc^\x01.", b";^\x00^\x01:\x02", b"D\x00\x00\x00\x00\x00\x00\xf8\x7f", b"", b"B\x02ab",
          b"o\"\x01ar.{\x01", b"\x00\x00T", b"'^\x00,\x01"]
    for a, b in itertools.product(strs, strs):
        yield b"\xff\x0frm" + a + b"s" + b + b"."
        yield b"\xff\x0frm" + a + b"cTs" + b + b"."
    for cz in cs:
        for post in (b".", b"s\"\x01S.", b"sc\x02a\x00.", b"m\"\x01M.", b"", b"c" + cz + b"."):
            for pre in (b"", b"T", b"m\"\x01M", b"s\"\x01S", b"Um\"\x01Ms\"\x01S"):
                yield b"\xff\x0fr" + pre + b"c" + cz + post
                yield b"\xff\x0fA\x02r" + pre + b"c" + cz + post + b"^\x01$\x00\x02"


class ErrGen(StreamGen):
    """Random streams in which errors are frequent."""

    def value(self, d):
        if d < self.maxdepth and self.r.random() < .4:
            self.error(d)
        else:
            super().value(d)


def run(c):
    r = random.Random(f"E01-{c.seed}")
    recs, metas = [], []

    def add(rec, **meta):
        recs.append(rec)
        metas.append({**meta, "kind": rec["kind"]})

    def written_ok(v, meta, feats=()):
        f = CIRC if feats else SerializationFeature.MaxCompatibility
        for st, why, rec in (wire.encode_value(v, lambda x: dumps(x, features=f), feats=feats, strict=1),
                             wire.roundtrip_value(v, lambda x: dumps(x, features=f), loads)):
            if st != "ok":
                c.violation("an error was not encoded", {**meta, "outcome": repr(why)[:300]})
            elif rec["kind"] == "rt" and why:
                c.violation("error does not come back", {**meta, "outcome": why[:300]})
            else:
                add(rec, **meta)

    # Python exceptions
    es = exceptions(c, r)
    for e in es[:c.n(150, 1500)] + es[-10:]:
        v = r.choice([e, [e], [e, e], {"a": e, "b": [e]}, [[1], e, [2], e]])
        try:
            shown = repr(e)
        except Exception:
            shown = type(e).__name__
        written_ok(v, {"exception": shown[:200]}, ["circular"] if r.random() < .3 else [])
    # JavaScript errors
    for v in written(r, c.thorough):
        c.count("errors-written")
        written_ok(v, {"value": gen_values.show(v)[:400]}, ["circular"] if r.random() < .3 else [])
    for v, circ in circular(r):
        meta = {"value": gen_values.show(v)[:300]}
        written_ok(v, meta, ["circular"])
        if not circ:
            written_ok(v, meta)
            continue
        st, x = wire.call(dumps, v)
        if st != "err" or not isinstance(x, V8SerializeError):
            c.violation("a circular cause was not refused without CircularErrorCause",
                        {**meta, "outcome": repr(x)[:200]})
    # V8's spelling
    st, b = wire.call(dumps, JSErrorData("m", name="URIError"))
    if st != "ok" or bytes(b) != b"\xff\x0frUmS\x01m.":
        c.violation("an URIError is not written as one", {"bytes": repr(b)[:100]}, key="URIError-name")
    for nm, t in TAGS.items():
        st, v = wire.call(loads, b"\xff\x0fr" + t + b"m\"\x01m.")
        if st != "ok" or str(getattr(v.name, "value", v.name)) != nm:
            c.violation("an error is read with another name", {"expected": nm, "outcome": repr(v)[:200]},
                        key="URIError-name" if nm == "URIError" else None)
    # reading
    def reads():
        yield from field_orders(r, c.thorough)
        for _ in range(c.n(1500, 15000)):
            b = bytes(ErrGen(r, maxdepth=4, budget=10).stream())
            yield b
            if r.random() < .5:
                yield mutate(r, b)
    for b in reads():
        rec, meta = wire.rec_decode(b, loads, DecodeV8SerializeError)
        add(rec, **meta)

    def report(verdict, status, amb, rec, meta):
        c.count("judged-" + meta["kind"])
        if verdict == "ok":
            c.sample({k: str(v)[:300] for k, v in meta.items()})
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
