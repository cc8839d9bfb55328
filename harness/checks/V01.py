"""V01: RegExp flags and patterns convert between Python and JavaScript consistently."""
import itertools
import json
import random
import re

import model
import wire
from streams import varint
from common import call
from v8serialize import DecodeV8SerializeError, SerializationFeature, dumps, loads
from v8serialize._errors import V8SerializeError
from v8serialize.constants import JSRegExpFlag
from v8serialize.jstypes import JSArray, JSMap, JSObject, JSRegExp

F = JSRegExpFlag
JS = {"d": F.HasIndices, "g": F.Global, "i": F.IgnoreCase, "l": F.Linear, "m": F.Multiline, "s": F.DotAll,
      "u": F.Unicode, "v": F.UnicodeSets, "y": F.Sticky}
PY = {"A": re.ASCII, "I": re.IGNORECASE, "L": re.LOCALE, "M": re.MULTILINE, "S": re.DOTALL, "U": re.UNICODE,
      "X": re.VERBOSE}
PROBES = {"case": ("aB", "Ab"), "dot": ("a.b", "a\nb"), "line": ("^b", "a\nb"), "same": ("a.b", "axb"),
          "space": ("a b", "a b"), "end": ("a$", "a\nb"), "none": ("c", "C")}
V = SerializationFeature.RegExpUnicodeSets
# sources, and whether Python can compile them too (None: as str patterns with any flags)
SOURCES = ["", "(?:)", "a", "a/b", "é\\d+", "[a-z]+(b|c)*?", "\\\\", "𝒳|\u2028", "a{2,3}$", "/", "^\\w$", "\x00", "x y #z"]
BAD = ["[", "(", "a**b(", "(?<name>a)", "x{99999999999999999999}", "(?a)x", "(?L)x", "\\p{L}", "[[a-z]&&[b]]{", "(?P<1>a)", "a)"]


def made(names, how, r):
    """The flag set, made in several ways."""
    ns = list(names)
    r.shuffle(ns)
    if how == 0:
        f = F.NoFlag
        for n in ns:
            f |= JS[n]
        return f
    if how == 1:
        return F(sum(int(JS[n]) for n in ns))
    if how == 2:
        f = F(511)
        for n in set(JS) - set(ns):
            f &= ~JS[n]
        return f.canonical
    f = F(0)
    for n in ns:
        f = f ^ JS[n]
    return f


def pyset(flags):
    return sorted(n for n, x in PY.items() if int(flags) & int(x))


def pyflags(names):
    f = re.RegexFlag.NOFLAG
    for n in names:
        f |= PY[n]
    return f


def js_flags(c, r, d):
    names = sorted(d["fs"])
    for how in range(4):
        f = made(names, how, r)
        got = {"num": int(f), "text": list(str(f)), "py": f.as_python_flags(throw=False)}
        got["list"] = sorted(n for n, x in JS.items() if x in list(f))
        got["in"] = sorted(n for n, x in JS.items() if x in f)
        want = {"num": d["num"], "text": d["text"], "list": names, "in": names}
        py = got.pop("py")
        got["py"] = None if py is None else pyset(py)
        got["extra"] = None if py is None else int(py) & ~sum(int(x) for x in PY.values())
        want["py"] = sorted(d["py"]) if d["has"] else None
        want["extra"] = 0 if d["has"] else None
        c.traces += 1
        if got != want or type(f) is not F:
            c.violation("RegExp flags have another form than specified", {"flags": names, "made": how, "got": got, "want": want})
        st, v = call(f.as_python_flags)
        if d["has"] and (st != "ok" or pyset(v) != sorted(d["py"])) or not d["has"] and (st != "err" or not isinstance(v, V8SerializeError)):
            c.violation("RegExp flags convert to other Python flags", {"flags": names, "got": repr(v), "has": d["has"]})
        junk = F(d["num"] | r.choice([512, 1024, 1 << 20, 5 << 9]))
        if int(junk.canonical) != d["num"] or str(junk.canonical) != "".join(d["text"]):
            c.violation("canonical flags keep meaningless bits or lose flags", {"flags": names, "got": repr(junk.canonical)})
    f = made(names, 0, r)
    for src in r.sample(SOURCES, 3):
        st, x = call(JSRegExp, src, f)
        if not d["valid"]:
            if st != "err" or not isinstance(x, ValueError):
                c.violation("a RegExp with both u and v is accepted", {"source": src, "flags": names, "got": repr(x)})
            continue
        if st != "ok" or x.source != (src or "(?:)") or int(x.flags) != d["num"]:
            c.violation("a RegExp does not keep its source and flags", {"source": src, "flags": names, "got": repr(x)})
            continue
        y = JSRegExp(src or "(?:)", made(names, 1, r))
        other = JSRegExp(src or "(?:)", F(d["num"] ^ (64 if "l" in names else r.choice([1, 2, 4, 8, 32, 64, 128]))))
        if not (x == y and hash(x) == hash(y) and not x != y) or x == other or x == JSRegExp(src + "z", f):
            c.violation("RegExps are not equal by source and flags", {"source": src, "flags": names})
        for throw in (True, False):
            st, p = call(x.as_python_pattern, throw)
            if not d["has"]:
                good = st == "err" and isinstance(p, V8SerializeError) if throw else (st, p) == ("ok", None)
            else:
                good = (st == "ok" and isinstance(p, re.Pattern) and p.pattern == (src or "(?:)")
                        and pyset(p.flags) == sorted({*d["py"], "U"}))
            if not good:
                c.violation("a RegExp becomes another Python pattern", {"source": src, "flags": names, "throw": throw, "got": repr(p)})
        c.traces += 1
    if d["valid"] and d["has"]:
        for name, (src, text) in PROBES.items():
            st, p = call(JSRegExp(src, f).as_python_pattern)
            found = st == "ok" and p.search(text) is not None
            c.traces += 1
            if found != (name in d["finds"]):
                c.violation("the Python pattern of a RegExp matches otherwise", {"probe": name, "flags": names, "found": found})
    for src in BAD:
        if not d["valid"]:
            break
        x = JSRegExp(src, f)
        st, p = call(x.as_python_pattern, False)
        ok = st == "ok" and (p is None or isinstance(p, re.Pattern) and d["has"] and p.pattern == src)
        st2, p2 = call(x.as_python_pattern)
        ok2 = (st2 == "ok") == (st == "ok" and p is not None) and (st2 == "ok" or isinstance(p2, V8SerializeError))
        c.traces += 1
        if not ok or not ok2:
            c.violation("a RegExp that is no Python pattern is not reported as documented",
                        {"source": src, "flags": names, "no-throw": repr(p), "throw": repr(p2)})


def py_patterns(c, r, d):
    names = sorted(d["fs"])
    if d["kind"] == "flags":
        f = pyflags(names)
        for x in (f, int(f)):
            st, v = call(F.from_python_flags, re.RegexFlag(x))
            good = (st == "ok" and type(v) is F and sorted(n for n in JS if JS[n] in v) == sorted(d["js"])
                    and int(v) == sum(int(JS[n]) for n in d["js"])
                    ) if d["has"] else st == "err" and isinstance(v, V8SerializeError)
            c.traces += 1
            if not good:
                c.violation("Python flags convert to other JavaScript flags", {"flags": names, "got": repr(v), "want": d["js"]})
        return
    conv = (lambda s: s) if d["kind"] == "str" else (lambda s: s.encode())
    srcs = [s for s in SOURCES if "é" not in s and s] if d["kind"] == "bytes" else SOURCES
    for src in r.sample(srcs, 4) + [p[0] for p in PROBES.values()]:
        try:
            p = re.compile(conv(src), pyflags(names))
        except ValueError:
            if d["legal"]:
                raise
            continue
        if not d["legal"]:
            c.count("python-accepts-unexpected-flags")
            continue
        assert pyset(p.flags) == sorted(d["compiled"]), (p, d)
        for throw in (True, False):
            st, x = call(JSRegExp.from_python_pattern, p, throw)
            c.traces += 1
            if d["has"]:
                good = (st == "ok" and type(x) is JSRegExp and x.source == (src or "(?:)")
                        and int(x.flags) == sum(int(JS[n]) for n in d["js"]))
            else:
                good = st == "err" and isinstance(x, V8SerializeError) if throw else (st, x) == ("ok", None)
            if not good:
                c.violation("a Python pattern becomes another RegExp", {"pattern": repr(p), "throw": throw, "got": repr(x)})
        if d["has"] and st == "ok" and d["kind"] == "str" and "A" not in names:
            st, q = call(x.as_python_pattern)
            if st != "ok" or q.pattern != (src or "(?:)") or q.flags != p.flags:
                c.violation("a Python pattern does not come back", {"pattern": repr(p), "got": repr(q)})
            st, q = call(lambda: loads(dumps(p)).as_python_pattern())
            if st != "ok" or q.pattern != (src or "(?:)") or q.flags != p.flags:
                c.violation("a Python pattern does not come back from serialization", {"pattern": repr(p), "got": repr(q)})
        if not d["has"]:
            for v in (p, [p], {"a": p}, JSMap([(p, 1)]), JSMap([(1, p)])):
                st, x = call(dumps, v)
                if st != "err" or not isinstance(x, V8SerializeError):
                    c.violation("a pattern with VERBOSE is written", {"pattern": repr(p), "value": repr(v), "got": repr(x)})
    for name, (src, text) in PROBES.items():
        if not d["legal"]:
            break
        p = re.compile(conv(src), pyflags(names))
        found = p.search(conv(text)) is not None
        if "X" not in names and found != (name in d["finds"]):
            raise model.MachineryError(f"probe {name} {names}")
    for b in (b"\xff", b"a\\\xe9", b"\xc3"):
        if d["kind"] == "bytes" and d["legal"]:
            p = re.compile(b, pyflags(names))
            st, x = call(JSRegExp.from_python_pattern, p, False)
            st2, x2 = call(JSRegExp.from_python_pattern, p)
            c.traces += 1
            if (st, x) != ("ok", None) or st2 != "err" or not isinstance(x2, V8SerializeError):
                c.violation("a bytes pattern that is no text is not reported as documented",
                            {"pattern": repr(p), "no-throw": repr(x), "throw": repr(x2)})


def wire_part(c, r, sets):
    recs, metas = [], []
    for d in sets:
        num = d["num"]
        for n in {num, num | r.choice([512, 1024, 1 << 15, 1 << 31])}:
            src = r.choice(SOURCES)
            s = src.encode()
            b = b"\xff\x0f" + r.choice([b"", b"A\x03", b"o"])
            item = b"R" + r.choice([
                b"S" + varint(len(s), r.randint(0, 1)) + s,
                b'"' + varint(len(src)) + src.encode("latin1") if src.isascii() or src.isprintable() and all(ord(x) < 256 for x in src) else b"S" + varint(len(s)) + s]) \
                + varint(n, r.choice([0, 0, 1, 2]))
            if b.endswith(b"o"):
                b += b'"\x01r' + item + b'"\x01s^\x01{\x02'
            elif len(b) > 2:
                b += item + b"I\x02" + b"^\x01$\x00\x03"
            else:
                b += item
            rec, meta = wire.rec_decode(b, loads, DecodeV8SerializeError)
            recs.append(rec)
            metas.append(meta)
        if d["valid"]:
            x = JSRegExp(r.choice(SOURCES), made(d["fs"], r.randint(0, 3), r))
            junk = JSRegExp(x.source, F(num | 1024))
            for v in (x, [x, x], JSMap([(x, x)]), JSObject([("a", x), ("b", JSRegExp(x.source, F.Global))]), junk):
                if v is junk and r.random() < .8:
                    continue
                if v is junk:
                    st, out = call(dumps, v, features=V)
                    st2, y = call(lambda: loads(out))
                    if st != "ok" or st2 != "ok" or y != x:
                        c.violation("meaningless flag bits are not dropped when written", {"value": repr(v), "got": repr(y)})
                    continue
                st, out, rec = wire.encode_value(v, lambda q: dumps(q, features=V), feats=["v"])
                if st != "ok":
                    c.violation("a RegExp is refused", {"value": repr(v), "got": repr(out)})
                    continue
                recs.append(rec)
                metas.append({"value": repr(v), "bytes": bytes(out).hex()})

    def report(verdict, status, amb, rec, meta):
        if verdict == "ok":
            c.sample({k: str(v)[:300] for k, v in meta.items()})
        else:
            c.violation(verdict, meta)
    wire.judge(c, recs, metas, report=report)
    c.count("wire-records", len(recs))


def run(c):
    r = random.Random(c.seed * 7919 + 1)
    inv = ["NumInverse", "MeaningToPython", "MeaningToJS", "BackToPython", "AlwaysValid"]
    lines = sorted(model.explore(c, "RegExpMC", invariants=inv))
    ds = [json.loads(x) for x in lines]
    sets = [d for d in ds if d["kind"] == "js"]
    c.count("flag-sets", len(sets))
    for _ in range(c.n(1, 8)):
        for d in ds:
            js_flags(c, r, d) if d["kind"] == "js" else py_patterns(c, r, d)
        wire_part(c, r, sets)
    c.sample({"kind": "flags", "example": sets[300]})
