"""O01: JSObject and JSArray follow JavaScript's property rules."""
import json
import os
import random
import struct
import tempfile

import model
from absval import dbl_tok, int_tok, mag, str_tok
from v8serialize.jstypes import JSArray, JSHole, JSObject

SPELL = [0, "0", 0.0, -0.0, 1, "1", 1.0, "01", "-0", -1, "-1", -1.0, 1.5, "1.5", "a", "",
         2**32 - 2, str(2**32 - 2), float(2**32 - 2), 2**32 - 1, str(2**32 - 1), float(2**32 - 1),
         "length", 20, "20"]
POOL = [*SPELL, 2, 3, "3", 5, 5.0, 7, 15, 16, 17, "17", 33, 63.0, 64, 100, "100", 1000, 99999,
        2**31 - 1, 2**31, str(2**31), 2**32, str(2**32), float(2**32), 2**53 - 1, str(2**53 - 1),
        float(2**53 - 1), 2**64, str(2**64), -2**40, "9" * 30, "00", "+1", " 1", "1 ", "1_0", "1e3",
        "٣", "²", "１", "b", "c", "é", "😀", "__proto__", "toString", 0.5, 2.25, -1.5, "0.5",
        "4294967294.0", "4294967295.0", "-0.0", "0x1", "NaN", "Infinity", "x" * 5000, "1" * 5000,
        True, "None"]


def ktok(k):
    if isinstance(k, float):
        return dbl_tok(k)
    return int_tok(int(k)) if isinstance(k, int) else str_tok(k)


def kreal(t):
    if t[0] == 34:
        return "".join(map(chr, t[2:]))
    if t[0] == 73:
        n = int.from_bytes(bytes(t[3:]), "little")
        return -n if t[1] else n
    return struct.unpack("<d", bytes(t[1:]))[0]


class KeysOnly:
    """The least that can be passed as a mapping."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


class Driver:
    def __init__(self, make):
        self.o = make()

    @staticmethod
    def v(x):
        return JSHole if x == 0 else f"v{x}"

    @staticmethod
    def w(v):
        return 0 if v is JSHole else int(v[1:]) if isinstance(v, str) and v[:1] == "v" else -999

    def apply(self, op):
        o, n = self.o, op[0]
        k = kreal(op[1]) if len(op) > 1 and n != "setlen" else None
        val = lambda x: ["val", self.w(x)]  # noqa: E731
        num = lambda x: ["val", int(x)]  # noqa: E731
        none = lambda _: ["none"]  # noqa: E731
        keys = lambda x: ["keys", [ktok(y) for y in x]]  # noqa: E731

        def run(f, ok):
            return model.outcome(f, ok=ok, errors=(KeyError, IndexError))
        if n == "set":
            return run(lambda: o.__setitem__(k, self.v(op[2])), none)
        if n == "get":
            return run(lambda: o[k], val)
        if n == "getdef":
            return run(lambda: o.get(k, self.v(op[2])), val)
        if n == "has":
            return run(lambda: k in o, num)
        if n == "del":
            return run(lambda: o.__delitem__(k), none)
        if n == "pop":
            return run(lambda: o.pop(k), val)
        if n == "popdef":
            return run(lambda: o.pop(k, self.v(op[2])), val)
        if n == "setdefault":
            return run(lambda: o.setdefault(k, self.v(op[2])), val)
        if n == "update":
            pairs = [(k, self.v(op[2])), (kreal(op[3]), self.v(op[4]))]
            if len(d := dict(pairs)) == 2:
                if all(isinstance(x, str) for x in d) and len(o) % 2:
                    return run(lambda: o.update(**d), none)
                if len(o) % 3 == 0:
                    return run(lambda: o.update(KeysOnly(d)), none)
            return run(lambda: o.update(iter(pairs)), none)
        if n == "popitem":
            return run(lambda: o.popitem(), lambda e: ["item", ktok(e[0]), self.w(e[1])])
        if n == "clear":
            return run(lambda: o.clear(), none)
        if n == "len":
            return run(lambda: len(o), num)
        if n == "keys":
            return run(lambda: list(o), keys)
        if n == "values":
            return run(lambda: list(o.values()), lambda x: ["values", [self.w(y) for y in x]])
        if n == "rkeys":
            return run(lambda: list(o.properties), keys)
        if n == "arrlen":
            return run(lambda: len(o.array), lambda x: ["mag", mag(x)])
        if n == "push":
            return run(lambda: o.array.append(self.v(op[2])), none)
        if n == "setlen":
            return run(lambda: o.array.resize(int.from_bytes(bytes(op[1]), "little")), none)
        raise AssertionError(op)

    def observe(self):
        o = self.o
        ints = [[ktok(k), self.w(x)] for k, x in o.array.elements().items()]
        strs = [[ktok(k), self.w(x)] for k, x in o.properties.items()]
        items = [[ktok(k), self.w(x)] for k, x in o.items()]
        if items != ints + strs or len(o) != len(items) or o.array.elements_used != len(ints):
            return {"inconsistent": repr(o)[:300]}
        for k, x in o.items():
            if o[k] != x or k not in o:
                return {"inconsistent": repr(o)[:300]}
        return {"len": mag(len(o.array)), "ints": ints, "strs": strs}


def history(r: random.Random):
    d = Driver(r.choice([JSObject, JSArray]))
    start = d.observe()
    steps = []
    pool = r.sample(POOL, r.choice([4, 10, 25]))
    if r.random() < 0.5:
        pool = [k for k in pool if not isinstance(k, int)] or ["a", "0"]
    if r.random() < 0.5:
        pool += [str(i) for i in range(30)]
    for _ in range(r.choice([10, 40, 80])):
        # numbers are not spelled as doubles beyond 2^53 (their text is not settled)
        k = ktok(r.choice(pool))
        v = r.randint(1, 5) if r.random() < 0.93 else 0
        x = r.random()
        if x < 0.5:
            op = r.choice([["set", k, v], ["set", k, v], ["set", k, v], ["setdefault", k, max(1, v)],
                           ["update", k, v, ktok(r.choice(pool)), r.randint(1, 5)]])
        elif x < 0.72:
            op = r.choice([["del", k], ["pop", k], ["popdef", k, 7], ["popitem"]])
            if r.random() < 0.05:
                op = ["clear"]
        elif x < 0.9:
            op = r.choice([["get", k], ["has", k], ["getdef", k, 8], ["len"], ["keys"], ["values"],
                           ["rkeys"], ["arrlen"]])
        else:
            n = len(d.o.array)
            op = ["push", [34, 0], v] if r.random() < 0.6 or n > 1000 \
                else ["setlen", mag(max(0, n + r.randint(-4, 4)))]
        res = d.apply(op)
        steps.append({"op": op, "r": res, "obs": [d.observe()] if r.random() < 0.4 else []})
        if res[0] in ("unexpected", "hang"):
            break
    return {"start": start, "steps": steps}


def constructors(c):
    """Every way to build an object agrees with setting the items one by one."""
    pairs = [("b", "v1"), (2, "v2"), ("0", "v3"), ("a", "v4"), (1.0, "v5"), ("b", "v6"), ("01", "v7"), ("self", "v8"),
             ("properties", "v9")]
    for n in range(len(pairs) + 1):
        ps = pairs[:n]
        want = Driver(JSObject)
        for k, v in ps:
            want.o[k] = v
        kw = {k: v for k, v in ps if isinstance(k, str)}
        want_kw = Driver(JSObject)
        for k, v in [*ps, *kw.items()]:
            want_kw.o[k] = v
        for cls in (JSObject, JSArray):
            forms = {"mapping": lambda: cls(dict(ps)), "mapping+kw": lambda: cls(dict(ps), **kw),
                     "JSObject": lambda: cls(JSObject(ps)), "update": lambda: upd(cls(), ps), "keys": lambda: cls(KeysOnly(dict(ps))),
                     "update keys": lambda: upd(cls(), KeysOnly(dict(ps)))}
            if cls is JSObject:
                forms["pairs"] = lambda: cls(ps)
                forms["iterator"] = lambda: cls(iter(ps))
            for name, f in forms.items():
                c.evaluations += 1
                w = want_kw if "kw" in name else want
                got = Driver(f).observe()
                exp = w.observe()
                if name in ("JSObject",):
                    exp = got if sorted(map(str, got["strs"])) == sorted(map(str, exp["strs"])) \
                        and got["ints"] == exp["ints"] else exp
                if got != exp:
                    c.violation("constructing an object differs from setting its items",
                                {"class": cls.__name__, "form": name, "pairs": ps, "got": got, "expected": exp})
        seq = [JSHole if i % 3 == 1 else f"v{i}" for i in range(1, n + 1)]
        a, b = JSArray(iter(seq)), JSArray()
        for i, x in enumerate(seq):
            b[i] = x
        if Driver(lambda: a).observe() != Driver(lambda: b).observe():
            c.violation("JSArray(values) differs from setting its items", {"values": repr(seq)})


def upd(o, ps):
    o.update(ps)
    return o


def run(c):
    rng = random.Random(f"O01-{c.seed}")
    few = [0, "0", 1.0, "1", "01", -1, "-1", "a", 2**32 - 2, "4294967295"]
    for keys, bound, tour in [(SPELL, 1, c.n(4000, 20000)), (few, 2, c.n(6000, 30000)),
                              *([([0, "1", "a"], 3, 20000)] if c.thorough else [])]:
        fd, path = tempfile.mkstemp(suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            f.write(json.dumps([ktok(k) for k in keys]) + "\n")
        os.environ["KEYS"] = path
        try:
            lines = model.explore(c, "JSObjMC", {"Bound": bound}, ["InvWellFormed", "InvKeys"],
                                  mem="12g")
        finally:
            os.unlink(path)
        g = model.Graph(lines)
        c.count("model-transitions", len(g))
        empty = {"len": [], "ints": [], "strs": []}
        for cls in (JSObject, JSArray):
            model.replay(c, g, [empty], lambda s: Driver(cls), rng=rng, what=cls.__name__,
                         tour_steps=tour, observe=0.3)
    hs = [history(rng) for _ in range(c.n(500, 4000))]
    c.sample({"history": [x["op"] for x in hs[0]["steps"][:4]]})
    model.judge(c, "JSObjTrace", hs, what="object-history", invariants=["InvWellFormed"])
    constructors(c)
