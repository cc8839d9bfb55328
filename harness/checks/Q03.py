"""Q03: JSMap and JSSet compare with each other and with Python's containers as documented."""
import json
import os
import random
from collections import OrderedDict, UserDict
from collections.abc import Mapping, Set
from datetime import datetime, timezone
from fractions import Fraction
from types import MappingProxyType

import model
from common import call, write_trace
from v8serialize.constants import JSRegExpFlag
from v8serialize.jstypes import JSArray, JSHole, JSMap, JSObject, JSRegExp, JSSet, JSUndefined


class MyMapping(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class MySet(Set):
    def __init__(self, d):
        self.d = d

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class MyJSMap(JSMap):
    pass


class MyJSSet(JSSet):
    pass


class Plain:
    """Equal to nothing but itself."""


# (same-value-zero class or None for identity, == class, reflexive, hashable, new object)
FAMILIES = [
    [("n1", "1", 1, 1, lambda: 1), ("bT", "1", 1, 1, lambda: True), ("n1", "1", 1, 1, lambda: 1.0)],
    [("n0", "0", 1, 1, lambda: 0), ("bF", "0", 1, 1, lambda: False), ("n0", "0", 1, 1, lambda: -0.0)],
    [("big", "big", 1, 1, lambda: 2**70 + 2**30), ("big", "big", 1, 1, lambda: float(2**70 + 2**30))],
    [("sa", "sa", 1, 1, lambda: "".join(["a", "b"])), ("sa", "sa", 1, 1, lambda: "".join(["ab", ""]) + "")],
    [("b", "b", 1, 1, lambda: bytes([120, 121])), ("b", "b", 1, 1, lambda: bytes([120, 121]))],
    [(None, "t", 1, 1, lambda: tuple([0])), (None, "t", 1, 1, lambda: tuple([False]))],
    [("nan", None, 0, 1, lambda: float("nan")), ("nan", None, 0, 1, lambda: -float("nan"))],
    [(None, "ba", 1, 0, lambda: bytearray(b"q")), (None, "ba", 1, 0, lambda: bytearray(b"q"))],
    [(None, "o", 1, 0, lambda: JSObject(a=1)), (None, "o", 1, 0, lambda: JSObject(a=True))],
    [(None, "arr", 1, 0, lambda: JSArray([1, JSHole])), (None, "arr", 1, 0, lambda: JSArray([1, JSHole]))],
    [(None, "set", 1, 0, lambda: JSSet([1])), (None, "set", 1, 0, lambda: JSSet([1.0]))],
    [(None, "map", 1, 0, lambda: JSMap(a=[1])), (None, "map", 1, 0, lambda: JSMap(a=[1.0]))],
    [(None, "li", 1, 0, lambda: [0]), (None, "li", 1, 0, lambda: [0.0])],
    [(None, "re", 1, 1, lambda: JSRegExp("a", JSRegExpFlag.Global)), (None, "re", 1, 1, lambda: JSRegExp("a", JSRegExpFlag.Global))],
    [(None, "dt", 1, 1, lambda: datetime(2020, 1, 1, tzinfo=timezone.utc)), (None, "dt", 1, 1, lambda: datetime(2020, 1, 1, tzinfo=timezone.utc))],
    [("None", "None", 1, 1, lambda: None)], [("undef", "undef", 1, 1, lambda: JSUndefined)],
    [(None, None, 1, 1, Plain), (None, None, 1, 1, Plain)],
    [(None, "frac", 1, 1, lambda: Fraction(1, 3)), (None, "frac", 1, 1, lambda: Fraction(2, 6))],
    [("s1", "s1", 1, 1, lambda: "1")], [("n2", "n2", 1, 1, lambda: 2)], [("semp", "semp", 1, 1, lambda: "")],
]


class Pool:
    """Tokens and their objects."""

    def __init__(self, fams):
        self.toks, self.objs = [], []
        for svz, eq, refl, hsh, new in [x for f in fams for x in f]:
            i = len(self.toks) + 1
            o = new()
            same = next((j for j, x in enumerate(self.objs, 1) if x is o), i)     # (interned)
            self.objs.append(o)
            self.toks.append({"id": same, "svz": svz or f"#{same}", "eq": eq or f"#{same}", "refl": bool(refl),
                              "hash": bool(hsh)})

    def obj(self, t):
        return self.objs[t["id"] - 1]


def named(puts):
    return {(f"k{i}" if i % 2 else i): v for i, (_, v) in enumerate(puts)}


def lefts(r, fam, puts):
    """The JS container, made in some way."""
    if fam == "object":
        return JSObject(named(puts))
    if fam == "array":
        return JSArray([v for _, v in puts])
    if fam == "set":
        cls = r.choice([JSSet, JSSet, MyJSSet])
        if r.random() < .5:
            return cls([k for k, _ in puts])
        s = cls()
        for k, _ in puts:
            s.add(k) if r.random() < .7 else s.__ior__([k])
        return s
    cls = r.choice([JSMap, JSMap, MyJSMap])
    if r.random() < .5:
        return cls(puts)
    m = cls()
    for k, v in puts:
        if r.random() < .7:
            m[k] = v
        else:
            m.update([(k, v)])
    return m


def rights(r, fam, kind, puts):
    """Containers of the other side: (container, whether == may be asked of it first)."""
    if kind == "js":
        return [(lefts(r, fam, puts), True)]
    if fam == "object":
        d = named(puts)
        return [(x, True) for x in (d, OrderedDict(d), MappingProxyType(d), JSArray(d), JSMap(d), list(d.items()), None)]
    if fam == "array":
        x = [v for _, v in puts]
        d = dict(enumerate(x))
        return [(y, True) for y in (x, tuple(x), d, JSMap(d), JSObject(d), None)]
    if fam == "set":
        s = {}
        for k, _ in puts:
            s.setdefault(k)
        if kind == "other":
            return [(x, True) for x in (list(s), tuple(s), JSArray(list(s)), s, JSMap(s), JSObject(), None, dict.fromkeys(s, 1),
                                        JSArray())]
        real = set(s)
        if len(s) != len(real):
            raise AssertionError
        return [(real, True), (frozenset(s), True), (s.keys(), True), (MySet(s), False)]
    d = {}
    for k, v in puts:
        d[k] = v
    if kind == "other":
        text = {k: v for k, v in d.items() if isinstance(k, str)}
        return [(x, True) for x in (list(d.items()), tuple(d.items()), JSSet(d), set(d), d.keys(), JSObject(text), JSArray(text),
                                    JSObject(), JSArray(), None, 1)]
    return [(d, True), (OrderedDict(d.items()), True), (MappingProxyType(d), True), (UserDict(d), False), (MyMapping(d), False)]


def compare(left, others):
    """1 or 0, or what is wrong."""
    seen = set()
    for o, both in others:
        asks = [("l == r", lambda: left == o), ("not l != r", lambda: not left != o)]
        if both:
            asks += [("r == l", lambda: o == left), ("not r != l", lambda: not o != left)]
        for name, f in asks:
            st, v = call(f)
            seen.add((int(v) if st == "ok" and type(v) is bool else repr(v)))
            if len(seen) > 1:
                return f"{type(o).__name__} {name}: {v!r}"[:200]
    return seen.pop()


def small(c, r):
    us = []
    pools = []
    mixed = r.sample(FAMILIES, len(FAMILIES))
    plans = [(fam, mixed[i:i + 2], 2) for fam in ("set", "map") for i in range(0, len(mixed), 2)]
    for n in range(c.n(6, 24)):
        fam = "set" if n % 2 else "map"
        plans.append((fam, r.sample(FAMILIES, 2 if n % 3 else 3), 3 if fam == "set" else 2))
    for fam, fams, most in plans:
        p = Pool(fams)
        toks = r.sample(p.toks, min(len(p.toks), 4))
        one = Pool([[("v", "v", 1, 1, lambda: "v")]]).toks[0]
        if fam == "map":
            p.toks += [{"id": len(p.toks) + 1, **one, "svz": "val"}]
            p.toks[-1]["id"] = len(p.toks)
            p.objs.append("v")
            toks = toks[:3]
            vals = r.sample(p.toks, 2)
        else:
            vals = toks[:1]
        us.append({"keys": toks, "vals": vals, "max": most, "kinds": ["js", "py"]})
        pools.append((fam, p))
    path = write_trace([us])
    os.environ["KEYS"] = path
    try:
        lines = model.explore(c, "MixedEqMC", {}, ["Symmetric", "Itself", "Agrees", "OrderFree"], head="E", mem="8g")
    finally:
        del os.environ["KEYS"]
        os.unlink(path)
    for ln in sorted(lines):
        d = json.loads(ln)
        fam, p = pools[d["u"] - 1]
        o = lambda puts: [(p.objs[k - 1], p.objs[v - 1]) for k, v in puts]  # noqa: E731
        left = lefts(r, fam, o(d["a"]))
        got = compare(left, rights(r, fam, d["kind"], o(d["b"])))
        c.traces += 1
        c.count(f"small-{fam}-{d['kind']}-{d['eq']}")
        if got != d["eq"]:
            c.violation("a comparison does not follow the specification",
                        {"type": fam, "left": repr(o(d["a"])), "right": repr(o(d["b"])), "kind": d["kind"],
                         "expected": d["eq"], "observed": got})


def big(c, r):
    """Long histories: containers that grow, and are compared now and then."""
    hists, meta = [], []
    for _ in range(c.n(1500, 20000)):
        fam, kind = r.choice(["map", "set"]), r.choice(["js", "py", "py", "other"])
        if kind == "other":
            fam = r.choice(["map", "set", "object", "array"])
        p = Pool(r.sample(FAMILIES, r.choice([1, 2, 4, 8])))
        toks = p.toks
        safe = [t for t in toks if t["hash"]] if kind != "js" else toks
        lk = safe if r.random() < .8 else toks
        if not safe or not lk:
            continue
        vals = r.sample(toks, min(len(toks), r.choice([1, 1, 2, 3]))) if fam != "set" else [toks[0]]
        left, rp, lp, steps = [], [], [], []
        l, rr = [], []
        recipe = [(r.choice(lk), r.choice(vals)) for _ in range(r.choice([0, 1, 2, 4, 8]))]
        mirror = [(k, v) if r.random() < .5 else r.choice([(x, v) for x in safe if x["eq"] == k["eq"]] or [(k, v)])
                  for k, v in recipe if k in safe]
        if kind != "js" or r.random() < .2:
            r.shuffle(mirror)
        if r.random() < .3 and mirror:
            mirror[r.randrange(len(mirror))] = (r.choice(safe), r.choice(vals))
        if r.random() < .2:
            mirror += mirror[:1]
        todo = [("left", e) for e in recipe]
        for e in mirror:
            todo.insert(r.randint(0, len(todo)), ("right", e))
        order = [e for s, e in todo if s == "right"]
        assert len(order) == len(mirror)
        for side, (k, v) in todo:
            (l if side == "left" else rr).append((p.obj(k), p.obj(v)))
            steps.append({"op": [side, k, v], "r": -1, "obs": []})
            if r.random() < .2:
                steps.append({"op": ["look"], "r": compare(lefts(r, fam, l), rights(r, fam, kind, rr)), "obs": []})
        steps.append({"op": ["look"], "r": compare(lefts(r, fam, l), rights(r, fam, kind, rr)), "obs": []})
        bad = next((s["r"] for s in steps if not isinstance(s["r"], int)), None)
        if bad:
            c.violation("comparisons disagree or fail", {"type": fam, "left": repr(l), "right": repr(rr), "kind": kind,
                                                         "observed": bad})
            continue
        hists.append({"start": {"l": [], "r": [], "kind": kind}, "steps": steps})
        meta.append({"type": fam, "left": repr(l), "right": repr(rr)})
        c.count(f"{fam}-{kind}-{steps[-1]['r']}")
    model.judge(c, "MixedEqTrace", hists, what="comparisons", meta=meta)


def run(c):
    r = random.Random(c.seed * 31 + 5)
    small(c, r)
    big(c, r)
