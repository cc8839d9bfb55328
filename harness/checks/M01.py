"""M01: JSMap and JSSet follow same-value-zero."""
import itertools
import json
import os
import random
import tempfile
from datetime import datetime

import model
from absval import dbl_tok, int_tok, str_tok
from v8serialize.jstypes import (
    JSArray, JSMap, JSObject, JSRegExp, JSSet, JSUndefined, same_value_zero,
)


def fresh(k):
    """The same key, where JavaScript has no identity: as another object where possible."""
    if type(k) is bytes:
        return bytes(bytearray(k))
    if type(k) is str:
        return "".join(list(k))
    if type(k) is int:
        return int(str(k))
    if type(k) is float:
        return float(repr(k))
    return k


class Pool:
    """Concrete keys and their tokens."""

    def __init__(self, keys):
        self.keys = keys
        self.objs = []
        self.toks = [self.tok(k) for k in keys]

    def tok(self, k):
        """The specification's token of a key."""
        if k is None:
            return [48]
        if k is JSUndefined:
            return [95]
        if k is True:
            return [84]
        if k is False:
            return [70]
        if isinstance(k, int):
            return int_tok(int(k))
        if isinstance(k, float):
            return dbl_tok(k)
        if isinstance(k, str):
            return str_tok(k)
        if isinstance(k, bytes):
            return [66, len(k), *k]
        for i, o in enumerate(self.objs):
            if o is k:
                return [94, i]
        self.objs.append(k)
        return [94, len(self.objs) - 1]

    def svz(self, k):
        """The token of the same-value-zero representative (numbers only differ)."""
        t = self.tok(k)
        if isinstance(k, float) and k == k and k not in (float("inf"), float("-inf")) \
                and k.is_integer():
            return int_tok(int(k))
        return t

    def real(self, t):
        for k, x in zip(self.keys, self.toks):
            if x == t:
                return fresh(k)
        raise AssertionError(t)


def keys_small():
    return [1, 1.0, True, "1", float("nan"), [1], [1], b"12", None]


def keys_many():
    d = datetime(2020, 1, 1)
    t = (1, 2)
    return [0, -0.0, 0.0, False, 1, 1.0, True, 2**53, float(2**53), 2**53 + 1, 2**64, float(2**64),
            2**1030, -(2**1030), float("inf"), float("-inf"), float("nan"), -float("nan"), 0.5, -1,
            -1.0, "", "0", "1", "a", "\u00e9", b"", b"a", b"1", b"abc", bytes(40), "a" * 40, None, JSUndefined,
            [], [], {}, {}, (), t, tuple([1, 2]), d, datetime(2020, 1, 1), JSObject(), JSObject(),
            JSArray(), JSMap(), JSSet(), JSSet(), set(), frozenset([1]), bytearray(b"a"),
            JSRegExp("a"), JSRegExp("a"), object(), float("nan") * 2, int("1"), "".join(["a"]), *NAMES]


# keys that could also be names of parameters
NAMES = ["self", "init", "other", "m", "map", "iterable", "kwds", "kwargs", "key", "value"]


def by_name(pairs):
    """As keyword arguments (when all keys are strings)."""
    return dict(pairs) if all(isinstance(k, str) for k, _ in pairs) else None


class KeysOnly:
    """The least that can be passed as a mapping."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


# The specification's values are numbers, which stand for these
VALUES = [None, 1, False, "", 0, [], 6, 7, 8, 9]


def value_of(v):
    return VALUES[v]


def value_tok(x):
    for i, v in enumerate(VALUES):
        if type(v) is type(x) and v == x:
            return i
    return -999


class Driver:
    def __init__(self, pool, kind):
        self.p = pool
        self.kind = kind
        self.o = JSMap() if kind == "map" else JSSet()

    def ks(self, xs):
        return ["keys", [self.p.svz(k) for k in xs]]

    def apply(self, op):
        return self.map(op) if self.kind == "map" else self.set(op)

    def run(self, f, ok):
        return model.outcome(f, ok=ok, errors=(KeyError,))

    def map(self, op):
        o, n, run = self.o, op[0], self.run
        k = self.p.real(op[1]) if len(op) > 1 else None
        val = lambda v: ["val", value_tok(v)]  # noqa: E731
        num = lambda v: ["val", v if isinstance(v, int) else -999]  # noqa: E731
        none = lambda _: ["none"]  # noqa: E731
        if n == "set":
            return run(lambda: o.__setitem__(k, value_of(op[2])), none)
        if n == "get":
            return run(lambda: o[k], val)
        if n == "getdef":
            return run(lambda: o.get(k, value_of(op[2])), val)
        if n == "getnone":
            return run(lambda: o.get(k), val)
        if n == "has":
            return run(lambda: k in o, lambda x: ["val", int(x)])
        if n == "del":
            return run(lambda: o.__delitem__(k), none)
        if n == "pop":
            return run(lambda: o.pop(k), val)
        if n == "popdef":
            return run(lambda: o.pop(k, value_of(op[2])), val)
        if n == "setdefault":
            return run(lambda: o.setdefault(k, value_of(op[2])), val)
        if n in ("update", "updatemap"):
            pairs = [(k, value_of(op[2])), (self.p.real(op[3]), value_of(op[4]))]
            kw = by_name(pairs)
            if kw is not None and len(o) % 3:
                if len(o) % 3 == 1:
                    return run(lambda: o.update(**kw), none)
                return run(lambda: o.update(iter([pairs[0]]), **dict([pairs[1]])), none)
            if n == "updatemap":
                other = JSMap(pairs)
                return run(lambda: o.update(KeysOnly(other) if len(o) % 2 else other), none)
            return run(lambda: o.update(iter(pairs)), none)
        if n == "popitem":
            return run(lambda: o.popitem(), lambda e: ["item", self.p.svz(e[0]), value_tok(e[1])])
        if n == "clear":
            return run(lambda: o.clear(), none)
        if n == "len":
            return run(lambda: len(o), num)
        if n == "keys":
            return run(lambda: list(o), self.ks)
        if n == "values":
            return run(lambda: list(o.values()), lambda x: ["values", [value_tok(v) for v in x]])
        if n == "copy":
            def copy():
                kw = by_name(list(self.o.items()))
                if kw is not None and len(self.o) % 2 == 0:
                    self.o = JSMap(**kw)
                    return
                self.o = JSMap([self.o.items(), self.o, KeysOnly(self.o)][len(self.o) % 3])
            return run(copy, none)
        raise AssertionError(op)

    def set(self, op):
        o, n, run = self.o, op[0], self.run
        none = lambda _: ["none"]  # noqa: E731
        num = lambda x: ["val", int(x)]  # noqa: E731
        k = self.p.real(op[1]) if len(op) == 2 else None
        if len(op) > 2:
            other = [self.p.real(t) for t in op[2]]
            if not n.endswith("l") or n == "le":
                other = JSSet(other)
        ks = lambda s: self.ks(s) if type(s) is JSSet else ["not a JSSet", repr(s)]  # noqa: E731
        simple = {"add": lambda: o.add(k), "discard": lambda: o.discard(k),
                  "remove": lambda: o.remove(k), "clear": lambda: o.clear()}
        if n in simple:
            return run(simple[n], none)
        if n == "has":
            return run(lambda: k in o, num)
        if n == "pop":
            return run(lambda: o.pop(), lambda x: ["item", self.p.svz(x), 1])
        if n == "len":
            return run(lambda: len(o), num)
        if n == "keys":
            return run(lambda: list(o), self.ks)
        if n == "copy":
            def copy():
                self.o = JSSet(self.o) if len(self.o) % 2 else JSSet(iter(list(self.o)))
            return run(copy, none)
        b = n.rstrip("l") if n not in ("le",) else n
        binops = {"or": lambda: o | other, "ror": lambda: other | o, "and": lambda: o & other,
                  "rand": lambda: other & o, "sub": lambda: o - other, "rsub": lambda: other - o,
                  "xor": lambda: o ^ other, "rxor": lambda: other ^ o}
        if b in binops:
            return run(binops[b], ks)
        cmps = {"le": lambda: o <= other, "lt": lambda: o < other, "ge": lambda: o >= other,
                "gt": lambda: o > other, "disjoint": lambda: o.isdisjoint(other)}
        if b in cmps:
            return run(cmps[b], num)

        def inplace():
            nonlocal o
            x = o if n.endswith("self") else other
            m = n[:4].replace("ior", "ior").rstrip("ls")
            if n.startswith("ior"):
                o |= x
            elif n.startswith("iand"):
                o &= x
            elif n.startswith("isub"):
                o -= x
            elif n.startswith("ixor"):
                o ^= x
            else:
                raise AssertionError(m)
            assert o is self.o
        return run(inplace, none)

    def observe(self):
        o = self.o
        if self.kind == "map":
            es = [[self.p.svz(k), value_tok(v)] for k, v in o.items()]
            bad = [k for k, v in o.items() if k not in o or o[k] != v]
        else:
            es = [[self.p.svz(k), 1] for k in o]
            bad = [k for k in o if k not in o]
        if bad or len(o) != len(es):
            return [["inconsistent"], repr(o)[:200]]
        return es


def history(r, kind):
    p = Pool(keys_many())
    d = Driver(p, kind)
    n = r.choice([4, 8, 20, 50])
    mine = r.sample(range(len(p.keys)), n)
    if r.random() < 0.5:      # keys that collide
        mine = [i for i in range(len(p.keys)) if i in mine or i < 14]
    elif kind == "map" and r.random() < 0.3:
        mine = [i for i, x in enumerate(p.keys) if isinstance(x, str)]
    steps = []
    for _ in range(r.choice([15, 50, 100])):
        k = lambda: p.toks[r.choice(mine)]  # noqa: E731
        if kind == "map":
            op = r.choice([["set", k(), r.randint(0, 9)], ["set", k(), r.randint(0, 9)],
                           ["setdefault", k(), r.randint(0, 9)], ["get", k()], ["has", k()],
                           ["getdef", k(), 5], ["del", k()], ["pop", k()], ["popdef", k(), 6],
                           ["update", k(), 1, k(), 2], ["updatemap", k(), 3, k(), 4], ["popitem"],
                           ["len"], ["keys"], ["values"], ["copy"], ["getnone", k()]])
        else:
            other = [k() for _ in range(r.randint(0, 6))]
            n = r.choice(["or", "and", "sub", "xor", "ior", "iand", "isub", "ixor"])
            op = r.choice([["add", k()], ["add", k()], ["add", k()], ["discard", k()],
                           ["remove", k()], ["has", k()], ["pop"], ["len"], ["keys"], ["copy"],
                           [n + r.choice(["", "l"]), [48], other],
                           [r.choice(["ror", "rand", "rsub", "rxor"]) + "l", [48], other],
                           ["ior", [48], other],
                           [r.choice(["le", "lt", "ge", "gt", "disjoint", "disjointl"]), [48], other]])
        res = d.apply(op)
        steps.append({"op": op, "r": res, "obs": [d.observe()] if r.random() < 0.5 else []})
        if res[0] in ("unexpected", "hang"):
            break
    return {"start": [], "steps": steps}


def run(c):
    rng = random.Random(f"M01-{c.seed}")
    for kind in ("map", "set"):
        p = Pool(keys_small())
        fd, path = tempfile.mkstemp(suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            f.write(json.dumps(p.toks) + "\n")
        os.environ["KEYS"] = path
        try:
            lines = model.explore(c, "MapSetMC", {"Bound": c.n(2, 3), "Kind": f'"{kind}"'},
                                  ["InvWellFormed", "InvKeys", "InvLaws"], mem="12g")
        finally:
            os.unlink(path)
        g = model.Graph(lines)
        c.count("model-transitions", len(g))
        model.replay(c, g, [[]], lambda s: Driver(p, kind), rng=rng, what=f"JS{kind}",
                     tour_steps=c.n(10000, 150000), observe=0.3)
        hs = [history(rng, kind) for _ in range(c.n(400, 6000))]
        c.sample({"history": [x["op"] for x in hs[0]["steps"][:4]]})
        model.judge(c, f"{kind.capitalize()}Trace", hs, what=f"JS{kind}-history",
                    invariants=["InvWellFormed"])
    # the key function itself, over all pairs of keys
    p = Pool(keys_many())
    for (i, a), (j, b) in itertools.product(enumerate(p.keys), repeat=2):
        c.evaluations += 1
        want = p.svz(a) == p.svz(b)
        x, y = same_value_zero(a), same_value_zero(b)
        if (x == y) != want or (want and hash(x) != hash(y)):
            c.violation("same_value_zero disagrees", {"a": repr(a), "b": repr(b), "same": want})
