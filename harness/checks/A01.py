"""A01: dense and sparse arrays are one machine, JavaScript's array model."""
import random

import model
from v8serialize.jstypes import JSArray, JSHole, JSObject, JSUndefined
from v8serialize.jstypes.jsarrayproperties import (
    MAX_ARRAY_LENGTH, DenseArrayProperties, SparseArrayProperties,
)
from v8serialize._typing import Order

SMALL = 1 << 29
TOP = 1 << 30          # the model's MaxLen


def real(i: int) -> int:
    """Model index -> real index (the model's MaxLen stands for 2**32-1)."""
    if i < 0:
        return -real(-i)
    return i if i < SMALL else i - TOP + MAX_ARRAY_LENGTH


def unreal(i: int) -> int:
    return i if i < SMALL else i - MAX_ARRAY_LENGTH + TOP


VALUES = [[None, "a", "b", "c"], [None, JSUndefined, None, False], [None, "", 0, [1]],
          [None, float("inf"), -1, ()]]


class KeysOnly:
    """The least that can be passed as a mapping."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


class Driver:
    ERR = (IndexError, ValueError, KeyError)

    def __init__(self, storage, values, state=None):
        self.vals = values
        els = {real(i): self.v(x) for i, x in (state or {}).get("el", [])}
        n = real((state or {"len": 0})["len"])
        if storage == "dense":
            self.a = DenseArrayProperties([els.get(i, JSHole) for i in range(n)])
        elif storage == "sparse-values":
            self.a = SparseArrayProperties([els.get(i, JSHole) for i in range(n)])
        elif storage == "jsarray":
            self.o = JSArray([els.get(i, JSHole) for i in range(n)])
            self.a = self.o.array
        else:
            self.a = SparseArrayProperties(entries=els.items(), length=n)

    def v(self, x):
        return JSHole if x == 0 else self.vals[x]

    def w(self, v):
        if v is JSHole:
            return 0
        for i, x in enumerate(self.vals):
            if i and x is v:
                return i
        return -999

    def apply(self, op):
        a, n = self.a, op[0]
        none = lambda _: ["none"]  # noqa: E731
        val = lambda x: ["val", self.w(x)]  # noqa: E731
        num = lambda x: ["val", unreal(int(x))]  # noqa: E731
        seq = lambda xs: ["seq", *xs]  # noqa: E731
        i = real(op[1]) if len(op) > 1 else None

        def run(f, ok):
            return model.outcome(f, ok=ok, errors=self.ERR)
        if n == "get":
            return run(lambda: a[i], val)
        if n == "set":
            return run(lambda: a.__setitem__(i, self.v(op[2])), none)
        if n == "del":
            return run(lambda: a.__delitem__(i), none)
        if n == "insert":
            return run(lambda: a.insert(i, self.v(op[2])), none)
        if n == "append":
            return run(lambda: a.append(self.v(op[1])), none)
        if n == "iadd":
            def iadd():
                self.a += [self.v(op[1])]
            return run(iadd, none)
        if n == "extend":
            xs = [self.v(op[1]), self.v(op[2])]
            return run(lambda: a.extend(iter(xs)), none)
        if n == "extendself":
            return run(lambda: a.extend(a), none)
        if n == "pop":
            return run(lambda: a.pop(), val)
        if n == "popat":
            return run(lambda: a.pop(i), val)
        if n == "remove":
            return run(lambda: a.remove(self.v(op[1])), none)
        if n == "reverse":
            return run(lambda: a.reverse(), none)
        if n == "clear":
            return run(lambda: a.clear(), none)
        if n == "resize":
            return run(lambda: a.resize(i), none)
        if n == "index":
            return run(lambda: a.index(self.v(op[1])), num)
        if n == "indexin":
            return run(lambda: a.index(self.v(op[1]), real(op[2]), real(op[3])), num)
        if n == "contains":
            return run(lambda: self.v(op[1]) in a, num)
        if n == "count":
            return run(lambda: a.count(self.v(op[1])), num)
        if n == "len":
            return run(lambda: len(a), num)
        if n == "used":
            return run(lambda: (a.elements_used, len(a.elements())),
                       lambda x: ["val", x[0]] if x[0] == x[1] else ["val", -999])
        if n == "elget":
            return run(lambda: a.elements()[i], val)
        if n == "asc":
            return run(lambda: list(a.element_indexes()), lambda x: seq(map(unreal, x)))
        if n == "desc":
            return run(lambda: list(a.elements(order=Order.DESCENDING)),
                       lambda x: seq(map(unreal, x)))
        if n == "iter":
            return run(lambda: list(a), lambda x: seq(map(self.w, x)))
        if n == "riter":
            return run(lambda: list(reversed(a)), lambda x: seq(map(self.w, x)))
        if n == "densify":
            self.a = DenseArrayProperties(a)
        elif n == "sparsify":
            self.a = SparseArrayProperties(a)
        elif n == "sparsifyentries":
            e = a.elements()
            form = [e, e.items(), iter(list(e.items())), KeysOnly(e)][len(a) % 4]
            self.a = SparseArrayProperties(entries=form, length=len(a))
        else:
            raise AssertionError(op)
        return ["none"]

    def observe(self):
        a = self.a
        el = [[unreal(i), self.w(x)] for i, x in a.elements().items()]
        n = len(a)
        ok = a.elements_used == len(el) and \
            sorted(a.element_indexes(order=Order.UNORDERED)) == [real(i) for i, _ in el]
        if n < 200:
            ok = ok and [self.w(x) for x in a] == [dict(map(tuple, el)).get(i, 0) for i in range(n)]
            # equality between the storages
            same = [x for x in a]
            for cls in (DenseArrayProperties, SparseArrayProperties):
                ok = ok and a == cls(same) and cls(same) == a
                if n:
                    ok = ok and a != cls(same[:-1]) and a != cls([*same, JSHole])
                    diff = list(same)
                    diff[-1] = "different" if diff[-1] is JSHole else JSHole
                    ok = ok and a != cls(diff) and cls(diff) != a
        return {"len": unreal(n), "el": el} if ok else {"inconsistent": repr(a)[:300]}


def history(r: random.Random, big: bool):
    """A random history on one storage, with real results."""
    vals = r.choice(VALUES)
    n0 = r.choice([0, 1, 3, 7, 20])
    start = {"len": n0, "el": [[i, r.randint(1, 3)] for i in range(n0) if r.random() < 0.6]}
    storage = "sparse" if big else r.choice(["dense", "sparse", "sparse-values", "jsarray"])
    d = Driver(storage, vals, start)
    steps = []
    is_big = False
    weights = [r.random() for _ in range(3)]
    for _ in range(r.choice([20, 60, 120])):
        n = len(d.a)
        is_big = n > 120
        un = unreal(n)
        ix = lambda: r.choice([0, 1, -1, un - 1, un, un + 1, -un, -un - 1, un // 2 if un < SMALL else un - 2,  # noqa: E731
                               r.randint(-30, 30)])
        v = lambda: r.randint(0, 3)  # noqa: E731
        k = r.random() * sum(weights)
        if k < weights[0]:
            op = r.choice([["set", ix(), v()], ["append", v()], ["insert", ix(), v()],
                           ["set", ix(), v()], ["iadd", v()], ["extend", v(), v()]])
        elif k < weights[0] + weights[1]:
            op = r.choice([["del", ix()], ["popat", ix()], ["pop"], ["set", ix(), 0],
                           ["resize", r.choice([max(0, un + r.randint(-9, 9)),
                                                r.randint(0, 40)])]])
            if not is_big and r.random() < 0.2:
                op = r.choice([["reverse"], ["remove", v()], ["clear"]])
            if big and r.random() < 0.3:
                op = ["resize", r.choice([-1, 0, 17, 1000, 10**6, TOP - 2, TOP - 1, TOP, TOP + 1])]
        else:
            op = r.choice([["get", ix()], ["elget", ix()], ["len"], ["used"], ["asc"], ["desc"]])
            if not is_big:
                op = r.choice([op, ["iter"], ["riter"], ["index", v()], ["contains", v()],
                               ["count", v()], ["indexin", v(), r.randint(-5, 9), r.randint(-5, 20)],
                               ["sparsify"], ["sparsifyentries"],
                               ["sparsify" if big else "densify"]])
                if n < 30:
                    op = r.choice([op, op, op, ["extendself"]])
        if op[0] == "extend" and un >= TOP - 2:  # which part is added is not defined
            continue
        res = d.apply(op)
        obs = [d.observe()] if r.random() < 0.4 else []
        steps.append({"op": op, "r": res, "obs": obs})
        if res[0] in ("unexpected", "hang"):
            break
    return {"start": start, "steps": steps}


def run(c):
    rng = random.Random(f"A01-{c.seed}")
    g = model.Graph(model.explore(
        c, "ArrayPropsMC", {"MaxLen": 100, "Bound": c.n(3, 5), "Vals": "{1, 2}" if not c.thorough else "{1, 2}"},
        ["InvWellFormed", "InvLaws"]))
    c.count("model-transitions", len(g))
    empty = {"len": 0, "el": []}
    for storage in ("dense", "sparse"):
        for vals in VALUES[:c.n(2, 4)]:
            model.replay(c, g, [empty], lambda s: Driver(storage, vals, s), rng=rng,
                         what=f"array-{storage}", tour_steps=c.n(12000, 150000), observe=0.3)
    hs = [history(rng, i % 3 == 0) for i in range(c.n(400, 6000))]
    c.sample({"history": hs[1]["steps"][:5]})
    model.judge(c, "ArrayPropsTrace", hs, what="array-history", consts={"MaxLen": TOP},
                invariants=["InvWellFormed"])
    objects(c, rng)


def objects(c, rng):
    """Switching storages inside JSObject/JSArray loses nothing."""
    for _ in range(c.n(300, 4000)):
        o = rng.choice([JSObject, JSArray])()
        ref = {}
        n = 0
        for _ in range(rng.randint(1, 30)):
            k = rng.choice([0, 1, 2, 3, 14, 15, 16, 17, 40, 63, 64, 100, rng.randint(0, 70)])
            if rng.random() < 0.75:
                o[k] = x = rng.randint(0, 99)
                ref[k] = x
                n = max(n, k + 1)
            elif k in ref:
                del o[k]
                del ref[k]
            c.evaluations += 1
            if dict(o.array.elements().items()) != ref or len(o.array) != n \
                    or list(o) != sorted(ref):
                c.violation("an object's array lost elements", {"expected": ref, "len": n,
                                                                "observed": repr(o)[:500]})
                return
    c.count("object-switch-histories", c.n(300, 4000))
