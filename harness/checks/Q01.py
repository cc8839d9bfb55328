"""Q01: equality of JS values is structural, terminates, and has no side effects."""
import json
import random
import re
import sys
import threading
import time
from datetime import datetime, timezone

import model
from common import call
from v8serialize.jstypes import (JSArray, JSError, JSErrorData, JSHole, JSMap, JSObject, JSPrimitiveObject, JSRegExp,
                                 JSSet, JSUndefined)


class Bomb:
    """A leaf that equals leaves of its token, or raises when it is armed."""
    armed = False

    def __init__(self, tok):
        self.tok = tok

    def __eq__(self, o):
        if Bomb.armed:
            raise Bomb.armed("bomb")
        return isinstance(o, Bomb) and o.tok == self.tok

    __hash__ = None


PRIMS = [lambda: "x" * 3, lambda: int("7"), lambda: 2**70, lambda: 1.5, lambda: None, lambda: JSUndefined,
         lambda: bytes([1, 2]), lambda: datetime(2020, 1, 2, tzinfo=timezone.utc), lambda: JSRegExp("a"),
         lambda: "", lambda: "aaa", lambda: int("8"), lambda: -2**70, lambda: datetime(2020, 1, 3, tzinfo=timezone.utc),
         lambda: JSPrimitiveObject("x"), lambda: ("t", 1), lambda: JSRegExp("b")]
NAMES = ["a", "b", "c", "d", "e", "f", "g", "h"]
KEYPRIMS = [3, "k", None, 4.5, b"q", JSUndefined, "l", 99]


class Kind:
    """A way to hold children in a JS value; new() makes it empty, fill() adds (label, child)s."""

    def __init__(self, name, family, new, fill, distinct=False, most=99, array=False):
        self.name, self.family, self.new, self.fill = name, family, new, fill
        self.distinct, self.most = distinct, most


def fill_names(o, kids, r):
    kids = list(kids)
    r.shuffle(kids)                 # the order of properties is not part of equality
    for i, v in kids:
        o[NAMES[i]] = v


def fill_index(o, kids, r):
    kids = list(kids)
    r.shuffle(kids)
    for i, v in kids:
        o[i] = v


def fill_mixed(o, kids, r):
    kids = list(kids)
    r.shuffle(kids)
    for i, v in kids:
        o[NAMES[i] if i % 2 else i] = v


def fill_arr(o, kids, r):
    if r.random() < .3:             # sparse storage
        o[100000] = 1
        del o[100000]
        o.array.resize(0)
    for i, v in kids:
        o[i] = v


def fill_sparse(o, kids, r):
    for i, v in kids:
        o[i * 50 + 3] = v
    o.array.resize(5000)


def fill_arrprops(o, kids, r):
    kids = list(kids)
    r.shuffle(kids)
    for i, v in kids:
        if i == 0:
            o[0] = v
        else:
            o[NAMES[i]] = v


def fill_mapvals(o, kids, r):
    for i, v in kids:
        o[KEYPRIMS[i]] = v


def fill_mapkeys(o, kids, r):
    for i, v in kids:
        o[v] = i


def fill_mapboth(o, kids, r):
    kids = [v for _, v in kids]
    for i in range(0, len(kids) - 1, 2):
        o[kids[i]] = kids[i + 1]
    if len(kids) % 2:
        o[kids[-1]] = "odd"


def fill_set(o, kids, r):
    for i, v in kids:
        o.add(v)


def fill_err(o, kids, r):
    kids = [v for _, v in kids]
    o.message += str(len(kids))     # no cause and a cause of None are the same
    if len(kids) == 1:
        o.cause = kids[0]
    elif kids:
        o.cause = list(kids)


def fill_err2(o, kids, r):
    o.message = f"{len(kids)}"
    if kids:
        o.cause = {"x": [v for _, v in kids]}


KINDS = [
    Kind("obj-names", "obj", JSObject, fill_names), Kind("obj-index", "obj", JSObject, fill_index),
    Kind("obj-mixed", "obj", JSObject, fill_mixed), Kind("arr", "arr", JSArray, fill_arr),
    Kind("arr-sparse", "arr", JSArray, fill_sparse), Kind("arr-props", "arr", JSArray, fill_arrprops),
    Kind("map-vals", "map", JSMap, fill_mapvals), Kind("map-keys", "map", JSMap, fill_mapkeys, distinct=True),
    Kind("map-both", "map", JSMap, fill_mapboth, distinct=True), Kind("set", "set", JSSet, fill_set, distinct=True),
    Kind("err", "err", lambda: JSErrorData("m"), fill_err), Kind("exc", "err", lambda: JSError("m"), fill_err),
    Kind("err2", "err", lambda: JSErrorData(""), fill_err2),
]
WRAPS = [lambda v: v, lambda v: v, lambda v: v, lambda v: [v], lambda v: {"w": v}, lambda v: (1, v), lambda v: [[v], 2]]


def build(g, kinds, wrap, prims, r, bombs=False):
    """g: [[kind, [[label, child]...]]...]; kinds: token -> Kind."""
    nodes = [kinds[k].new() for k, _ in g]
    for (k, kids), o in zip(g, nodes):
        out = []
        for i, (_, ch) in enumerate(kids):
            if ch > 0:
                v = nodes[ch - 1]
                if not kinds[k].distinct:
                    v = wrap(v)
            elif bombs and not kinds[k].distinct:
                v = Bomb(ch)
            else:
                v = prims[-ch]()
            out.append((i, v))
        kinds[k].fill(o, out, r)
    return nodes


def usable(g, kinds):
    for k, kids in g:
        ch = [c for _, c in kids]
        if kinds[k].distinct and len(set(ch)) < len(ch):
            return False
    return True


def compare(x, y, r):
    """1 / 0 by == or != ; else what happened."""
    try:
        if r.random() < .3:
            st, v = call(lambda: x != y)
            v = not v if type(v) is bool else v
        else:
            st, v = call(lambda: x == y)
    except (KeyboardInterrupt, SystemExit, GeneratorExit) as e:
        if not Bomb.armed:
            raise
        st, v = "err", e
    if st == "ok" and type(v) is bool:
        return int(v)
    return repr((st, v))[:200]


def choose(r, g, n):
    for _ in range(200):
        fams = r.sample(["obj", "arr", "map", "set", "err"], n) if n <= 5 else None
        kinds = {i + 1: r.choice([k for k in KINDS if k.family == f]) for i, f in enumerate(fams)}
        if usable(g, kinds):
            return kinds
    return {1: KINDS[0], 2: KINDS[3], 3: KINDS[6], 4: KINDS[10], 5: KINDS[9]}


# ---------------------------------------------------------------- enumerated graphs
def enumerated(c, r):
    inv = ["Reflexive", "Symmetric", "SameStructureIsEqual", "DifferentIsUnequal"]
    runs = [dict(N=3, Kinds=2, Prims=1, Labels=2), dict(N=4, Kinds=1, Prims=2, Labels=1)]
    if c.thorough:
        runs += [dict(N=4, Kinds=1, Prims=0, Labels=2), dict(N=5, Kinds=1, Prims=2, Labels=1),
                 dict(N=2, Kinds=2, Prims=2, Labels=3)]
    for consts in runs:
        lines = sorted(model.explore(c, "EqualityMC", consts, inv, mem="12g"))
        c.count("graphs", len(lines))
        for ln in lines:
            shape, m = json.loads(ln)
            g = [[k, [[i, ch] for i, ch in enumerate(kids)]] for k, kids in shape]
            kinds = choose(r, g, 2)
            ps = r.sample(PRIMS, 2)
            wrap = r.choice(WRAPS)
            nodes = build(g, kinds, wrap, ps, r)
            c.traces += 1
            n = len(nodes)
            order = [(x, y) for x in range(n) for y in range(n)]
            r.shuffle(order)
            for x, y in order:
                got = compare(nodes[x], nodes[y], r)
                if got != m[x][y]:
                    c.violation("== is not structural equality",
                                {"graph": shape, "kinds": {k: v.name for k, v in kinds.items()}, "wrap": WRAPS.index(wrap),
                                 "x": x + 1, "y": y + 1, "expected": m[x][y], "got": got})
        c.sample({"graph": shape, "matrix": m, "kinds": {k: v.name for k, v in kinds.items()}})


# ---------------------------------------------------------------- recorded histories
def random_graph(r):
    n = r.randint(1, 4)
    nk = r.randint(1, 3)
    def kids(n):
        return [[i, r.randint(1, n) if r.random() < .75 else -r.randint(0, 3)] for i in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
    g = [[r.randint(1, nk), kids(n)] for _ in range(n)]
    while len(g) < 9 and r.random() < .85:
        base = len(g)
        how = r.random()
        if how < .6:                # a copy of it all, perhaps with one thing changed
            if base > 5:
                break
            cp = [[k, [[i, ch + base if ch > 0 and r.random() < .93 else ch] for i, ch in ks]] for k, ks in g]
            if r.random() < .6:
                node = r.choice(cp)
                x = r.random()
                if x < .5 and node[1]:
                    node[1][r.randrange(len(node[1]))][1] = r.choice([r.randint(1, 2 * base), -r.randint(0, 3)])
                elif x < .7:
                    node[0] = r.randint(1, nk)
                elif x < .85 and node[1]:
                    node[1].pop()
                elif len(node[1]) < 5:
                    node[1].append([len(node[1]), r.randint(1, 2 * base)])
            g += cp
        else:                       # another node like one of them
            k, ks = r.choice(g)
            g.append([k, [[i, r.randint(1, base + 1) if r.random() < .3 else ch] for i, ch in ks]])
    return g


def histories(c, r):
    hists, meta = [], []
    t0 = time.time()
    n = c.n(2500, 30000)
    while len(hists) < n:
        g = random_graph(r)
        kinds = choose(r, g, 3)
        if not usable(g, kinds):
            continue
        bombs = r.random() < .3
        nodes = build(g, kinds, r.choice(WRAPS), r.sample(PRIMS, 4), r, bombs)
        steps = []
        pairs = [(x, y) for x in range(len(g)) for y in range(len(g))]
        for _ in range(min(c.n(10, 20), len(pairs))):
            x, y = r.choice(pairs)
            raised = 0
            if bombs and r.random() < .5:
                Bomb.armed = r.choice([RuntimeError, RuntimeError, KeyboardInterrupt, SystemExit, GeneratorExit])
                got = compare(nodes[x], nodes[y], r)
                Bomb.armed = False
                if isinstance(got, str) and "bomb" in got:
                    raised, got = 1, 9
                    c.count("comparisons-raised")
            else:
                got = compare(nodes[x], nodes[y], r)
            steps.append({"op": {"x": x + 1, "y": y + 1, "raised": raised}, "r": got if isinstance(got, int) else 7, "obs": []})
            if isinstance(got, str):
                c.violation("== fails", {"graph": g, "kinds": {k: v.name for k, v in kinds.items()}, "x": x + 1, "y": y + 1, "got": got})
        hists.append({"start": g, "steps": steps})
        meta.append({"kinds": {k: v.name for k, v in kinds.items()}})
    c.count("equal", sum(s["r"] == 1 for h in hists for s in h["steps"]))
    model.judge(c, "EqualityTrace", hists, what="equality", meta=meta)


# ---------------------------------------------------------------- failing comparisons
def limits(c, r):
    """A comparison that runs out of stack at any point leaves later ones unaffected."""
    def chain(cls, n):
        x = cls()
        for _ in range(n):
            y = cls()
            if cls is JSSet:
                y.add(x)
            elif cls is JSMap:
                y["n"] = x
            elif cls is JSArray:
                y[0] = x
            else:
                y["n"] = x
            x = y
        return x

    def err_chain(n):
        x = JSErrorData("m")
        for _ in range(n):
            x = JSErrorData("m", cause=x)
        return x
    for make in [lambda n: chain(JSObject, n), lambda n: chain(JSArray, n), lambda n: chain(JSMap, n),
                 lambda n: chain(JSSet, n), err_chain]:
        a, b, d = make(12), make(12), make(11)
        old = sys.getrecursionlimit()
        depth = 0
        f = sys._getframe()
        while f:
            depth += 1
            f = f.f_back
        raised = 0
        for lim in range(depth + 3, depth + 3 + c.n(90, 160)):
            out = []
            for x, y in ((a, b), (b, a), (a, d)):
                try:
                    sys.setrecursionlimit(lim)
                    try:
                        v = x == y
                    finally:
                        sys.setrecursionlimit(old)
                except RecursionError:
                    v = "raised"
                    raised += 1
                out.append(v)
            after = [a == b, b == a, a == d, a == a, d != b]
            c.traces += 1
            if out[0] not in (True, "raised") or out[1] not in (True, "raised") or out[2] not in (False, "raised") \
                    or after != [True, True, False, True, True]:
                c.violation("a comparison that ran out of stack affects later ones",
                            {"class": type(a).__name__, "limit-over-depth": lim - depth, "outcomes": repr(out), "after": repr(after)})
        c.count("stack-exhausted", raised)


# ---------------------------------------------------------------- threads
class Sched:
    """Lets threads pass gates in a given order (as far as they follow it)."""

    def __init__(self, order, n):
        self.order = list(order)
        self.alive = set(range(1, n + 1))
        self.cv = threading.Condition()
        self.who = threading.local()
        self.late = 0

    def trim(self):
        while self.order and self.order[0] not in self.alive:
            self.order.pop(0)

    def gate(self):
        me = getattr(self.who, "n", None)
        if me is None:
            return
        with self.cv:
            self.trim()
            if not self.cv.wait_for(lambda: (self.trim(), not self.order or me not in self.order or self.order[0] == me)[1], 5):
                self.late += 1
            if self.order and self.order[0] == me:
                self.order.pop(0)
            self.cv.notify_all()

    def done(self):
        with self.cv:
            self.alive.discard(self.who.n)
            self.cv.notify_all()


class Gate:
    sched = None

    def __eq__(self, o):
        if Gate.sched:
            Gate.sched.gate()
        return isinstance(o, Gate)

    __hash__ = None


def gated(g, fam):
    nodes = [{"obj": JSObject, "arr": JSArray, "map": JSMap, "set": JSSet, "err": lambda: JSErrorData("m")}[fam]() for _ in g]
    for kids, o in zip(g, nodes):
        vs = [Gate()] + [nodes[k - 1] if k > 0 else "prim" for k in kids]
        for i, v in enumerate(vs):
            if fam == "obj":
                o[NAMES[i]] = v
            elif fam == "arr":
                o[i] = v
            elif fam == "map":
                o[KEYPRIMS[i]] = v
            elif fam == "set":
                o.add(v)
        if fam == "err":
            o.cause = vs
    return nodes


def threads(c, r):
    lines = sorted(model.explore(c, "EqThreads", {"Threads": 2, "Shared": "FALSE"}, ["Right"]))
    three = []
    if c.thorough:
        three = sorted(model.explore(c, "EqThreads", {"Threads": 3, "Shared": "FALSE"}, ["Right"]))
        three = r.sample(three, 4000)
    ran = 0
    for ln in [x for x in lines] + three:
        d = json.loads(ln)
        if len(d["hist"]) < 2:
            continue
        fams = ["obj", "arr", "map", "set", "err"]
        for fam in (fams if c.thorough else r.sample(fams, 2)):
            if fam == "set" and any(len(set(k)) < len(k) for k in d["g"]):
                continue
            nodes = gated(d["g"], fam)
            n = len(d["job"])
            s = Sched(d["hist"], n)
            got = [None] * n

            def work(i):
                s.who.n = i + 1
                try:
                    x, y = d["job"][i]
                    got[i] = repr(nodes[x - 1] == nodes[y - 1])
                except BaseException as e:  # noqa: B036
                    got[i] = repr(e)
                finally:
                    s.done()
            Gate.sched = s
            ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(20)
            Gate.sched = None
            ran += 1
            c.traces += 1
            if s.late:
                c.count("schedules-not-followed")
            want = [repr(x == "yes") for x in d["res"]]
            after = [repr(nodes[x - 1] == nodes[y - 1]) for x, y in d["job"]]
            if got != want or after != want:
                c.violation("a comparison depends on other threads", {"graph": d["g"], "kind": fam, "jobs": d["job"],
                            "schedule": d["hist"], "expected": want, "got": got, "afterwards": after})
    c.count("schedules", ran)
    # unscheduled, with frequent switches
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(c.n(6, 60)):
            g = random_graph(r)
            kinds = choose(r, g, 3)
            if not usable(g, kinds):
                continue
            nodes = build(g, kinds, WRAPS[0], r.sample(PRIMS, 4), r)
            pairs = [(x, y) for x in range(len(g)) for y in range(len(g))]
            want = [nodes[x] == nodes[y] for x, y in pairs]
            bad = []

            def work2(k):
                try:
                    for _ in range(10):
                        for (x, y), w in zip(pairs, want):
                            v = nodes[x] == nodes[y]
                            if v != w:
                                bad.append((x, y, v))
                except Exception as e:
                    bad.append(repr(e))
            ts = [threading.Thread(target=work2, args=(k,), daemon=True) for k in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
            c.traces += 1
            if bad:
                c.violation("a comparison depends on other threads", {"graph": g, "kinds": {k: v.name for k, v in kinds.items()}, "wrong": repr(bad[:5])})
    finally:
        sys.setswitchinterval(old)


def run(c):
    r = random.Random(c.seed * 6007 + 5)
    limits(c, r)
    enumerated(c, r)
    histories(c, r)
    threads(c, r)
