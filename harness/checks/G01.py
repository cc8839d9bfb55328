"""G01: what repr() of JS values shows, and the scopes of its settings."""
import array
import ast
import json
import random
import re
import threading
import warnings
from collections import deque

import model
from common import call
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSError, JSErrorData, JSHole, JSMap, JSObject, JSSet,
                                 default_js_repr, js_repr_settings)

JSRepr = type(default_js_repr)


# ------------------------------------------------------------------ contents
class Leaf:
    gate = None     # called while the leaf is shown

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        if Leaf.gate is not None:
            Leaf.gate(self)
        return f"⟨{self.text}⟩"


class Stop(BaseException):
    pass


def tokenize(text, fill):
    pat = re.compile("|".join([
        r"(?P<bytes>b'(?:[^'\\…]|\\.)*…?'|b\"(?:[^\"\\…]|\\.)*…?\")", r"(?P<head>JS\w+)(?=\()",
        r"(?P<leaf>⟨[^⟩]*⟩)", r"(?P<fill>" + re.escape(fill) + r"|\.\.\.)", r"(?P<hole>JSHole)",
        r"(?P<name>n\d+[-_]\d+)", r"(?<![\w⟨.])(?P<index>\d+)(?=: )", r"(?P<mem><released memory)"]))
    out = []
    for m in pat.finditer(text):
        k, t = m.lastgroup, m.group()
        if k == "bytes":
            cut = "…" in t
            out += [f"x{b:02x}" for b in ast.literal_eval(t.replace("…", ""))] + (["~"] if cut else [])
        elif k == "fill":
            out.append("~")
        else:
            out.append(t)
    return out


ARR = ("arr", "sparse", "arr2", "arr2n", "sparse2", "sparse2n")
PY = ("list", "tuple", "deque", "dict")
BAGS = ["obj", "objn", "obji", "arr", "sparse", "list", "tuple", "deque", "set", "myobj", "myarr", "myset"]
TWOS = ["obj2", "obj2n", "arr2", "arr2n", "sparse2", "sparse2n"]
KINDS = {"bag": BAGS, "two": TWOS, "map": ["map", "mymapk"], "mapv": ["mapv", "mymap", "dict"],
         "chain": ["err", "myerr"], "fresh": ["errdata"]}
LIMIT = {"list": "maxlist", "tuple": "maxtuple", "deque": "maxdeque", "dict": "maxdict", "set": "maxset",
         "mapv": "maxdict", "map": "maxdict", **{a: "maxjsarray" for a in ARR}, "myarr": "maxjsarray",
         "mymap": "maxdict", "mymapk": "maxdict", "myset": "maxset"}
LIMITS = ["maxjsobject", "maxjsarray", "maxlist", "maxtuple", "maxdeque", "maxdict", "maxset"]


def limit(kind):
    return LIMIT.get(kind, "maxjsobject")


class MyObj(JSObject):
    pass


class MyArr(JSArray):
    pass


class MyMap(JSMap):
    pass


class MySet(JSSet):
    pass


class MyErr(JSError):
    pass


NEW = {"list": list, "deque": deque, "dict": dict, "set": JSSet, "map": JSMap, "mapv": JSMap, "err": JSError,
       "errdata": JSErrorData, "arr": JSArray, "sparse": JSArray, "arr2": JSArray, "arr2n": JSArray,
       "sparse2": JSArray, "sparse2n": JSArray, "myobj": MyObj, "myarr": MyArr, "mymap": MyMap, "mymapk": MyMap,
       "myset": MySet, "myerr": MyErr}
HEAD = {"set": "JSSet", "map": "JSMap", "mapv": "JSMap", "err": "JSError", "errdata": "JSErrorData",
        **{a: "JSArray" for a in ARR}, "myobj": "JSObject", "myarr": "JSArray", "mymap": "JSMap",
        "mymapk": "JSMap", "myset": "JSSet", "myerr": "JSError", **{p: "" for p in PY}}


class Unbuildable(Exception):
    pass


def build(kinds, kids, texts, split=None):
    """Real objects of the graph; texts(n, i) is the text of leaf i of node n.

    split says how many children of a node of two parts are elements of its array (1 if not said).

    Returns the objects, and the text of N<n>.<i> and H<n>."""
    objs, names = {}, {}
    split = split or {}
    for n, k in kinds.items():
        if k != "tuple":
            o = NEW.get(k, JSObject)()
            if k.startswith("sparse"):
                o[100000] = 1
                del o[100000]
                o.array.resize(3)
            objs[n] = o

    def get(n, i, c):
        if c == "hole":
            return JSHole
        return Leaf(texts(n, i)) if c == 0 else objs[c]

    for n, k in kinds.items():
        if k == "tuple":
            if any(c in kinds and kinds[c] == "tuple" for c in kids[n]):
                raise Unbuildable
            objs[n] = tuple(get(n, i, c) for i, c in enumerate(kids[n], 1))
    for n, k in kinds.items():
        names[f"H{n}"] = HEAD.get(k, "JSObject")
        o = objs[n]
        base = {"myobj": "obj", "myarr": "arr", "mymap": "mapv", "mymapk": "map", "myset": "set",
                "myerr": "err"}.get(k, k)
        ks = [(i, get(n, i, c)) for i, c in enumerate(kids[n], 1)]
        if base in ("set", "map") and len({id(v) for _, v in ks}) < len(ks):
            raise Unbuildable
        if k == "errdata" and any(kinds.get(c) in PY for c in kids[n]):
            raise Unbuildable      # shown by Python itself
        if base in ("err", "errdata"):
            o.message = f"⟨{n}.m⟩"
            names[f"N{n}.0"] = f"⟨{n}.m⟩"
            for _, v in ks:
                o.cause = v
        for i, v in ks:
            nm, idx = f"n{n}_{i}", False
            if base in ("objn",):
                nm = f"n{n}-{i}"
            if base in ("obj2n", "arr2n", "sparse2n") and i == split.get(n, 1) + 1:
                nm = f"n{n}-{i}"
            if base in ("obj", "objn", "dict", "mapv"):
                o[nm] = v
            elif base == "obji":
                o[i * 3] = v
                nm = str(i * 3)
            elif base in ("arr", "list", "deque", "set", "tuple"):
                if base == "arr":
                    o[i - 1] = v
                elif base == "set":
                    o.add(v)
                elif base != "tuple":
                    o.append(v)
                nm = None
            elif base == "sparse":
                o[i * 10000] = v
                nm = str(i * 10000)
            elif base == "map":
                o[v] = Leaf(f"v{n}.{i}")
                nm = f"⟨v{n}.{i}⟩"
            elif base in TWOS:
                if i <= split.get(n, 1):
                    at = 30000 * i if base.startswith("sparse") else i - 1
                    if v is not JSHole:
                        o[at] = v
                    nm = None if base.startswith("arr") else str(at)
                else:
                    o[nm] = v
            elif base in ("err", "errdata"):
                continue
            names[f"N{n}.{i}"] = nm
            names[f"I{n}.{i}"] = idx
    return objs, names


def settings(r, fields, level):
    """The settings, made in several ways."""
    fill = r.choice(["...", "⟪~⟫", "…"])
    kw = dict(maxother=10**6, maxstring=10**6, maxlong=10**6, maxlevel=level, fillvalue=fill,
              indent=r.choice([None, None, 0, 2]), **fields)
    return (js_repr_settings(JSRepr(**kw)) if r.random() < .3 else js_repr_settings(**kw)), fill


def shown(o, cm, fill):
    with cm:
        st, v = call(repr, o, secs=10)
    if st == "ok":
        return tokenize(v, fill), v
    return [f"!{st} {v!r}"], None


def small(c):
    """TLC enumerates small graphs and limits; each is built from real values and shown."""
    spec = []
    for shapes, nodes, kids in (c.n([({"bag", "two", "chain"}, 2, 2), ({"map", "mapv", "fresh"}, 2, 2)],
                                    [({"bag", "two", "chain"}, 2, 3), ({"map", "fresh", "mapv"}, 2, 3),
                                     ({"bag", "fresh"}, 3, 2), ({"bag", "map"}, 3, 2)])):
        spec.append((shapes, nodes, kids))
    r = random.Random(c.seed)
    for shapes, nodes, maxkids in spec:
        consts = {"Nodes": nodes, "MaxKids": maxkids, "Shapes": "{" + ",".join(f'"{s}"' for s in sorted(shapes)) + "}",
                  "Levels": c.n("{1, 2, 5}", "{1, 2, 3, 9}") if nodes == 2 else "{2, 4}",
                  "Limits": "{0, 1, 9}" if nodes == 2 else "{1, 9}"}
        lines = model.explore(c, "ReprMC", consts, ["All"], head="G", mem="8g")
        lines.sort()
        if len(lines) > c.n(20000, 400000):
            c.count("small-graphs-not-replayed", len(lines) - c.n(20000, 400000))
            lines = r.sample(lines, c.n(20000, 400000))
        for ln in lines:
            d = json.loads(ln)
            g = d["g"]
            for _ in range(8):
                kinds = {n: r.choice(KINDS[p["shape"]]) for n, p in enumerate(g, 1)}
                if kinds[1] in PY:
                    continue
                kids = {n: p["kids"] for n, p in enumerate(g, 1)}
                try:
                    objs, names = build(kinds, kids, lambda n, i: f"L{n}.{i}")
                except Unbuildable:
                    continue
                break
            else:
                c.count("small-graphs-unbuildable")
                continue
            exp = []
            for t in d["t"]:
                if t[0] in "HN":
                    t = names[t]
                elif t[0] == "L":
                    t = f"⟨{t}⟩"
                if t:
                    exp.append(t)
            cm, fill = settings(r, {f: d["lim"] for f in LIMITS}, d["lvl"])
            got, text = shown(objs[1], cm, fill)
            c.traces += 1
            c.count("small-graphs-replayed")
            if got != exp:
                c.violation("repr does not show what the value holds",
                            {"kinds": kinds, "kids": kids, "limit": d["lim"], "level": d["lvl"], "shown": text or got,
                             "expected": exp, "observed": got})


def buffers(r, n, maxstring):
    """A value of bytes, and its node."""
    data = bytes(r.choice([0, 39, 34, 92, 65, 66, 255, 10]) for _ in range(r.choice([0, 1, 2, 3, 4, 8, 16])))
    form = r.choice(["ab", "abro", "abkeep", "abmv", "abI", "abrel", "abstrided", "b", "ba", "mv", "mvro", "mvI", "mv2",
                     "mvstrided", "abmax"])
    head = "JSArrayBuffer" if form.startswith("ab") else ""
    src = bytearray(data)
    wide = array.array("H", [0] * (len(data) // 2))
    memoryview(wide).cast("B")[:] = data[:len(data) // 2 * 2]
    if form in ("abI", "mvI"):
        data = data[:len(data) // 2 * 2]
    two = bytearray(b for x in data for b in (x, 7))
    if form == "mv2" and len(data) < 4:
        form = "mv"
    if form == "mv2":
        data = data[:len(data) // 2 * 2]
    o = {"ab": lambda: JSArrayBuffer(data), "abro": lambda: JSArrayBuffer(data, readonly=True),
         "abkeep": lambda: JSArrayBuffer(src, copy_data=False), "abmv": lambda: JSArrayBuffer(memoryview(src), copy_data=False),
         "abI": lambda: JSArrayBuffer(memoryview(wide), copy_data=False),
         "abrel": lambda: released(src),
         "abstrided": lambda: JSArrayBuffer(memoryview(two)[::2], copy_data=False),
         "b": lambda: data, "ba": lambda: src, "mv": lambda: memoryview(src), "mvro": lambda: memoryview(bytes(data)),
         "mvI": lambda: memoryview(wide), "mv2": lambda: memoryview(data).cast("B", (2, len(data) // 2)),
         "mvstrided": lambda: memoryview(two)[::2],
         "abmax": lambda: JSArrayBuffer(data, max_byte_length=len(data) + r.randrange(9))}[form]()
    if form == "abrel":
        return o, {"head": head, "max": -1, "fresh": False, "parts": [[[{"k": "t", "v": "<released memory"}]]]}
    return o, {"head": head, "max": maxstring, "fresh": False,
               "parts": [[[{"k": "t", "v": f"x{b:02x}"}] for b in data]]}


def released(src):
    b = JSArrayBuffer(memoryview(src), copy_data=False)
    b.close()
    return b


def big(c, r, byts):
    """A random graph of real values, as nodes of the specification."""
    N = r.choice([1, 2, 3, 5, 8, 12])
    limits = {f: r.choice([0, 1, 2, 3, 5, 100]) for f in LIMITS} if r.random() < .6 else {f: 100 for f in LIMITS}
    level = r.choice([1, 2, 3, 4, 6, 20])
    if N > 5:
        level = min(level, 6)
    maxstring = r.choice([0, 1, 2, 5, 100]) if byts else 10**6
    kinds, kids = {}, {}
    for n in range(1, N + 1):
        pool = ["obj", "objn", "obji", "arr", "sparse", "obj2", "obj2n", "arr2", "arr2n", "sparse2", "sparse2n"]
        if not byts:
            pool += ["list", "tuple", "deque", "dict", "set", "mapv", "map", "err", "errdata", "myobj", "myarr", "mymap",
                     "mymapk", "myset", "myerr"]
        k = kinds[n] = r.choice(pool)
        if n == 1 and k in PY:
            k = kinds[n] = "arr"
        most = 1 if k in ("err", "errdata", "myerr") else r.choice([0, 1, 2, 3, 6])
        fanout = min(most, 2 if N > 5 else 6)
        ks = [r.choice([0, 0, r.randint(1, N)]) for _ in range(r.randint(0, fanout))]
        if k in ("arr", "list", "myarr") and r.random() < .3:
            ks = [r.choice([x, "hole"]) if x == 0 else x for x in ks]
            if k != "list" and all(x == "hole" for x in ks):
                ks = []                     # holes are no elements
            while k != "list" and ks and ks[-1] == "hole":
                ks.pop()
        kids[n] = ks
    for n in kinds:                         # no tuples of tuples, nor what Python itself shows
        if kinds[n] == "tuple":
            kids[n] = [x for x in kids[n] if kinds.get(x) != "tuple"]
        if kinds[n] == "errdata":
            kids[n] = [x for x in kids[n] if kinds.get(x) not in PY]
        if kinds[n] in ("set", "map", "mymapk", "myset"):
            kids[n] = [x for j, x in enumerate(kids[n]) if x == 0 or x not in kids[n][:j]]
    split = {}
    for n, k in kinds.items():
        if k in TWOS:
            s = split[n] = r.choice([1, 1, 2, 3])
            if k.startswith("arr"):
                for j in range(min(s, len(kids[n])) - 1):
                    if kids[n][j] == 0 and r.random() < .5:
                        kids[n][j] = "hole"
    objs, names = build(kinds, kids, lambda n, i: f"L{n}.{i}", split)
    nodes = []
    for n, k in kinds.items():
        ents = []
        base = {"mymapk": "map", "myerr": "err"}.get(k, k)
        if base in ("err", "errdata"):
            ents.append([{"k": "l" if base == "err" else "t", "v": f"⟨{n}.m⟩"}])
            if base == "err":
                if r.random() < .3:
                    objs[n].name = f"⟨{n}.name⟩"
                    ents.append([{"k": "l", "v": f"⟨{n}.name⟩"}])
                if r.random() < .3:
                    objs[n].stack = f"⟨{n}.stack⟩"
                    ents.append([{"k": "l", "v": f"⟨{n}.stack⟩"}])
        for i, x in enumerate(kids[n], 1):
            e = []
            nm = names.get(f"N{n}.{i}")
            kid = {"k": "l", "v": "JSHole" if x == "hole" else f"⟨L{n}.{i}⟩"} if x in (0, "hole") else {"k": "n", "v": x}
            if base == "map":
                e = [kid, {"k": "l", "v": nm}]
            elif base in ("mapv", "dict", "mymap"):
                e = [{"k": "l", "v": nm}, kid]
            else:
                e = ([{"k": "t", "v": nm}] if nm else []) + [kid]
            ents.append(e)
        cut = split.get(n, 1)
        parts = [ents[:cut], ents[cut:]] if k in TWOS else [ents]
        nodes.append({"head": names[f"H{n}"], "max": -1 if base in ("err", "errdata") else limits[limit(k)],
                      "fresh": k == "errdata", "parts": parts})
    if byts:
        for n in list(kinds):
            for _ in range(r.randint(0, 2)):
                o, nd = buffers(r, n, maxstring)
                nodes.append(nd)
                nm = f"n{n}_{len(nodes) + 100}"
                objs[n][nm] = o
                e = [{"k": "t", "v": nm}, {"k": "n", "v": len(nodes)}]
                if kinds[n] in TWOS:
                    nodes[n - 1]["parts"][1].append(e)
                elif kinds[n] in ("obji", "sparse", "arr"):
                    if len(nodes[n - 1]["parts"]) == 1:
                        nodes[n - 1]["parts"].append([])
                    nodes[n - 1]["parts"][1].append(e)
                else:
                    nodes[n - 1]["parts"][0].append(e)
    return objs, nodes, {**limits, "maxstring": maxstring}, level, kinds


def graphs(c):
    """Random larger graphs: what is shown is judged by TLC."""
    r = random.Random(c.seed * 7 + 1)
    hists, meta = [], []
    for it in range(c.n(2500, 30000)):
        byts = it % 4 == 0
        objs, nodes, lims, level, kinds = big(c, r, byts)
        steps = []
        kw = dict(lims)
        ms = kw.pop("maxstring")
        roots = [n for n in objs if kinds[n] not in PY and (kinds[n] != "errdata" or ms > 999)]
        for n in [1] + r.sample(roots, min(2, len(roots))):
            if n not in roots:
                continue
            cm, fill = settings(r, kw, level)
            with cm, js_repr_settings(maxstring=ms):
                mode = r.random()
                if mode < .15:
                    stopped(r, objs[n])
                if mode > .85:
                    st, v = beside(r, objs[n])
                else:
                    st, v = call(repr, objs[n])
            got = tokenize(v, fill) if st == "ok" else [f"!{st} {v!r}"]
            steps.append({"op": {"o": "repr", "n": n, "level": level}, "r": got, "obs": []})
            meta_txt = v if st == "ok" else repr(v)
        hists.append({"start": nodes, "steps": steps})
        meta.append({"shown": meta_txt[:2000], "kinds": kinds, "limits": lims})
    judge_reprs(c, hists, meta)


def judge_reprs(c, hists, meta):
    model.judge(c, "ReprTrace", hists, what="repr of a graph", meta=meta)


def stopped(r, o):
    """A repr that is interrupted leaves nothing behind."""
    at = r.randint(1, 5)
    seen = [0]

    def gate(_):
        seen[0] += 1
        if seen[0] == at:
            raise Stop

    Leaf.gate = gate
    try:
        repr(o)
    except Stop:
        pass
    finally:
        Leaf.gate = None


def beside(r, o):
    """The repr made while another thread is in the middle of showing the same value."""
    inside, go = threading.Event(), threading.Event()
    me = threading.get_ident()
    first = []

    def gate(_):
        if threading.get_ident() != me and not first:
            first.append(1)
            inside.set()
            go.wait(10)

    Leaf.gate = gate
    try:
        t = threading.Thread(target=repr, args=(o,), daemon=True)
        t.start()
        while t.is_alive() and not inside.wait(.001):
            pass
        return call(repr, o)
    finally:
        go.set()
        t.join(10)
        Leaf.gate = None


# -------------------------------------------------------------------- scopes
class Dot:
    def __repr__(self):
        return "·"


class Other:
    def __repr__(self):
        return "y" * 400


def chain(n):
    a = JSArray([])
    for _ in range(n):
        a = JSArray([a])
    return a


BIG = 150
PROBES = {
    "maxjsobject": (JSObject({f"k{i}": Dot() for i in range(BIG)}), lambda t: t.count("·")),
    "maxjsarray": (JSArray([Dot() for _ in range(BIG)]), lambda t: t.count("·")),
    "maxtuple": (JSObject(a=tuple(Dot() for _ in range(BIG))), lambda t: t.count("·")),
    "maxlist": (JSObject(a=[Dot() for _ in range(BIG)]), lambda t: t.count("·")),
    "maxarray": (JSObject(a=array.array("B", [7]) * BIG), lambda t: t.count("7")),
    "maxdict": (JSMap([(Dot(), i) for i in range(BIG)]), lambda t: t.count("·")),
    "maxset": (JSSet([Dot() for i in range(BIG)]), lambda t: t.count("·")),
    "maxfrozenset": (JSObject(a=frozenset(Dot() for i in range(BIG))), lambda t: t.count("·")),
    "maxdeque": (JSObject(a=deque(Dot() for i in range(BIG))), lambda t: t.count("·")),
    "maxstring": (JSObject(a=b"x" * 400), lambda t: t.count("x")),
    "maxlong": (JSObject(a=7 * (10**200 - 1) // 9), lambda t: t.count("7") + 3),
    "maxother": (JSObject(a=Other()), lambda t: t.count("y") + 3),
    "maxlevel": (chain(60), lambda t: t.count("JSArray(")),
    "fillvalue": (chain(60), lambda t: t[t.rindex("JSArray([") + 9:t.index("]")].strip().rstrip(",")),
    "indent": (JSArray([Dot()]), lambda t: "none" if "\n" not in t else len(t.split("\n")[1]) - len(t.split("\n")[1].lstrip())),
}


def effective(show, fields=tuple(PROBES)):
    out = {}
    for f in fields:
        o, measure = PROBES[f]
        st, v = call(show, o)
        try:
            out[f] = str(measure(v)) if st == "ok" else f"!{st} {v!r}"
        except Exception as e:
            out[f] = f"!{e!r} {v[:40]}"
    return out


class Scopes:
    """Real scopes of settings; fields: names in the specification -> (field, value of a text)."""
    live = None

    def __init__(self, names, value):
        if Scopes.live is not None:
            Scopes.live.close()
        Scopes.live = self
        self.names, self.value = names, value
        self.base = js_repr_settings(default_js_repr, force_restore=True)
        self.insts = [self.base.__enter__()]
        self.cms = []

    def close(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for cm in reversed([c for c in self.cms if c]):
                cm.__exit__(None, None, None)
            self.base.__exit__(None, None, None)
        Scopes.live = None

    def kwargs(self, ov):
        return {self.names.get(f, f): (self.value(f, v[0]) if v else None) for f, v in (ov or {}).items()}

    def text(self, eff):
        return {n: self.back(n, eff[f]) for n, f in self.names.items()}

    def back(self, n, v):
        return v

    def apply(self, op):
        k = op["o"]
        if k == "new":
            kw = {f: (None if v == "none" else v if f == "fillvalue" else int(v)) for f, v in op["base"].items()}
            st, v = call(JSRepr, **{**kw, **self.kwargs(op["ov"])})
            self.insts.append(v)
            return ["ok"] if st == "ok" else [repr(v)]
        if k in ("enter", "use"):
            force = {"force_restore": op["force"]} if op["force"] else {}
            cm = (js_repr_settings(**self.kwargs(op["ov"]), **force) if k == "enter"
                  else js_repr_settings(self.insts[op["inst"] - 1], **force))
            st, v = call(cm.__enter__)
            if st != "ok":
                return [type(v).__name__]
            self.cms.append(cm)
            if k == "enter":
                self.insts.append(v)
            elif v is not self.insts[op["inst"] - 1]:
                return ["another settings object"]
            return ["ok"]
        if k == "leave":
            cm = self.cms[op["scope"] - 1]
            self.cms[op["scope"] - 1] = None
            e = ValueError("boom")
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    x = cm.__exit__(type(e), e, None) if op["fail"] else cm.__exit__(None, None, None)
                    how = "swallowed" if x else "propagated" if op["fail"] else "ok"
                except BaseException as e2:
                    how = "propagated" if e2 is e else repr(e2)
            warned = [w for w in ws if w.category.__name__ == "JSReprSettingsNotRestored"]
            if len(warned) > 1 or len(ws) != len(warned):
                return ["warnings", *[str(w.category) for w in ws]]
            return ["warned" if warned else "restored", how]
        if k == "probe":
            return self.text(effective(repr, tuple(self.names.values())))
        return self.text(effective(self.insts[op["inst"] - 1].repr, tuple(self.names.values())))

    def observe(self):
        return {"active": self.apply({"o": "probe"}),
                "insts": [self.apply({"o": "probeown", "inst": i + 1}) for i in range(len(self.insts))]}


# what can be measured of each field besides its default
VALUES = {f: ("4", "7", "60", "11") for f in PROBES}
VALUES["fillvalue"] = ("~", "<more>", "…", "--")
VALUES["maxlevel"] = ("5", "9", "33", "7")
VALUES["indent"] = ("none", "1", "4", "3")


def scopes(c):
    r = random.Random(c.seed)
    lines = model.explore(c, "ReprScopeMC", {"Scopes": c.n(2, 3), "Values": '{"1"}' if c.thorough else '{"1", "2"}',
                                             "Rich": "FALSE" if c.thorough else "TRUE"}, ["Nested"])
    g = model.Graph(lines)
    default = effective(default_js_repr.repr)
    fields = [f for f in PROBES if f != "indent"]
    init = [s for s in g.state.values() if not s["scopes"] and s["active"] == 1 and len(s["insts"]) == 2]
    pairs = [(f, fields[(i + 4) % len(fields)]) for i, f in enumerate(fields)]
    r.shuffle(pairs)
    for round_, (x, y) in enumerate(pairs):
        names = {"x": x, "y": y, "indent": "indent"}

        def conc(n, t):
            f = names.get(n, n)
            if n == "indent":
                return None if t == "none" else int(t)
            if n not in names:
                return 5
            v = default[f] if t == "0" else VALUES[f]["1298".index(t)]
            return v if f == "fillvalue" else int(v)

        class D(Scopes):
            def __init__(self, s):
                super().__init__(names, conc)
                st, v = call(JSRepr, **{**{f: (None if default[f] == "none" else default[f] if f == "fillvalue" else int(default[f]))
                                           for f in PROBES},
                                        x: conc("x", "9"), y: conc("y", "8"), "indent": 1})
                self.insts.append(v)

            def back(self, n, v):
                if n == "indent":
                    return v
                table = {str(conc(n, t)): t for t in ("0", "1", "2", "9", "8")}
                return table.get(v, "?" + v)

        def eq(o, s):
            return o["insts"] == s["insts"] and o["active"] == s["insts"][s["active"] - 1]

        model.replay(c, g, init, D, rng=r, what="settings-scopes", tour_steps=c.n(60, 1500), state_eq=eq,
                     each=round_ < 1)
    if Scopes.live:
        Scopes.live.close()
    hists = []
    for it in range(c.n(150, 2500)):
        names = {f: f for f in PROBES}
        d = Scopes(names, lambda f, v: None if v == "none" else v if f == "fillvalue" else int(v))
        steps, opened, n_inst = [], [], 1

        def do(op):
            res = d.apply(op)
            steps.append({"op": op, "r": res, "obs": []})
            return res

        for _ in range(r.choice([4, 8, 16])):
            q = r.random()
            if q < .4 or not opened:
                fs = r.sample(sorted(PROBES), r.choice([0, 1, 1, 2, 4, 15]))
                ov = {f: ([] if r.random() < .15 else [r.choice([v for v in VALUES[f] if v != "none"])]) for f in fs}
                if r.random() < .1:
                    ov[r.choice(["maxmap", "maxjsset", "zz"])] = ["3"]
                if r.random() < .2:
                    base = {f: v for f, v in default.items()}
                    ov = {f: v for f, v in ov.items() if v and f in PROBES}
                    do({"o": "new", "base": base, "ov": ov})
                    n_inst += 1
                else:
                    if do({"o": "enter", "ov": ov, "force": r.random() < .3}) == ["ok"]:
                        n_inst += 1
                        opened.append(len(d.cms))
            elif q < .5:
                if do({"o": "use", "inst": r.randint(1, n_inst), "force": r.random() < .3}) == ["ok"]:
                    opened.append(len(d.cms))
            elif q < .85:
                k = opened.pop(-1 if r.random() < .6 else r.randrange(len(opened)))
                do({"o": "leave", "scope": k, "fail": r.random() < .4})
            elif q < .95:
                do({"o": "probe"})
            else:
                do({"o": "probeown", "inst": r.randint(1, n_inst)})
        do({"o": "probe"})
        while opened:
            do({"o": "leave", "scope": opened.pop(), "fail": r.random() < .4})
        do({"o": "probe"})
        hists.append({"start": {"active": 1, "insts": [default], "scopes": []}, "steps": steps})
        d.close()
    model.judge(c, "ReprTrace", hists, what="settings-scopes")
    # the documented defaults
    doc = {"maxjsobject": "100", "maxjsarray": "100", "maxlevel": "20", "maxstring": "200", "maxlist": "100",
           "maxdict": "100", "maxset": "100"}
    for f, v in doc.items():
        if default[f] != v:
            c.count("defaults-differ")


def deep(c):
    """Values deeper than any limit, and long cycles, with the settings in force by default."""
    r = random.Random(c.seed)
    hists, meta = [], []
    for n in (1, 2, 19, 20, 21, 22, 60, c.n(400, 3000)):
        for cyc in (False, True):
            for mk in ("obj", "arr", "map", "set", "err", "mix"):
                ks = ["obj", "arr", "map", "set", "err"] if mk == "mix" else [mk]
                kinds = {i: ks[i % len(ks)] for i in range(1, n + 1)}
                kids = {i: [i + 1] if i < n else ([r.randint(1, n)] if cyc else [0]) for i in kinds}
                objs, names = build(kinds, kids, lambda n, i: f"L{n}.{i}")
                st, v = call(repr, objs[1])
                level = 20
                nodes = []
                for i, k in kinds.items():
                    x = kids[i][0]
                    kid = {"k": "l", "v": f"⟨L{i}.1⟩"} if x == 0 else {"k": "n", "v": x}
                    nm = names.get(f"N{i}.1")
                    if k == "err":
                        ents = [[{"k": "l", "v": f"⟨{i}.m⟩"}], [kid]]
                    elif k == "map":
                        ents = [[kid, {"k": "l", "v": nm}]]
                    else:
                        ents = [([{"k": "t", "v": nm}] if nm else []) + [kid]]
                    nodes.append({"head": names[f"H{i}"], "max": 100, "fresh": False, "parts": [ents]})
                hists.append({"start": nodes[:30], "steps": [{"op": {"o": "repr", "n": 1, "level": level},
                                                              "r": tokenize(v, "...") if st == "ok" else [f"!{st} {v!r}"],
                                                              "obs": []}]})
                meta.append({"kinds": mk, "n": n, "cyclic": cyc})
    judge_reprs(c, hists, meta)


def run(c):
    small(c)
    graphs(c)
    scopes(c)
    deep(c)
    c.assumptions += [
        "reprs are judged as the sequence of names, leaves, type names and elisions shown, not by their layout",
        "types with a repr of their own (JSErrorData, views) are shown without the limits of the containers around them",
        "a settings object used in two scopes that are left out of order is not judged",
    ]
