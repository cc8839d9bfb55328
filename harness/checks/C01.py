"""C01: calls are independent of each other.

1. spec/Calls.tla: TLC enumerates every interleaving of two calls (in two
   threads, one after the other, or nested), step by step; each schedule is
   driven through real encoders and decoders, which pause in an encode or decode
   step, and the outcomes are compared.
2. spec/CallHist.tla: long histories of calls sharing encoders, decoders, steps,
   options and inputs, in one thread and in several, are judged against what
   each call gives in a fresh process.
"""
import hashlib
import json
import os
import random
import re
import sys
import threading

import absval
import gen_streams
import gen_values
import model
from common import MachineryError, write_trace
from v8serialize import (
    Decoder, Encoder, SerializationFeature, TagReader, default_decode_steps,
    default_encode_steps, dumps, loads,
)
from v8serialize.constants import SerializationTag as S
from v8serialize.decode import TagReaderRegistry
from v8serialize.jstypes import (
    JSArray, JSArrayBuffer, JSError, JSFloat16Array, JSMap, JSObject, JSRegExp,
)

F = SerializationFeature


# ---------------------------------------------------------------- schedules
class Turns:
    """Threads which run only when it is their turn, from pause to pause."""

    def __init__(self):
        self.me = threading.local()

    def pause(self):
        n = getattr(self.me, "n", None)
        if n is None:
            return
        self.main.release()
        if not self.go[n].acquire(timeout=20):
            raise RuntimeError("schedule abandoned")

    def run(self, works, hist):
        """Returns whether the schedule could be followed to the letter."""
        n = len(works)
        self.main = threading.Semaphore(0)
        self.go = [threading.Semaphore(0) for _ in works]
        live = set(range(n))

        def body(i):
            self.me.n = i
            self.pause()
            try:
                works[i]()
            finally:
                live.discard(i)
                self.main.release()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
            self.main.acquire()
        exact = True

        def turn(i):
            self.go[i].release()
            if not self.main.acquire(timeout=20):
                raise MachineryError("a call does not come back")
        for k in hist:
            if k - 1 in live:
                turn(k - 1)
            else:
                exact = False
        while live:
            exact = False
            turn(min(live))
        for t in ts:
            t.join(20)
        return exact


class Marker(JSObject):
    """An object on which the step makes another call."""

    act = ""


TURNS = Turns()
INNER = threading.local()
SHARED = {"a": JSObject(), "b": JSObject()}
REGEXP = bytes(dumps(JSRegExp("a")))[2:]


def build(pat):
    arr = JSArray()
    for i, e in enumerate(pat):
        if e in SHARED:
            v = SHARED[e]
        elif e in ("r", "R"):
            v = JSRegExp("a")
        elif e == "s":
            v = arr
        elif e == "!":
            v = object()
        else:
            v = Marker()
            v.act = e
        arr[i] = v
    return arr


def stream(pat):
    out = b"\xff\x0fA" + bytes([len(pat)])
    for e in pat:
        if e in "012":
            out += b"^" + bytes([int(e)])
        elif e == "!":
            out += b"w"
        elif e == "o":
            out += b"o{\0"
        else:
            out += {"(": b'o"\1(T{\1', "[": b'o"\1[T{\1'}[e]
    return out + b"$\0" + bytes([len(pat)])


def parse(b, n):
    """The references in the encoded array."""
    b = bytes(b)
    if b[:1] != b"\xff" or b[2:4] != b"A" + bytes([n]):
        return ["unexpected", b.hex()]
    p, out = 4, []
    for _ in range(n):
        if b[p:p + 1] == b"^":
            out.append(b[p + 1])
            p += 2
        elif b[p:p + 3] == b"o{\0":
            out.append(-1)
            p += 3
        elif b[p:].startswith(REGEXP):
            out.append(-1)
            p += len(REGEXP)
        else:
            return ["unexpected", b.hex()]
    return out if b[p:] == b"$\0" + bytes([n]) else ["unexpected", b.hex()]


def identities(arr, n):
    if not isinstance(arr, JSArray) or len(arr) != n:
        return ["unexpected", repr(arr)[:100]]
    seen, out = [arr], []
    for i in range(n):
        v = arr[i]
        k = next((j for j, x in enumerate(seen) if x is v), None)
        if k is None:
            k = len(seen)
            seen.append(v)
        out.append(k)
    return out


def attempt(f, n, read):
    try:
        v = f()
    except Exception as e:
        return {"ok": False, "out": [] if "V8Serialize" in type(e).__name__ else [repr(e)[:200]]}
    return {"ok": True, "out": read(v, n)}


class Rig:
    """Encoders and decoders with a step that pauses and makes inner calls."""

    def __init__(self, variant):
        def estep(value, /, ctx, next):
            TURNS.pause()
            if isinstance(value, Marker) and value.act:
                self.inner("enc", ["a", "a"] if value.act == "(" else ["a", "!"])
            return next(value)

        def dstep(tag, /, ctx, next):
            if getattr(INNER, "key", False) or tag is not S.kBeginDenseJSArray \
                    and tag not in (S.kBeginJSObject, S.kObjectReference, S.kWasmModuleTransfer):
                return next(tag)
            TURNS.pause()
            # an object with a property "(" or "[" is a marker
            pos = ctx.stream.pos
            data = bytes(ctx.stream.data[pos:pos + 3])
            if tag is S.kBeginJSObject and data in (b'"\1(', b'"\1['):
                self.inner("dec", ["o", "1"] if data[2:] == b"(" else ["o", "!"])
            return next(tag)
        self.esteps = [estep, *default_encode_steps]
        self.dsteps = [dstep, *default_decode_steps]
        own = [list(self.esteps), list(self.dsteps)]     # lists that change later
        self.encoder = Encoder(encode_steps=own[0] if variant else iter(own[0]))
        self.decoder = Decoder(decode_steps=own[1] if variant else iter(own[1]))
        if variant:
            for x in own:
                x.reverse()

    def one(self, d, pat, way):
        n = len(pat)
        if d == "enc":
            v = build(pat)
            f = {"shared": lambda: self.encoder.encode(v),
                 "function": lambda: dumps(v, encode_steps=self.esteps),
                 "own": lambda: Encoder(encode_steps=self.esteps).encode(v)}[way]
            return attempt(f, n, parse)
        b = stream(pat)
        f = {"shared": lambda: self.decoder.decodes(b),
             "function": lambda: loads(b, decode_steps=self.dsteps),
             "own": lambda: Decoder(decode_steps=self.dsteps).decodes(b)}[way]
        return attempt(f, n, identities)

    def inner(self, d, pat):
        INNER.log.append(self.one(d, pat, INNER.way))

    def outer(self, d, pat, way, into, i):
        INNER.log, INNER.way = [], way
        r = self.one(d, pat, way)
        into[i] = {**r, "inner": INNER.log}


PATTERNS = [["enc", ["a", "a"]], ["enc", ["(", "a"]], ["enc", ["r", "R"]], ["enc", ["a", "!"]],
            ["enc", ["[", "s"]], ["dec", ["o", "1"]], ["dec", ["o", "2"]], ["dec", ["[", "1"]],
            ["dec", ["("]], ["dec", ["o", "!"]], ["dec", ["0", "o"]]]
MORE = [*PATTERNS, ["enc", ["a", "b", "a"]], ["enc", ["b", "(", "b"]], ["dec", ["o", "o", "1"]],
        ["enc", ["r", "a", "R"]]]


def schedules(c, r):
    os.environ["KEYS"] = keys = write_trace([MORE if c.thorough else PATTERNS])
    try:
        lines = sorted(model.explore(c, "Calls", {"Calls": 2, "Shared": "FALSE"}, ["Right"]))
        three = []
        if c.thorough:
            os.unlink(keys)
            os.environ["KEYS"] = keys = write_trace([[["enc", ["a"]], ["dec", ["o"]],
                                                      ["enc", ["!"]]]])
            three = sorted(model.explore(c, "Calls", {"Calls": 3, "Shared": "FALSE"}, ["Right"]))
    finally:
        os.unlink(keys)
    c.count("schedules-enumerated", len(lines) + len(three))
    n = c.n(5000, 60000)
    if len(lines) > n:
        # all sequential ones, and a sample of the others
        seq = [x for x in lines if sequential(json.loads(x)["hist"])]
        lines = seq + r.sample(lines, n)
    rigs = [Rig(False), Rig(True)]
    for ln in lines + three[:c.n(0, 30000)]:
        d = json.loads(ln)
        n = len(d["job"])
        way = r.choice(["shared", "shared", "function", "own"])
        rig = r.choice(rigs)
        got = [None] * n
        works = [(lambda i=i, j=j: rig.outer(*j, way, got, i)) for i, j in enumerate(d["job"])]
        exact = TURNS.run(works, d["hist"])
        c.traces += 1
        c.count("schedules-run")
        if not exact:
            c.count("schedules-not-followed")
        check(c, d, got, way, "threads")
        if sequential(d["hist"]):
            order = list(dict.fromkeys(d["hist"]))
            got = [None] * n
            for k in order:
                rig.outer(*d["job"][k - 1], way, got, k - 1)
            c.traces += 1
            c.count("sequences-run")
            check(c, d, got, way, "one thread")


def sequential(hist):
    return sum(a != b for a, b in zip(hist, hist[1:])) < len(set(hist))


def check(c, d, got, way, where):
    if got == d["res"]:
        c.sample({"job": d["job"], "schedule": d["hist"], "way": way})
    else:
        c.violation("the outcome of a call depends on other calls",
                    {"calls": d["job"], "schedule": d["hist"], "way": way, "where": where,
                     "expected": d["res"], "got": got})


# ---------------------------------------------------------------- histories
def digest(x) -> str:
    return hashlib.sha1(json.dumps(x).encode()).hexdigest()[:12]


def tokens(v, mode):
    try:
        return absval.canon(v, mode)
    except absval.Unrepresentable as e:
        return [str(e)]


class Pool:
    """The calls that histories are made of; every call can be made again."""

    def __init__(self, c, r):
        self.calls = []     # (description, function, input reader)
        enc = [Encoder(), Encoder(features=F.CircularErrorCause | F.ResizableArrayBuffers),
               Encoder(encode_steps=iter(default_encode_steps))]
        self.other = JSArray([{"x": [1]}, JSObject(a=1)])

        def reenter(value, /, ctx, next):
            if isinstance(value, (JSObject, list)) and value is not self.other:
                bytes(enc[0].encode(self.other))
                loads(b'\xff\x0fo"\1ao{\0{\1')
            return next(value)

        def rereader(tag, /, ctx, next):
            if tag in (S.kBeginJSObject, S.kBeginJSMap, S.kObjectReference):
                dec[0].decodes(b'\xff\x0fo"\1ao{\0{\1')
                try:
                    loads(b"\xff\x0fA\3o{\0^\7", decode_steps=default_decode_steps)
                except Exception:
                    pass
            return next(tag)
        enc.append(Encoder(encode_steps=[reenter, *default_encode_steps]))
        const = {S.kUndefined: None}
        reg = TagReaderRegistry()
        reg.register(S.kTheHole, lambda reader, tag, ctx: "hole")

        def options():
            return [sorted((int(k), repr(v)) for k, v in const.items()), sorted(map(int, reg.index)),
                    tokens(self.other, "js")]
        self.options = digest(options())
        reader = TagReader(reg, js_constants=const)
        dec = [Decoder(), Decoder(decode_steps=iter([reader])),
               Decoder(decode_steps=[rereader, *default_decode_steps])]
        ways = [("dumps", dumps), ("dumps-all", lambda v: dumps(v, v8_version="12.1"))]
        ways += [(f"encoder-{i}", e.encode) for i, e in enumerate(enc)]
        values = [gen_values.graphs(r, c.n(60, 400))]
        vals = [v for v, _ in values[0]]
        bad = [[1, {"k": (2, object())}], JSObject(a=JSMap([(1, object)])), object()]
        shared = JSObject(x=1)
        vals += [JSArray([shared, x, shared]) for x in bad] + [[shared, shared]]
        for v in vals:
            for name, f in r.sample(ways, 2):
                self.add(f"{name} {gen_values.show(v)[:200]}", lambda f=f, v=v: f(v),
                         lambda v=v: tokens(v, "js"), bytes)
        lw = [("loads", loads), ("loads-const", lambda b: loads(b, js_constants=const)),
              ("loads-map", lambda b: loads(b, jsmap_type=dict)),
              ("loads-step", lambda b: loads(b, decode_steps=[reader]))]
        lw += [(f"decoder-{i}", d.decodes) for i, d in enumerate(dec)]
        streams = [b for b in gen_streams.wellformed(r, c.n(60, 400)) if len(b) < 400]
        streams = r.sample(streams, min(len(streams), c.n(120, 800)))
        streams += list(x for x in gen_streams.malformed(r, 60) if len(x) < 400)[-c.n(60, 300):]
        for b in streams:
            for name, f in r.sample(lw, 2):
                b2 = r.choice([bytes, bytearray, lambda x: memoryview(bytearray(x))])(b)
                self.add(f"{name} {b.hex()}", lambda f=f, b=b2: f(b), lambda b=b2: list(bytes(b)),
                         lambda v: tokens(v, "py"))
        self.alone(c, r, vals, streams, reader)
        self.add("options", lambda: None, options, lambda v: [])

    def alone(self, c, r, vals, streams, reader):
        """Calls which are only made one after the other: they first set the
        public attributes of an encoder or decoder that they share, or their
        steps use what steps of earlier calls kept."""
        first = len(self.calls)
        e, d, kept, dkept = Encoder(), Decoder(), [], []

        def note(value, /, ctx, next):
            return next("noted" if value == "note" else value)

        def keeper(value, /, ctx, next):
            act = value.act if isinstance(value, Marker) else ""
            if act in ("keep", "fail"):
                kept.append(ctx)
                del kept[:-6]
            if act == "fail":
                raise KeyError("kept")
            if act == "use":
                for x in kept:
                    try:
                        x.stream.write_bigint(3)
                        x.encode_object(JSObject(other=SHARED["a"]))
                        x.stream.features = F.MaxCompatibility
                    except Exception:
                        pass
            return next(value)

        def dkeeper(tag, /, ctx, next):
            if not any(x is ctx for x in dkept):
                for x in dkept:
                    try:
                        x.stream.objects.record_reference("other")
                        x.decode_object()
                    except Exception:
                        pass
                dkept.append(ctx)
                del dkept[:-6]
            return next(tag)
        ksteps = [keeper, *default_encode_steps]
        ke = Encoder(encode_steps=ksteps)
        kd = Decoder(decode_steps=[dkeeper, *default_decode_steps])
        err = JSError("e", cause=JSArray())
        err.cause[0] = err
        special = [JSArrayBuffer(b"ab", max_byte_length=5), err, ["note", "x"], 5,
                   JSArray([JSFloat16Array(JSArrayBuffer(b"abcd"))])]
        steps = [default_encode_steps, [note, *default_encode_steps], ()]
        feats = [F.MaxCompatibility, F.ResizableArrayBuffers, F.CircularErrorCause,
                 F.Float16Array, ~F.MaxCompatibility]
        for v in special + r.sample(vals, c.n(10, 60)):
            for k in range(3):
                def f(v=v, s=r.choice(steps[:2] if k else steps), x=r.choice(feats)):
                    e.encode_steps, e.features = s, x
                    return e.encode(v)
                self.add(f"attributes {k} {gen_values.show(v)[:200]}", f,
                         lambda v=v: tokens(v, "js"), bytes)
        dsteps = [default_decode_steps, [reader], []]
        for b in [b"\xff\x0f_", b"\xff\x0f-"] + r.sample(streams, c.n(10, 60)):
            for k in range(3):
                def f(b=b, s=dsteps[k]):
                    d.decode_steps = s
                    return d.decodes(b)
                self.add(f"attributes {k} {b.hex()}", f, lambda b=b: list(b),
                         lambda v: tokens(v, "py"))
        for pat in (["keep"], ["fail"], ["use"], ["use", "a", "a"], ["a", "use", "a"],
                    ["a", "fail"], ["use", "a", "keep"], ["a", "use", "b", "!"]):
            self.add(f"kept {pat}", lambda p=pat: ke.encode(build(p)), lambda: [], bytes)
            self.add(f"kept {pat} dumps", lambda p=pat: dumps(build(p), encode_steps=ksteps),
                     lambda: [], bytes)
        for b in r.sample(streams, c.n(10, 40)):
            self.add(f"kept {b.hex()}", lambda b=b: kd.decodes(b), lambda b=b: list(b),
                     lambda v: tokens(v, "py"))
        self.single = set(range(first, len(self.calls)))

    def add(self, name, f, inp, read):
        self.calls.append((name, f, inp, read))

    def run(self, i):
        """(digest of the outcome, the result object)"""
        _, f, _, read = self.calls[i]
        try:
            v = f()
        except Exception as e:
            text = re.sub(r"0x[0-9a-fA-F]+", "", str(e))[:200]
            return f"{type(e).__name__} {digest(text)}", None
        x = read(v)
        return digest(x.hex() if isinstance(x, bytes) else x), v

    def inp(self, i):
        return digest(self.calls[i][2]())


def fresh(pool, i):
    """The outcome of a call in a process which made no other call."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(wr, pool.run(i)[0].encode())
        finally:
            os._exit(0)
    os.close(wr)
    out = b""
    while True:
        x = os.read(rd, 65536)
        if not x:
            break
        out += x
    os.close(rd)
    os.waitpid(pid, 0)
    return out.decode()


def spoil(v):
    """Change a result as its owner may."""
    if isinstance(v, bytearray):
        del v[:]
    elif hasattr(v, "clear"):
        v.clear()


def record(pool, ids, r):
    steps = []

    def step(op, res):
        steps.append({"op": op, "r": res, "obs": []})
    for i in ids:
        res, v = pool.run(i)
        step(["call", i + 1], res)
        if r.random() < 0.5 and not isinstance(v, dict):
            try:
                spoil(v)
            except Exception:
                pass
            step(["spoil", i + 1], "done")
        if r.random() < 0.4:
            step(["input", i + 1], pool.inp(i))
    for i in set(ids):
        step(["input", i + 1], pool.inp(i))
    step(["input", len(pool.calls)], pool.inp(len(pool.calls) - 1))
    return {"start": 0, "steps": steps}


def histories(c, r, pool, ref, inp):
    n = len(pool.calls)
    c.count("distinct-calls", n)
    hists = []
    for _ in range(c.n(40, 300)):
        ids = [r.randrange(n) for _ in range(c.n(40, 80))]
        kind = r.random()
        if kind < 0.5:           # few calls, often
            few = r.sample(range(n), 4)
            if kind < 0.25:
                few += r.sample(sorted(pool.single), 6)
            ids = [r.choice(few) for _ in ids]
        hists.append(record(pool, ids, r))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(c.n(5, 40)):
            out = [None] * 4
            few = r.sample([i for i in range(n) if i not in pool.single], 12)

            def work(k, seed):
                rr = random.Random(seed)
                out[k] = record(pool, [rr.choice(few) for _ in range(c.n(60, 150))], rr)
            ts = [threading.Thread(target=work, args=(k, r.random()), daemon=True)
                  for k in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
            if None in out:
                c.violation("a thread making calls did not finish", {"calls": [pool.calls[i][0] for i in few]})
            hists += [h for h in out if h]
            c.count("threaded-histories", 4)
    finally:
        sys.setswitchinterval(old)
    os.environ["KEYS"] = path = write_trace([{"res": ref, "inp": inp}])
    try:
        model.judge(c, "CallHist", hists, what="calls",
                    meta=[{"calls": {str(s["op"][1]): pool.calls[s["op"][1] - 1][0]
                                     for s in h["steps"]}} for h in hists])
    finally:
        os.unlink(path)


def run(c):
    r = random.Random(f"C01-{c.seed}")
    pool = Pool(c, r)
    ref = [fresh(pool, i) for i in range(len(pool.calls))]
    inp = [pool.inp(i) for i in range(len(pool.calls))]
    inp[-1] = pool.options      # as they were before any use
    c.count("failing-calls", sum("Error" in x or "Exception" in x for x in ref))
    schedules(c, r)
    histories(c, r, pool, ref, inp)
