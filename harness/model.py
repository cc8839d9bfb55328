"""Conformance of the real code with a specified machine Apply(state, op).

explore(): TLC enumerates every transition of a bounded model.
replay():  every transition (and long tours through them) is executed on the
           real code and compared with the specification.
judge():   recorded histories of the real code are validated by TLC.
"""
from __future__ import annotations

import json
import os
import random
from collections import defaultdict, deque

import tlc
from common import MachineryError, call, write_trace


def key(s) -> str:
    return json.dumps(s, sort_keys=True)


class Graph:
    """The transitions of an explored model."""

    def __init__(self, lines):
        self.state: dict[str, object] = {}
        self.out: dict[str, list] = defaultdict(list)  # key -> [(op, r, key)]
        for ln in lines:
            d = json.loads(ln)
            a, b = key(d["s"]), key(d["t"])
            self.state.setdefault(a, d["s"])
            self.state.setdefault(b, d["t"])
            self.out[a].append((d["op"], d["r"], b))
        for k in self.out:  # TLC's workers print in any order
            self.out[k].sort(key=lambda e: json.dumps(e[0]))

    def __len__(self):
        return sum(map(len, self.out.values()))

    def paths(self, init):
        """Shortest path (list of (key, edge index)) to every state from init states."""
        p: dict[str, list] = {}
        q = deque()
        for s in init:
            k = key(s)
            if k in self.state and k not in p:
                p[k] = []
                q.append(k)
        while q:
            k = q.popleft()
            for i, (_, _, t) in enumerate(self.out[k]):
                if t not in p:
                    p[t] = [*p[k], (k, i)]
                    q.append(t)
        return p


def explore(c, module, consts=None, invariants=(), *, head="T", mem="6g", timeout=800, extra_cfg="",
            workers=8) -> list[str]:
    """Run the exploration module; return the JSON text of its printed records."""
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    if consts:
        cfg += "CONSTANTS\n" + "".join(f" {k} = {v}\n" for k, v in consts.items())
    for i in invariants:
        cfg += f"INVARIANT {i}\n"
    res = tlc.run(module, cfg_text=cfg + extra_cfg, mem=mem, timeout=timeout, workers=workers)
    c.tlc(res)
    out = []
    pre = f'"{head} '
    for ln in res.out.splitlines():
        if ln.startswith(pre) and ln.endswith('"'):
            out.append(json.loads(ln)[len(head) + 1:])
    return out


class Mismatch(Exception):
    pass


def replay(c, graph: Graph, init, new, *, rng: random.Random, what: str, tour_steps: int,
           observe=0.5, state_eq=None, each=True):
    """Drive real objects through every transition.

    new(state) gives a driver of a fresh real object in that (initial) state, with
      .apply(op) -> the result in the specification's form, .observe() -> state.
    """
    eq = state_eq or (lambda a, b: a == b)
    paths = graph.paths(init)
    if len(paths) != len(graph.state):
        raise MachineryError(f"{what}: {len(graph.state) - len(paths)} unreachable states")
    start_of = {}
    for k, p in paths.items():
        start_of[k] = p[0][0] if p else k

    def fail(hist, op, r, expected, observed, target):
        c.violation(f"{what}: the code does not follow the specification",
                    {"history": [h for h in hist[-40:]], "op": op, "expected": expected,
                     "observed": observed})

    # 1. each transition from a fresh object brought to its source state
    n = 0
    for k in sorted(graph.out) if each else ():
        for op, r, t in graph.out[k]:
            d = new(graph.state[start_of[k]])
            hist = []
            for (pk, pi) in paths[k]:
                d.apply(graph.out[pk][pi][0])
                hist.append(graph.out[pk][pi][0])
            got = d.apply(op)
            n += 1
            if got != r:
                fail(hist, op, r, r, got, t)
                continue
            o = d.observe()
            if not eq(o, graph.state[t]):
                fail(hist, op, r, graph.state[t], o, t)
    c.traces += n
    c.count(f"{what}-transitions-replayed", n)

    # 2. tours: long histories over untried transitions, with few observations
    steps = 0
    todo = {k: list(range(len(v))) for k, v in graph.out.items()}
    for v in todo.values():
        rng.shuffle(v)
    starts = [key(s) for s in init if key(s) in graph.state]
    while steps < tour_steps:
        k = rng.choice(starts)
        d = new(graph.state[k])
        hist = []
        c.traces += 1
        for _ in range(min(400, tour_steps)):
            if not graph.out[k]:
                break
            if todo.get(k) and rng.random() < 0.7:
                i = todo[k].pop()
            else:
                i = rng.randrange(len(graph.out[k]))
            op, r, t = graph.out[k][i]
            got = d.apply(op)
            hist.append(op)
            steps += 1
            k = t
            if got != r:
                fail(hist[:-1], op, r, r, got, t)
                break
            if rng.random() < observe:
                o = d.observe()
                if not eq(o, graph.state[t]):
                    fail(hist[:-1], op, r, graph.state[t], o, t)
                    break
    c.count(f"{what}-tour-steps", steps)


def judge(c, module, hists, *, what: str, consts=None, invariants=(), workers=8, mem="8g",
          meta=None):
    """TLC validates recorded histories [{"start", "steps": [{"op","r","obs"}]}]."""
    path = write_trace(hists)
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    cfg += "CONSTANTS\n Machine <- Apply\n"
    cfg += "".join(f" {k} = {v}\n" for k, v in (consts or {}).items())
    for i in invariants:
        cfg += f"INVARIANT {i}\n"
    try:
        res = tlc.run(module, cfg_text=cfg, env={"TRACE": path}, workers=workers, mem=mem)
    finally:
        os.unlink(path)
    c.tlc(res)
    seen = {}
    for ln in res.out.splitlines():
        if ln.startswith('"H ') and ln.endswith('"'):
            d = json.loads(json.loads(ln)[2:])
            seen[d["tid"]] = d
    if set(seen) != set(range(1, len(hists) + 1)):
        raise MachineryError(f"{what}: TLC judged {len(seen)} of {len(hists)} histories")
    for tid, d in sorted(seen.items()):
        h = hists[tid - 1]
        c.traces += 1
        c.count(f"{what}-history-steps", len(h["steps"]))
        if d["v"] == "amb":
            c.count(f"{what}-ambiguous")
        elif d["v"] != "ok":
            i = d["i"]
            c.violation(f"{what}: recorded history breaks the specification ({d['v']})",
                        {"start": h["start"], "history": [x["op"] for x in h["steps"][:i - 1]][-40:],
                         "step": h["steps"][i - 1], "expected": d["exp"],
                         **({"meta": meta[tid - 1]} if meta else {})})
    return seen


def outcome(f, *a, ok, errors=(), **k):
    """Run a call; ok(value) -> result, exceptions of the given kinds by name."""
    st, v = call(f, *a, **k)
    if st == "ok":
        return ok(v)
    if st == "hang":
        return ["hang"]
    for e in errors:
        if isinstance(v, e):
            return [e.__name__]
    return ["unexpected", f"{type(v).__name__}: {v}"[:100]]
