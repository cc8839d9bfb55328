"""Shared machinery of the checks: reporting, safe calls, trace batches."""
from __future__ import annotations

import json
import os
import re
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
EVID = VERIF / "evidence"
KNOWN = VERIF / "known_findings.json"


class Hang(BaseException):
    """A call into the library did not return in time."""


def _alarm(*_):
    raise Hang()


class timeout:
    """Bound the time of calls into the library (main thread only)."""

    def __init__(self, seconds: float = 10):
        self.s = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)


def call(f, *a, secs: float = 10, **k):
    """("ok", value) | ("err", exception) | ("hang", None)"""
    try:
        with timeout(secs):
            return "ok", f(*a, **k)
    except Hang:
        return "hang", None
    except Exception as e:
        return "err", e


def from_library(e: BaseException) -> bool:
    return any(REPO_SRC in (fr.filename or "") for fr in traceback.extract_tb(e.__traceback__))


class Check:
    """One run of the check of one property."""

    def __init__(self, prop: str, tier: str, seed: int, level: str):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples: list = []
        self.counts: dict[str, int] = {}
        self.extra: dict = {}
        self.assumptions: list[str] = []
        self.violations: list[dict] = []
        self.known_hits: dict[str, int] = {}
        try:
            kf = json.loads(KNOWN.read_text())
        except FileNotFoundError:
            kf = {"findings": []}
        self.known = [k for k in kf["findings"] if k["property"] == prop]

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def n(self, quick: int, thorough: int) -> int:
        return thorough if self.thorough else quick

    def left(self, budget: float) -> float:
        return budget - (time.time() - self.t0)

    def count(self, key: str, n: int = 1) -> None:
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, s) -> None:
        if len(self.samples) < 12:
            self.samples.append(s)

    def tlc(self, res) -> None:
        self.states += res.states
        self.transitions += res.transitions

    def violation(self, what: str, detail, key: str | None = None) -> None:
        """Report a violation (key: identity of the failing input for known findings)."""
        if key is not None:
            for k in self.known:
                if k["key"] == key:
                    self.known_hits[key] = self.known_hits.get(key, 0) + 1
                    return
        self.violations.append({"what": what, "detail": detail})

    def finish(self) -> int:
        EVID.mkdir(exist_ok=True)
        for k in self.known:
            if self.known_hits.get(k["key"]):
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov: dict = {}
        if self.level == "model_checking":
            cov = {"states": self.states, "transitions": self.transitions,
                   "traces_validated_against_impl": self.traces, "samples": self.samples}
        else:
            cov = {"evaluations": self.evaluations, "distinct_nontrivial": self.traces,
                   "rule": self.extra.pop("rule", ""), "samples": self.samples}
        cov["counts"] = dict(sorted(self.counts.items()))
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
        if self.violations:
            rp = EVID / f"replay-{self.prop}.json"
            rp.write_text(json.dumps({"property": self.prop, "tier": self.tier, "seed": self.seed,
                                      "rerun": f"VERIF_SEED={self.seed} /verif/check.sh {self.prop} {self.tier}",
                                      "violations": self.violations[:50]},
                                     indent=1, default=repr) + "\n")
            for v in self.violations[:5]:
                print(f"  {self.prop}: {v['what']}: {json.dumps(v['detail'], default=repr)[:600]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"ok property={self.prop} tier={self.tier} states={self.states} "
              f"traces={self.traces} wall={ev['wall_s']}s")
        return 0


def hexs(b) -> str:
    return bytes(b).hex()


def write_trace(recs) -> str:
    fd, path = tempfile.mkstemp(prefix="trace-", suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    return path


JLINE = re.compile(r'<<"J", (\d+), "(.*)", "?([^",]*)"?, "?([^",>]*)"?>>$')


def parse_judgements(res) -> dict[int, tuple[str, str, str]]:
    out = {}
    for ln in res.prints("J"):
        m = JLINE.match(ln)
        if not m:
            raise RuntimeError(f"unreadable judgement: {ln}")
        out[int(m[1])] = (m[2], m[3], m[4])
    return out


class MachineryError(RuntimeError):
    pass
