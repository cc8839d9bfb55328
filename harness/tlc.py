"""Running TLC and reading what it printed."""
from __future__ import annotations

import os
import re
import resource
import shutil
import subprocess
import tempfile
import time
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"


class TLCError(RuntimeError):
    pass


class TLCResult:
    def __init__(self, out: str, rc: int, wall: float):
        self.out = out
        self.rc = rc
        self.wall = wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        self.transitions = int(m[-1][0].replace(",", "")) if m else 0
        self.states = int(m[-1][1].replace(",", "")) if m else 0

    def prints(self, head: str) -> list[str]:
        """The printed tuples that start with head; TLC breaks long ones over several lines."""
        res, open_ = [], None
        for ln in self.out.splitlines():
            if open_ is not None:
                open_.append(ln.strip())
                if ln.endswith(" >>"):
                    res.append(" ".join(open_).replace(" >>", ">>"))
                    open_ = None
            elif ln.startswith(f'<<"{head}"'):
                res.append(ln)
            elif ln.startswith(f'<< "{head}"'):
                open_ = ["<<" + ln[3:].strip()]
                if ln.endswith(" >>"):
                    res.append(open_[0].replace(" >>", ">>"))
                    open_ = None
        return res

    def actions(self) -> dict[str, int]:
        """-coverage: distinct/total counts per action name."""
        res: dict[str, int] = {}
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", self.out, re.M):
            res[m.group(1)] = max(res.get(m.group(1), 0), int(m.group(3)))
        return res


def _unlimit() -> None:
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def run(module: str, cfg: str | None = None, *, env=None, workers=8, mem="6g", stack="64m",
        timeout=840, coverage=False, extra=(), check=True, cfg_text=None) -> TLCResult:
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = f"-Xss{stack} -Xmx{mem} -Djava.io.tmpdir={meta}"
    for k, v in (env or {}).items():
        e[k] = str(v)
    if cfg_text is not None:
        cfg = os.path.join(meta, "run.cfg")
        Path(cfg).write_text(cfg_text)
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg or f"{module}.cfg", *(["-coverage", "1"] if coverage else []), *extra,
           f"{module}.tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout,
                           preexec_fn=_unlimit)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult(p.stdout + p.stderr, p.returncode, time.time() - t)
    if check and ("Model checking completed. No error has been found." not in r.out):
        raise TLCError(f"TLC failed on {module}:\n" + r.out[-4000:])
    return r
