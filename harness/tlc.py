"""Run TLC and read back what it prints."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
TOOLS = Path("/opt/veriftools/tla")
CP = f"{TOOLS}/tla2tools.jar:{TOOLS}/CommunityModules-deps.jar"


class TLCResult:
    def __init__(self) -> None:
        self.cases: list = []
        self.states = 0
        self.transitions = 0
        self.distinct = 0
        self.error: str | None = None
        self.violated: str | None = None
        self.depth = 0
        self.out = ""
        self.rc = 0


def scratch(prefix: str) -> str:
    return tempfile.mkdtemp(prefix=prefix)


def run(
    module: str,
    cfg: str,
    *,
    simulate: int | None = None,
    depth: int = 100,
    seed: int = 1,
    workers: int = 1,
    heap: str = "2g",
    timeout: int = 800,
    env: dict | None = None,
    extra: list[str] | None = None,
) -> TLCResult:
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg.

    With `simulate`, that many random behaviours are generated from `seed`;
    otherwise the state graph is explored exhaustively.
    """
    tmp = scratch("verif-tlc-")
    try:
        cmd = [
            "java",
            "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
            f"-Xmx{heap}",
            "-XX:TieredStopAtLevel=4",
            "-Xss64m",
            f"-Djava.io.tmpdir={tmp}",
            f"-DTLA-Library={SPEC}",
            "-cp",
            CP,
            "tlc2.TLC",
            "-nowarning",
            "-noGenerateSpecTE",
            "-metadir",
            os.path.join(tmp, "states"),
            "-workers",
            str(workers),
            "-config",
            str(SPEC / f"{cfg}.cfg"),
        ]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed)]
        else:
            # random choices inside an exhaustive run follow the fingerprint seed
            cmd += ["-seed", str(seed), "-fp", "7"]
        cmd += extra or []
        cmd.append(str(SPEC / f"{module}.tla"))
        res = TLCResult()
        full_env = dict(os.environ)
        full_env.pop("JAVA_TOOL_OPTIONS", None)
        full_env.update(env or {})
        try:
            p = subprocess.run(
                cmd, cwd=tmp, capture_output=True, text=True, timeout=timeout, env=full_env
            )
            res.out, res.rc = p.stdout + p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
            res.out = out.decode(errors="replace") if isinstance(out, bytes) else out
            res.rc = -1
            res.error = "timeout"
        parse(res)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def parse(res: TLCResult) -> None:
    for line in res.out.splitlines():
        if line.startswith('"CASE '):
            try:
                res.cases.append(json.loads(json.loads(line)[5:]))
            except ValueError:
                if res.rc == 0:
                    raise
        elif m := re.match(r"(\d+) states generated, (\d+) distinct states", line):
            res.transitions, res.distinct = int(m[1]), int(m[2])
            res.states = res.distinct
        elif m := re.match(r"Progress: (\d+) states checked, (\d+) traces", line):
            res.states = int(m[1])
        elif m := re.match(r"The number of states generated: (\d+)", line):
            res.states = int(m[1])
        elif m := re.match(r"The depth of the complete state graph search is (\d+)", line):
            res.depth = int(m[1])
        elif m := re.match(r"Error: Invariant (\w+) is violated", line):
            res.violated = m[1]
        elif m := re.match(r"Error: (.*)", line):
            if res.error is None:
                res.error = m[1]
    if res.transitions == 0:
        res.transitions = res.states
    if res.rc != 0 and res.error is None:
        res.error = f"TLC ended with status {res.rc}"
