#!/opt/venv/bin/python
"""Check one property:  check.py C01   (replay:  check.py replay FILE)

Runs the property's model-checking jobs with TLC, generates behaviours of the
specification, replays them against /repo and validates recorded traces.
Exit 0: the property held on everything explored; exit 1: VIOLATION line.
"""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))

SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


def known_findings(prop: str) -> dict:
    out = {}
    for line in (VERIF / "known_findings.txt").read_text().splitlines():
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m and m[1] == prop:
            out[m[2]] = {"what": m[3]}
    return out


def run_worker(args: list[str], log: Path, timeout: float, env: dict) -> int:
    with open(log, "w") as fh:
        try:
            return subprocess.run(
                [sys.executable, str(HERE / "worker.py"), *args],
                stdout=fh, stderr=subprocess.STDOUT, timeout=timeout, cwd=str(HERE),
                env={**os.environ, **env},
            ).returncode
        except subprocess.TimeoutExpired:
            return -9


def run_model(job: dict, seed: int) -> dict:
    import tlc

    r = tlc.run(job["module"], job["cfg"], seed=seed, workers=job.get("workers", 2),
                simulate=job.get("simulate"), depth=job.get("depth", 100),
                timeout=job.get("timeout", 700))
    return {"job": job, "states": r.states, "transitions": r.transitions, "depth": r.depth,
            "error": r.error, "violated": r.violated, "tail": r.out[-3000:]}


def main() -> int:
    if sys.argv[1] == "replay":
        return subprocess.call([sys.executable, str(HERE / "worker.py"), "replay", sys.argv[2]])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from jobs import PROPS

    spec = PROPS[prop]
    models = [m for m in spec.get("models", []) if tier == "thorough" or not m.get("thorough_only")]
    work = VERIF / "out" / prop
    work.mkdir(parents=True, exist_ok=True)
    for f in work.glob("*"):
        if f.is_file():
            f.unlink()
    # the shards of this run share what XLA compiles
    jc = work / "xla"
    shutil.rmtree(jc, ignore_errors=True)
    jc.mkdir()
    cache = {"JAX_COMPILATION_CACHE_DIR": str(jc), "JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS": "0",
             "JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES": "-1"}
    budget = 780 if tier == "quick" else 3500
    with ThreadPoolExecutor(max_workers=SHARDS + 3) as ex:
        mfut = [ex.submit(run_model, m, seed) for m in models]
        wfut = [
            ex.submit(run_worker, [prop, tier, str(seed), str(i), str(SHARDS),
                                   str(work / f"shard{i}.json")],
                      work / f"shard{i}.log", budget, cache)
            for i in range(SHARDS)
        ] if spec.get("gens") or spec.get("drives") else []
        mres = [f.result() for f in mfut]
        wrc = [f.result() for f in wfut]
    shutil.rmtree(jc, ignore_errors=True)

    cover: dict = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
    samples: list = []
    problems: list = []
    machinery: list[str] = []
    detail: dict = {}
    for m in mres:
        name = m["job"]["cfg"]
        cover["states"] += m["states"]
        cover["transitions"] += m["transitions"]
        detail[f"model:{name}"] = {"states": m["states"], "transitions": m["transitions"],
                                   "depth": m["depth"]}
        if m["violated"] or m["error"]:
            machinery.append(f"model {name}: {m['violated'] or m['error']}\n{m['tail']}")
        elif m["states"] < m["job"].get("min_states", 2):
            machinery.append(f"model {name}: only {m['states']} states")
    for i, rc in enumerate(wrc):
        f = work / f"shard{i}.json"
        if rc != 0 or not f.exists():
            machinery.append(f"shard {i} ended with {rc}: " + (work / f"shard{i}.log").read_text()[-3000:])
            continue
        d = json.loads(f.read_text())
        for k in ("states", "transitions"):
            cover[k] += d[k]
        cover["traces_validated_against_impl"] += d["replayed"]
        for k, v in d["counts"].items():
            detail[k] = detail.get(k, 0) + v
        if len(samples) < 3:
            samples += d["samples"][: 3 - len(samples)]
        problems += d["problems"]
        machinery += d["machinery"]
    if not samples:
        samples = [m["job"] for m in mres][:3]
    cover["samples"] = samples
    cover["detail"] = detail

    known = known_findings(prop)
    seen_known: dict = {}
    fresh = []
    for p in problems:
        key = p.get("key")
        if key and key in known:
            seen_known.setdefault(key, p)
        else:
            fresh.append(p)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": cover,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))

    for key, p in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {known[key].get('what', key)}")
    if fresh:
        rd = VERIF / "out" / "replays"
        rd.mkdir(parents=True, exist_ok=True)
        rp = rd / f"{prop}-{seed}-{os.getpid()}.json"
        rp.write_text(json.dumps({"property": prop, "problems": fresh[:20]}, indent=1))
        for p in fresh[:5]:
            print(f"  {p['what']}"[:600])
        print(f"{len(fresh)} disagreements in {cover['traces_validated_against_impl']} replays")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if machinery:
        print(f"CHECK-ERROR property={prop}")
        for m in machinery[:3]:
            print(m[:4000])
        return 2
    n = cover["traces_validated_against_impl"]
    print(f"ok property={prop} tier={tier} states={cover['states']} "
          f"transitions={cover['transitions']} replayed={n} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
