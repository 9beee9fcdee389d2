"""One shard of a check: generate behaviours with TLC and replay them."""
from __future__ import annotations

import json
import random
import sys
import threading
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))

MAX_PROBLEMS = 8


class Problems(list):
    """Disagreements found on one case."""

    def expect(self, ok: bool, what: str, **kw) -> bool:
        if not ok:
            self.append({"what": what, **kw})
        return ok

    def close(self, got, want, what: str, tol: float = 1e-9, **kw) -> bool:
        import impl

        d = impl.diff(got, want)
        if not d <= tol:
            self.append({"what": f"{what}: differs by {d:.3e}", **kw})
            return False
        return True

    def call(self, what: str, fn, *args, **kw):
        """Call the real code; an exception on a valid request is a disagreement."""
        try:
            return True, fn(*args, **kw)
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            at = next((f"{f.filename.split('/horqrux/')[-1]}:{f.lineno}" for f in reversed(tb)
                       if "/horqrux/" in f.filename), "?")
            self.append({"what": f"{what}: raised {type(e).__name__} at {at}: {str(e)[:200]}"})
            return False, None


def generate(gen: dict, tier: str, seed: int, shard: int, nshards: int):
    """Cases of one generator, for this shard.

    A random generator that stops on an arithmetic overflow of TLC is continued
    from another seed; every case it printed before is exact.
    """
    import tlc

    states = transitions = 0
    cases: list = []
    errors: list = []
    if isinstance(gen["cfg"], tuple):  # quick and thorough
        gen["cfg"] = gen["cfg"][1 if tier == "thorough" else 0]
    env = {"SHARD": str(shard), "NSHARDS": str(nshards), **gen.get("env", {})}
    if gen.get("exhaustive"):
        r = tlc.run(gen["module"], gen["cfg"], seed=seed, env=env, timeout=gen.get("timeout", 600))
        if r.error or r.violated:
            errors.append(f"{gen['cfg']}: {r.error or r.violated}\n{r.out[-2000:]}")
        return r.cases, r.states, r.transitions, errors
    total = gen["num"][1 if tier == "thorough" else 0]
    want = (total + nshards - 1) // nshards
    for attempt in range(8):
        r = tlc.run(gen["module"], gen["cfg"], simulate=want - len(cases), depth=gen.get("depth", 100),
                    seed=(seed * 1009 + shard * 31 + attempt * 7919 + 1) % 2147483647, env=env,
                    timeout=gen.get("timeout", 600))
        states += r.states
        transitions += r.transitions
        cases += r.cases
        if r.violated:
            errors.append(f"{gen['cfg']}: {r.violated}\n{r.out[-2000:]}")
            break
        if r.error and "verflow" not in r.out:
            errors.append(f"{gen['cfg']}: {r.error}\n{r.out[-2000:]}")
            break
        if len(cases) >= want or not r.error:
            break
    return cases, states, transitions, errors


def main() -> int:
    if sys.argv[1] == "replay":
        return replay_file(sys.argv[2])
    prop, tier, seed, shard, nshards, out = sys.argv[1:7]
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    res = {"states": 0, "transitions": 0, "replayed": 0, "counts": {}, "samples": [],
           "problems": [], "machinery": []}
    from jobs import PROPS

    spec = PROPS[prop]
    generated: list = []

    def produce() -> None:
        for gen in spec.get("gens", []):
            try:
                generated.append((gen, generate(gen, tier, seed, shard, nshards)))
            except Exception:  # noqa: BLE001
                res["machinery"].append(traceback.format_exc()[-2000:])

    th = threading.Thread(target=produce)
    th.start()
    try:
        import replays as replay  # imports jax and the code under test
    except Exception:  # noqa: BLE001
        # the code under test cannot be imported: nothing works
        th.join()
        res["problems"].append({"what": "importing horqrux failed: " + traceback.format_exc()[-600:]})
        Path(out).write_text(json.dumps(res))
        return 0
    th.join()
    t_end = time.time() + (420 if tier == "quick" else 2800)
    for gen, (cases, states, transitions, errors) in generated:
        res["states"] += states
        res["transitions"] += transitions
        res["machinery"] += errors
        fn = getattr(replay, gen["replay"])
        name = f"{gen['cfg']}:{gen['replay']}"
        if gen.get("stride"):
            cases = cases[:: gen["stride"]] if tier == "quick" else cases
        for i, case in enumerate(cases):
            if time.time() > t_end:
                break
            p = Problems()
            cseed = f"{seed}/{shard}/{gen['cfg']}/{i}"
            try:
                fn(case, random.Random(cseed), p)
            except Exception:  # noqa: BLE001
                # the replay is deterministic and passes on a correct tree: a result it
                # cannot even inspect is a disagreement
                p.append({"what": f"{name}: result not understood: " + traceback.format_exc()[-700:]})
            res["replayed"] += 1
            res["counts"][name] = res["counts"].get(name, 0) + 1
            if len(res["samples"]) < 1 and i == 0:
                res["samples"].append({"generator": gen["cfg"], "replay": gen["replay"],
                                       "case": slim(case)})
            for q in p:
                q.update(cfg=gen["cfg"], replay=gen["replay"], cseed=cseed, case=case)
            res["problems"] += p
            if len(res["problems"]) >= MAX_PROBLEMS:
                break
        if len(res["problems"]) >= MAX_PROBLEMS:
            break
    for drv in spec.get("drives", []):
        if len(res["problems"]) >= MAX_PROBLEMS:
            break
        name = drv["drive"]
        num = drv["num"][1 if tier == "thorough" else 0]
        try:
            r = getattr(replay, name)(random.Random(f"{seed}/{shard}/{name}"),
                                      (num + nshards - 1) // nshards, shard)
        except Exception:  # noqa: BLE001
            res["machinery"].append(f"{name}: " + traceback.format_exc()[-2500:])
            continue
        res["states"] += r.get("states", 0)
        res["transitions"] += r.get("transitions", 0)
        res["replayed"] += r["accepted"]
        res["machinery"] += r.get("machinery", [])
        res["counts"][name] = r["accepted"]
        for q in r["problems"]:
            q.setdefault("replay", name)
        res["problems"] += r["problems"]
        if r.get("sample") is not None and len(res["samples"]) < 2:
            res["samples"].append(r["sample"])
    Path(out).write_text(json.dumps(res, default=str))
    return 0


def slim(case: dict) -> dict:
    return json.loads(json.dumps(case)) if len(json.dumps(case)) < 4000 else {
        k: v for k, v in case.items() if len(json.dumps(v)) < 1200}


def replay_file(path: str) -> int:
    d = json.loads(Path(path).read_text())
    import replays as replay

    bad = 0
    for q in d["problems"]:
        if "case" not in q:
            print("not a single case:", q["what"])
            continue
        p = Problems()
        getattr(replay, q["replay"])(q["case"], random.Random(q["cseed"]), p)
        for x in p:
            print(x["what"])
        bad += bool(p)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
