#!/opt/venv/bin/python
"""Development tool: plant bugs in scratch copies of /repo, confirm them, try checks on them.

    plant.py new FILE.py [ID...]     FILE defines BUGS: id -> (property, file, old, new, needs, breaks, demo)
    plant.py catch [--tier T] ID[:C02,C05] ...   run the property's check (or those listed) against the bug
Not used by any check.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
BASE = Path("/tmp/plant")
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def scratch(name):
    d = BASE / name
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    return d


def demo(folder, repo):
    with_env = {**os.environ, "PYTHONPATH": str(repo), "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1"}
    p = subprocess.run(["bash", str(folder / "demo.sh")], cwd=repo, env=with_env, capture_output=True, text=True,
                       timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def tests(d):
    repo = d / "repo"
    env = {**os.environ, "JAX_PLATFORMS": "cpu", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
           "PYTHONPATH": str(repo)}
    subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "3",
                    "--randomly-seed=0", "--randomly-dont-reorganize", "--continue-on-collection-errors",
                    "-o", "junit_family=xunit2", f"--junitxml={d}/junit.xml"], cwd=repo, env=env,
                   capture_output=True, text=True)
    ok = set()
    for case in ET.parse(d / "junit.xml").getroot().iter("testcase"):
        if case.find("failure") is None and case.find("error") is None and case.find("skipped") is None:
            ok.add(f"{case.get('classname')}::{case.get('name')}")
    return sorted(STABLE - ok)


def new(bug_id, spec):
    prop, file, old, text, needs, breaks, code = spec
    d = scratch(bug_id)
    repo = d / "repo"
    edits = [(file, old, text)] if isinstance(file, str) else list(zip(file, old, text))
    for f, o, t in edits:
        src = (repo / f).read_text()
        if src.count(o) != 1:
            return bug_id, f"text occurs {src.count(o)} times in {f}"
        (repo / f).write_text(src.replace(o, t))
    patch = subprocess.run(["git", "-C", str(repo), "diff"], capture_output=True, text=True).stdout
    out = SEEDED / bug_id
    tmp = d / "seed"
    tmp.mkdir()
    (tmp / "patch.diff").write_text(patch)
    (tmp / "demo.py").write_text(code.lstrip("\n"))
    (tmp / "demo.sh").write_text('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\n'
                                 f'exec {PY} "$(dirname "$0")/demo.py"\n')
    (tmp / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    rc0, o0 = demo(tmp, "/repo")
    if rc0 != 0:
        return bug_id, f"demo fails on the unchanged tree: {o0}"
    rc1, o1 = demo(tmp, repo)
    if rc1 == 0:
        return bug_id, "demo passes on the changed tree"
    bad = tests(d)
    if bad:
        return bug_id, f"{len(bad)} stable tests fail, e.g. {bad[:2]}"
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    shutil.rmtree(d)
    return bug_id, "kept: " + o1.strip().splitlines()[-1][:150]


def catch(item, tier):
    bug_id, _, props = item.partition(":")
    meta = json.loads((SEEDED / bug_id / "meta.json").read_text())
    d = scratch("catch-" + bug_id)
    subprocess.run(["git", "-C", str(d / "repo"), "apply", str(SEEDED / bug_id / "patch.diff")], check=True)
    subprocess.run(["rsync", "-a", "--exclude", "out", "--exclude", ".git", "--exclude", "evidence", f"{VERIF}/",
                    f"{d}/verif/"], check=False)
    if not (d / "verif").exists():
        shutil.copytree(VERIF, d / "verif", ignore=shutil.ignore_patterns("out", ".git", "evidence"))
    lines = []
    for prop in props.split(",") if props else [meta["property"]]:
        p = subprocess.run([PY, f"{d}/verif/harness/check.py", prop, tier], capture_output=True, text=True,
                           env={**os.environ, "VERIF_REPO": str(d / "repo")}, cwd=f"{d}/verif")
        word = {0: "MISSED", 1: "caught"}.get(p.returncode, f"rc={p.returncode}")
        lines.append(f"{bug_id} {prop}: {word}: " + (p.stdout.strip().splitlines() or ["?"])[0].strip()[:160])
    shutil.rmtree(d)
    return "\n".join(lines)


def main():
    args = sys.argv[2:]
    if sys.argv[1] == "new":
        sp = importlib.util.spec_from_file_location("bugs", args[0])
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        ids = args[1:] or list(m.BUGS)
        with ThreadPoolExecutor(3) as ex:
            for i, what in ex.map(lambda b: new(b, m.BUGS[b]), ids):
                print(i, what, flush=True)
    else:
        tier = "quick"
        if args and args[0] == "--tier":
            tier, args = args[1], args[2:]
        args = args or sorted(p.name for p in SEEDED.iterdir())
        with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
            for r in ex.map(lambda b: catch(b, tier), args):
                print(r, flush=True)


main()
