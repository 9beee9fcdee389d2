#!/opt/venv/bin/python
"""Development tool: random small mutants of /repo's sources that pass the tests, and the checks on them.

    mutate.py OUT.jsonl COUNT SEED [FILE...]
For every mutant: run the repository's tests in a scratch copy (stop at the first failure); for the survivors run
all quick checks until one reports. One JSON line per mutant. Not used by any check.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
BASE = Path(os.environ.get("BASE", "/tmp/mutants"))
PY = "/opt/venv/bin/python"
FILES = """apply.py api.py shots.py circuit.py analog.py matrices.py composite/compose.py composite/sequence.py
differentiation/ad.py differentiation/adjoint.py differentiation/gpsr/analytical.py differentiation/gpsr/gpsr_utils.py
differentiation/gpsr/shots.py noise/noise.py noise/utils_noise.py primitives/primitive.py primitives/parametric.py
utils/conversion.py utils/operator_utils.py utils/sparse_utils.py utils/values_utils.py""".split()
HINTS = {
    "apply.py": "C01 C02 C03 C04 C05 C17 C16 C18 C10 C20",
    "api.py": "C08 C15 C22 C13 C10 C11 C16",
    "shots.py": "C13 C14 C22",
    "circuit.py": "C21 C19 C02 C16",
    "analog.py": "C18 C19",
    "matrices.py": "C01 C16 C07",
    "composite/compose.py": "C07 C08 C16 C19 C21",
    "composite/sequence.py": "C02 C07 C21 C16 C22",
    "differentiation/ad.py": "C08 C16 C09",
    "differentiation/adjoint.py": "C10 C16",
    "differentiation/gpsr/analytical.py": "C11 C12 C08",
    "differentiation/gpsr/gpsr_utils.py": "C11 C14 C12",
    "differentiation/gpsr/shots.py": "C14 C13",
    "noise/noise.py": "C06 C05 C19",
    "noise/utils_noise.py": "C06 C05",
    "primitives/primitive.py": "C01 C07 C21 C17 C16 C19 C22",
    "primitives/parametric.py": "C01 C17 C11 C16 C21 C19 C09",
    "utils/conversion.py": "C16",
    "utils/operator_utils.py": "C01 C07 C04 C16 C23 C15 C22 C17 C19",
    "utils/sparse_utils.py": "C16",
    "utils/values_utils.py": "C08 C10 C11",
}
ALL = [f"C{i:02d}" for i in range(1, 24)]
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult],
       ast.FloorDiv: [ast.Mult]}


def sites(tree):
    """(description, function that changes the node in a copy of the tree)."""
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.add(id(n.body[0].value))
        if isinstance(n, (ast.FunctionDef, ast.AnnAssign, ast.arg)):  # no annotations
            for a in ([n.returns] if isinstance(n, ast.FunctionDef) else [n.annotation]):
                if a is not None:
                    doc.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.Raise):
            doc.update(id(x) for x in ast.walk(n))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in doc:
            continue
        def add(what, fn):
            out.append((i, getattr(n, "lineno", 0), what, fn))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            for o in CMP[type(n.ops[0])]:
                add(f"{type(n.ops[0]).__name__}->{o.__name__}", lambda m, o=o: m.ops.__setitem__(0, o()))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]:
                add(f"{type(n.op).__name__}->{o.__name__}", lambda m, o=o: setattr(m, "op", o()))
            if isinstance(n.op, (ast.MatMult, ast.Sub, ast.Add)):
                add("swap operands", lambda m: (lambda a, b: (setattr(m, "left", b), setattr(m, "right", a)))(m.left, m.right))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
            add("swap operands", lambda m: (lambda a, b: (setattr(m, "left", b), setattr(m, "right", a)))(m.left, m.right))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add("drop unary", lambda m: setattr(m, "op", ast.UAdd() if isinstance(m.op, ast.USub) else ast.Not()))
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                add(f"{v}->{not v}", lambda m, v=v: setattr(m, "value", not v))
            elif isinstance(v, (int, float)):
                add(f"{v}->{v + 1}", lambda m, v=v: setattr(m, "value", v + 1))
                if v:
                    add(f"{v}->0", lambda m, v=v: setattr(m, "value", type(v)(0)))
            elif isinstance(v, complex):
                add(f"{v}->{-v}", lambda m, v=v: setattr(m, "value", -v))
        if isinstance(n, ast.BoolOp):
            add("and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            add("drop operand", lambda m: m.values.pop())
        if isinstance(n, ast.IfExp):
            add("always first", lambda m: setattr(m, "test", ast.Constant(True)))
            add("always second", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.If):
            add("if True", lambda m: setattr(m, "test", ast.Constant(True)))
            add("if False", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                add("swap arguments", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
            if n.args and len(n.args) == 1 and not n.keywords:
                add("drop call", lambda m: m.__dict__.update({"_keep": 1}))
            if n.keywords:
                add("drop keyword", lambda m: m.keywords.pop())
            if len(n.args) >= 2:
                add("drop argument", lambda m: m.args.pop())
        if isinstance(n, ast.Attribute) and n.attr in ("real", "T"):
            add("drop attribute", lambda m: m.__dict__.update({"_keep": 1}))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add("drop slice", lambda m: setattr(m, "slice", ast.Slice()))
    return out


class Drop(ast.NodeTransformer):
    def generic_visit(self, node):
        super().generic_visit(node)
        if getattr(node, "_keep", None):
            if isinstance(node, ast.Call):
                return node.args[0]
            if isinstance(node, ast.Attribute):
                return node.value
        return node


def mutants(files, count, seed):
    pool = []
    for f in files:
        src = (Path("/repo/horqrux") / f).read_text()
        tree = ast.parse(src)
        for i, line, what, fn in sites(tree):
            pool.append((f, src, i, line, what, fn))
    random.Random(seed).shuffle(pool)
    seen = set()
    for f, src, i, line, what, fn in pool:
        t = ast.parse(src)
        node = list(ast.walk(t))[i]
        before = ast.unparse(node)[:70]
        try:
            fn(node)
            t = Drop().visit(t)
            text = ast.unparse(ast.fix_missing_locations(t))
            compile(text, f, "exec")
        except Exception:
            continue
        if (f, text) in seen or text == ast.unparse(ast.parse(src)):
            continue
        seen.add((f, text))
        yield f, line, what, before, text
        count -= 1
        if not count:
            return


def work(k, m):
    f, line, what, before, text = m
    d = BASE / f"m{k}"
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    (d / "repo/horqrux" / f).write_text(text)
    rec = {"k": k, "file": f, "line": line, "what": what, "before": before}
    env = {**os.environ, "JAX_PLATFORMS": "cpu", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": str(d / "repo"),
           "PYTHONHASHSEED": "0", "VERIF_REPO": str(d / "repo")}
    try:
        p = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "-n", "2", "--timeout=300",
                            "--randomly-seed=0", "--randomly-dont-reorganize"], cwd=d / "repo", env=env,
                           capture_output=True, text=True, timeout=1500)
        if p.returncode != 0:
            rec["result"] = "tests"
            return rec
        shutil.copytree(VERIF, d / "verif", ignore=shutil.ignore_patterns("out", ".git", "evidence", "seeded"))
        first = HINTS.get(f, "").split()
        order = first + [c for c in ALL if c not in first]
        rec["result"] = "MISSED"
        for c in order:
            p = subprocess.run([PY, f"{d}/verif/harness/check.py", c, "quick"], capture_output=True, text=True, env=env,
                               cwd=f"{d}/verif")
            if p.returncode == 1:
                rec.update(result="caught", by=c, says=(p.stdout.strip().splitlines() or ["?"])[0][:150])
                break
            if p.returncode:
                rec.setdefault("odd", []).append([c, p.returncode, p.stdout[-300:] + p.stderr[-300:]])
    except Exception as e:
        rec["result"] = f"error {e!r}"[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rec


def main():
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or FILES
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex, open(out, "a") as fh:
        for r in ex.map(lambda a: work(*a), enumerate(mutants(files, count, seed))):
            fh.write(json.dumps(r) + "\n")
            fh.flush()


main()
