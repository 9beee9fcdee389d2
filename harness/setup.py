"""Setup: parse every module of the specification that a check uses."""
import subprocess
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import tlc  # noqa: E402

bad = 0
mods = sorted(p.stem for p in tlc.SPEC.glob("*.tla"))
for m in mods:
    p = subprocess.run(["java", "-cp", tlc.CP, "tla2sany.SANY", str(tlc.SPEC / f"{m}.tla")],
                       capture_output=True, text=True, cwd=str(tlc.SPEC))
    if p.returncode != 0 or "*** Errors" in p.stdout:
        print(m, p.stdout[-2000:])
        bad = 1
print(f"parsed {len(mods)} modules")
sys.exit(bad)
