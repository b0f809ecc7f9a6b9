"""Nothing to build: check that the tools and the specification are in place."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
import check

bad = [m for m in ("Asta", "Trace") if not os.path.exists(os.path.join(check.SPEC, m + ".tla"))]
for cmd in (["java", "-version"], [check.PY, "-c", "import numpy, sympy"]):
    if subprocess.run(cmd, capture_output=True).returncode:
        bad.append(cmd[0])
print("missing: " + ", ".join(bad) if bad else "ready")
sys.exit(1 if bad else 0)
