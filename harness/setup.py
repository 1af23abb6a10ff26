"""Warms the numba cache of the unchanged sources and parses every module."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
import kit

scratch = tempfile.mkdtemp(prefix="cddm-setup-")
try:
    for m in sorted(f for f in os.listdir(kit.SPEC) if f.endswith(".tla")):
        p = subprocess.run(["java", "-cp", kit.CP, "tla2sany.SANY", m], cwd=kit.SPEC, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            print(p.stdout)
            sys.exit(1)
    # a warm cache only saves time: a failing import is for the checks to report
    kit.warm(scratch, [None] + checks.CONFIGS)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("setup done")
