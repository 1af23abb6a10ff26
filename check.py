#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--case CASEID] [--keep]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
from checks import CHECKS

p = argparse.ArgumentParser()
p.add_argument("id")
p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
p.add_argument("--case")
p.add_argument("--keep", action="store_true")
a = p.parse_args()
sys.stdout.reconfigure(line_buffering=True)
sys.exit(CHECKS[a.id].main(a.tier, int(os.environ.get("VERIF_SEED", "1")), a.case, a.keep))
