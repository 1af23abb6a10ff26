#!/bin/sh
# Compiles cddm's numba kernels once for the checks (cached by source hash) and parses every specification.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python harness/setup.py
