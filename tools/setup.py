#!/usr/bin/env python3
"""Builds the simulated clock (into build/, ignored by git) and makes sure that
the simulator runs here."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "sim"))
import boot  # noqa: E402

print(boot.clock_lib())
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
sys.exit(subprocess.call([sys.executable, os.path.join(ROOT, "check.py"), "C01", "--digests", "0"]))
