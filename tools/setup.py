#!/usr/bin/env python3
"""Builds every harness package once against /repo's working tree (warms the build cache)."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from check import env
from registry import CHECKS
pk = sorted({"./" + c["pkg"] for c in CHECKS.values()})
sys.exit(subprocess.run(["go", "test", "-vet=off", "-run", "^$"] + pk, cwd=os.path.join(ROOT, "harness"), env=env()).returncode)
