#!/usr/bin/env python3
"""Prebuilds the engine and the instrumented tree (the checks build what is missing or has changed)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import json
with open(B.VERIF + "/harness/checks.json") as f:
    cfg = json.load(f)
for p, c in cfg.items():
    B.build(c["harness"], c.get("ints", False), c.get("wrap", ()), c.get("rom", False), c.get("integ", False))
    print("built", p)
