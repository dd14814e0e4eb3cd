#!/usr/bin/env python3
"""Builds every harness once (checks rebuild what they need themselves)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import build, registry
seen = set()
for p, c in registry.CHECKS.items():
    for n, f in c["build"].items():
        if n not in seen:
            seen.add(n)
            print(n, f())
