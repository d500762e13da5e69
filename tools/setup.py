#!/usr/bin/env python3
"""Setup: compiles the Java overrides of spec/F.tla into build/classes."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from harness import tlc  # noqa: E402
print(tlc.classes())
