#!/usr/bin/env python3
"""Setup: checks that the tools are there and warms the Go build cache by building the harness once."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
c = core.Check("setup")
try:
    c.build()
    c.build(race=True)
finally:
    shutil.rmtree(c.dir, ignore_errors=True)
print("setup ok")
