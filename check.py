#!/usr/bin/env python3
"""check.py ID: decides property ID on the working tree of /repo (see DESIGN.md)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, registry
pid = sys.argv[1]
core.main(registry.CHECKS[pid], pid)
