#!/usr/bin/env python3
"""Builds the native primitives and the drivers (the checks rebuild whatever is out of date)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import core
core.build_prims()
for f in core.FEATURES:
    core.build_harness(f)
