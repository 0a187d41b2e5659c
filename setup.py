#!/usr/bin/env python3
"""Builds the Java field overrides and the harness once (checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
try:
    vlib.build_java()
    vlib.build_harness()
except vlib.ToolError as e:
    print(e)
    sys.exit(1)
print("setup ok")
