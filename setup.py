#!/usr/bin/env python3
"""Builds the harness once, so that the checks only rebuild what changed."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core  # noqa: E402

print("harness:", core.build_harness())
try:
    print("tools:", core.build_tools("osmio-changeset-tags-to-sqlite", "osmio-pbf-read-speed", "osmio-osc-debug"))
except core.ToolError as e:
    print(e)
