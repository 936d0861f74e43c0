#!/usr/bin/env python3
"""Builds the TLC operator overrides; the drivers are built by the checks from /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
core.build_java()
for need in ("g++", "java", "javac"):
    if core.sh(["sh", "-c", "command -v " + need]).returncode:
        sys.exit(need + " is missing")
print("ok")
