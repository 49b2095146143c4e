#!/usr/bin/env python3
"""Builds the simulator once (every check rebuilds what changed in /repo)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
try:
    print(B.build()[1])
except B.BuildError as e:
    print(e); sys.exit(0)   # the checks report it
