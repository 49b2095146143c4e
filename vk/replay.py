#!/usr/bin/env python3
"""replay.py FILE [-v]: replays a minimised schedule and fault trace against /repo's current tree."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, check as K
exe, _ = B.build()
fl = re.search(r"^flavour (\w+)", open(sys.argv[1]).read(), re.M).group(1)
sys.exit(subprocess.call([exe[fl], "replay"] + sys.argv[1:], env=dict(os.environ, SIM_VERSION=".".join(B.version()), SIM_KNOWN=str(K.known("")[0]))))
