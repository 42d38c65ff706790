#!/usr/bin/env python3
"""setup_cmd: builds every harness crate once (the checks rebuild from /repo's tree)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
for c in sorted(os.listdir(os.path.join(vp.VERIF, "harness"))):
    if c != "common" and os.path.isdir(os.path.join(vp.VERIF, "harness", c)):
        print(vp.build(c))
