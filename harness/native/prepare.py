"""The officially buildable part of ringrtc with its native features, as a workspace of symlinks into /repo."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
ws = os.path.join(here, "..", "..", "target", "ws")
os.makedirs(ws, exist_ok=True)
subprocess.check_call([sys.executable, os.path.join(here, "ws.py"), "/repo", ws], stdout=subprocess.DEVNULL)
print(here)
