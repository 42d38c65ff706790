#!/usr/bin/env python3
"""python3 check.py <PROPERTY>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vp

def find(pid):
    for n in sorted(os.listdir(os.path.join(vp.VERIF, "tools"))):
        if n.startswith("c_") and n.endswith(".py"):
            m = importlib.import_module(n[:-3])
            if pid in m.CHECKS:
                return m.CHECKS[pid]
    raise SystemExit(f"no check for {pid}")

if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    f = find(pid)
    c = vp.Check(pid)
    try:
        f(c)
        rc = c.finish()
    except vp.ToolError as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
