#!/usr/bin/env python3
"""mkseed.py SPECDIR: builds seeded/<id> from a python description file.
The file defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], MAIN (rust), DEPS (toml lines).
Verifies: patch applies, demo passes without and fails with it (stable tests: --tests)."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = runpy.run_path(sys.argv[1])
out = os.path.join(V, "seeded", d["ID"]); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
kit = os.path.join(V, "tools", "seedkit")
for n in ("ws.py", "demo.sh"): shutil.copy(os.path.join(kit, n), out)
os.chmod(os.path.join(out, "demo.sh"), 0o755)
open(os.path.join(out, "main.rs"), "w").write(d["MAIN"])
RR = 'ringrtc = { path = "@WS@/src/rust", features = ["native", "simnet", "virtual_audio"] }\n'
open(os.path.join(out, "deps.toml"), "w").write(d.get("DEPS", RR))
json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
sc = "/tmp/seedrepo"; shutil.rmtree(sc, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", sc])
def demo(): return subprocess.run(["bash", out + "/demo.sh"], cwd=sc).returncode
if "--nobase" not in sys.argv:
    r = demo(); print("unchanged:", r); assert r == 0
for f, a, b in d["EDITS"]:
    p = os.path.join(sc, f); s = open(p).read(); assert s.count(a) == 1, (f, s.count(a), a)
    open(p, "w").write(s.replace(a, b))
diff = subprocess.check_output(["git", "diff"], cwd=sc, text=True)
open(os.path.join(out, "patch.diff"), "w").write(diff)
r = demo(); print("patched:", r); assert r not in (0, 3), r
subprocess.check_call(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"])
shutil.rmtree(sc)
