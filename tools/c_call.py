import os
from vp import build, SPEC

LIFE = ["life", "active", "busy"]

def cfg(c, name, **kw):
    """A copy of a configuration with other constants, beside the original (removed when done)."""
    text = open(os.path.join(SPEC, "call", name + ".cfg")).read()
    for k, v in kw.items():
        import re
        text = re.sub(rf"^(\s*{k} = ).*$", rf"\g<1>{v}", text, flags=re.M)
    p = c.path(name + ".cfg")
    open(p, "w").write(text)
    return p

def calls(c, fields, models, salt, quick=1200, batched=True, count=False, nets=(), also=()):
    b = build("core")
    for name, small, big in models:
        c.model_check("call", "MCCall", cfg(c, name, Depth=big if c.thorough else small), timeout=840)
    for n in nets:
        c.model_check("call", "MCGlare", n + ".cfg", timeout=840)
    n = 12000 if c.thorough else quick
    seed, c.seed = c.seed, c.seed * 100 + salt
    try:
        s = c.generate("call", "MCCall", "GenCall", simulate=n, depth=40, timeout=600)
    finally:
        c.seed = seed
    tr = [c.drive(b, "calls", "steps", script=s, seed=c.seed, timeout=500)]
    for g, quick2 in also:
        s2 = c.generate("call", "MCCall", g, simulate=20000 if c.thorough else quick2, depth=40, timeout=600)
        tr.append(c.drive(b, "calls", g, script=s2, seed=c.seed, timeout=500))
    if batched:
        tr.append(c.drive(b, "calls", "batched", script=s, seed=c.seed, batched=1, timeout=500))
        tr.append(c.drive(b, "calls", "slow", script=s, seed=c.seed, batched=1, slow=1, timeout=500))
    if count:
        import itertools
        part = c.path("script-part.json")
        with open(s) as f, open(part, "w") as g:
            g.writelines(itertools.islice(f, 2000 if c.thorough else 300))
        tr.append(c.drive(b, "calls", "count", script=part, seed=c.seed, count=1, timeout=500))
        tr.append(c.drive(b, "calls", "countb", script=part, seed=c.seed, count=1, batched=1, timeout=500))
    c.validate("call", "TraceCall", tr, {"*": fields})
    c.assumptions += ["the media stack is the repository's own simulation of it (webrtc::sim)",
                      "remote messages reach the application's thread one at a time"]

def s02(c):
    calls(c, ["send"], [("MCFault", 6, 7), ("MCLife", 6, 8)], 2)
def s03(c):
    calls(c, LIFE + ["send", "media", "ice"], [("MCEarly", 4, 6)], 3, quick=600, also=[("GenEarly", 1500)])
def c01(c):
    calls(c, LIFE + ["send", "order"], [("MCLife", 6, 8)], 11)
def c02(c):
    calls(c, ["life", "order", "media"], [("MCLife", 6, 8), ("MCFault", 6, 7)], 12)
def c03(c):
    calls(c, LIFE + ["send", "rh"], [], 13, nets=("MCGlare", "MCTie", "MCCross", "MCCrossB"))
def c04(c):
    calls(c, LIFE + ["send", "rh"], [], 14, nets=("MCMulti", "MCCross"))
def c05(c):
    calls(c, ["life", "media", "talking", "rates", "route", "rtp", "own"], [("MCMedia", 9, 12)], 15, batched=False)
def c06(c):
    calls(c, LIFE + ["send"], [("MCLife", 6, 8)], 16, batched=False)
def c07(c):
    calls(c, ["stat"], [("MCMedia", 9, 12)], 17, batched=False)
def c08(c):
    calls(c, ["send", "rh", "hungup"], [("MCFault", 6, 7), ("MCLife", 6, 8)], 18)
def c09(c):
    calls(c, ["threads", "order"], [], 19, quick=400, count=True)

CHECKS = {"S02": s02, "S03": s03, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07,
          "C08": c08, "C09": c09}
