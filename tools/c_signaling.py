from vp import build

def s01(c):
    b = build("core")
    c.model_check("signaling", "MCSignaling", "MCSignaling_big.cfg" if c.thorough else None)
    s = c.generate("signaling", "MCSignaling", "GenSignaling", limit=None if c.thorough else 5000)
    tr = [c.drive(b, "signaling", "gen", script=s), c.drive(b, "signaling", "rnd", seed=c.seed, n=4000 if c.thorough else 500)]
    c.validate("signaling", "TraceSignaling", tr, {"*": []})

CHECKS = {"S01": s01}
