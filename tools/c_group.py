from vp import build

def k02(c):
    b = build("core")
    c.model_check("endorse", "MCEndorse", "MCEndorse_big.cfg" if c.thorough else None)
    s = c.generate("endorse", "MCEndorse", "GenEndorse", simulate=2000 if c.thorough else 60, depth=20, limit=40000 if c.thorough else 2000)
    c.validate("endorse", "TraceEndorse", [c.drive(b, "endorse", "sim", script=s), c.drive(b, "endorse", "rnd", seed=c.seed, n=40000 if c.thorough else 2500)],
               {"*": ["res", "exp", "total", "of", "set", "flag"]})
    c.assumptions += ["zkgroup is modelled symbolically: an endorsement verifies only under the key, day and members it was issued for"]

CHECKS = {"K02": k02}
