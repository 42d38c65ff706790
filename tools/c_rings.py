from vp import build

def g09(c):
    b = build("core")
    c.model_check("rings", "MCRings")
    s = c.generate("rings", "MCRings", "GenRings", simulate=4000 if c.thorough else 700, depth=60)
    tr = c.drive(b, "rings", "rnd", script=s, seed=c.seed, timeout=600, threads=64,
                 env={"INCOMING_GROUP_CALL_RING_SECS": "2"})
    c.validate("rings", "TraceRings", tr, {"*": []})
    c.assumptions += ["messages reach the application's thread one at a time", "a ring's time limit is set to two seconds "
                      "through the variable the library reads for that; episodes a slow machine stretches near it are not judged"]

CHECKS = {"G09": g09}
