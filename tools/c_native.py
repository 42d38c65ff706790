from vp import build

def n01(c):
    b = build("native")
    c.model_check("simnet", "MCSimNet", "MCSimNet_big.cfg" if c.thorough else None)
    s = c.generate("simnet", "MCSimNet", "GenSimNet", simulate=4000 if c.thorough else 400, depth=8, limit=3000 if c.thorough else 320)
    tr = [c.drive(b, "simnet", "nets", script=s, seed=c.seed, n=400, timeout=600)]
    c.validate("simnet", "TraceSimNet", tr, {"*": []})
    c.assumptions += ["an overflow bound that depends on time is only reported when three attempts exceed it"]

def u01(c):
    b = build("native")
    c.model_check("audio", "MCAudio", "MCAudio_big.cfg" if c.thorough else None)
    s = c.generate("audio", "MCAudio", "GenAudio")
    tr = [c.drive(b, "audio", "gen", script=s), c.drive(b, "audio", "rnd", seed=c.seed, n=6000 if c.thorough else 800)]
    c.validate("audio", "TraceAudio", tr, {"*": []})
    c.assumptions += ["the rules for Linux are checked; those for macOS and Windows are compiled out here"]

def x01(c):
    b = build("native")
    c.model_check("log", "GenRedact", "MCRedact.cfg")
    s = c.generate("log", "GenRedact", "GenRedact_big" if c.thorough else "GenRedact", limit=60000 if c.thorough else 12000)
    tr = [c.drive(b, "redact", "gen", script=s), c.drive(b, "redact", "rnd", seed=c.seed, n=6000 if c.thorough else 800)]
    c.validate("log", "TraceRedact", tr, {"*": []})

CHECKS = {"N01": n01, "U01": u01, "X01": x01}
