from vp import build

def a01(c):
    b = build("core")
    c.model_check("actor", "MCActor")
    c.model_check("actor", "MCActor", "MCActorJoin.cfg")
    if c.thorough:
        c.model_check("actor", "MCActor", "MCActorSeq.cfg")
        c.model_check("actor", "MCActor", "MCActorLive.cfg")
    s = c.generate("actor", "GenActor", "GenActor_deep" if c.thorough else "GenActor")
    tr = [c.drive(b, "actor", "all", script=s), c.drive(b, "actor", "rnd", seed=c.seed, n=20000 if c.thorough else 2500),
          c.drive(b, "actor", "prio", seed=c.seed + 1, n=2500 if c.thorough else 500, prio=1)]
    c.validate("actor", "TraceActor", tr, {"*": []})
    c.assumptions += ["the operating system schedules threads of the harness in varied orders; schedules inside the standard "
                      "library's channel are not enumerated in the code, only in the model"]

CHECKS = {"A01": a01}
