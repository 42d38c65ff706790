from vp import build

def l01(c):
    b = build("core")
    c.model_check("sync", "MCLocks")
    n = 20000 if c.thorough else 2000
    tr = []
    for kind, cfg in (("mutex", "GenMutex"), ("rw", "GenRwLock")):
        s = c.generate("sync", "MCLocks", cfg, limit=None if c.thorough else 2500)
        tr.append(c.drive(b, "locks", "all-" + kind, script=s, kind=kind))
        tr.append(c.drive(b, "locks", "rnd-" + kind, seed=c.seed, n=n, kind=kind))
    c.validate("sync", "TraceLocks", tr, {"*": []})
    c.assumptions += ["the operating system schedules the harness's threads in varied orders"]

def l02(c):
    b = build("core")
    c.model_check("sync", "MCEventStream", "MCEventStream_big.cfg" if c.thorough else None)
    s = c.generate("sync", "MCEventStream", "GenEventStream", limit=None if c.thorough else 6000)
    tr = [c.drive(b, "events", "all", script=s), c.drive(b, "events", "rnd", seed=c.seed, n=20000 if c.thorough else 3000)]
    c.validate("sync", "TraceEventStream", tr, {"*": []})
    c.assumptions += ["events pushed while the stream is being closed may be lost (documented race)"]

CHECKS = {"L01": l01, "L02": l02}
