from vp import build, NCPU

ALLOBS = ["res", "tx", "idx", "ret", "out", "slen", "rlen", "ackseq"]
F = {
    "R01": {"*": [], "Send": ["res", "tx"], "SendFrag": ["res", "tx"], "Deliver": ["res", "out"], "Inject": ["res", "out"],
            "Resend": ["tx"]},
    "R02": {"*": ["slen", "rlen"], "Send": ["res", "tx", "slen", "rlen", "ackseq"], "SendFrag": ["res", "tx", "slen", "rlen", "ackseq"],
            "Ack": ["res", "slen", "rlen"], "Resend": ["res", "tx", "slen", "rlen"],
            "Deliver": ["res", "slen", "rlen"], "Inject": ["res", "slen", "rlen"]},
    "R03": {"*": ["ackseq", "slen"], "Ack": ["res", "ret", "tx", "ackseq"], "Resend": ["res", "tx", "slen"],
            "Send": ["tx", "ackseq", "slen"], "SendFrag": ["tx", "ackseq", "slen"],
            "Deliver": ["ackseq", "slen"], "Inject": ["ackseq", "slen"]},
    "R04": {"*": [], "Send": ["res", "tx"], "SendFrag": ["res", "tx", "idx", "slen"], "Deliver": ["res", "out"],
            "Inject": ["res", "out"], "Resend": ["tx"]},
}

def mk(pid):
    def f(c):
        b = build("mrp")
        c.model_check("mrp", "MCMrp")
        if pid in ("R01", "R03"):
            c.model_check("mrp", "MCMrpLive")
        if c.thorough:
            c.model_check("mrp", "MCMrp", "MCMrp_big.cfg", timeout=500)
        tr = []
        s = c.generate("mrp", "GenMrp", "GenMrp_all", limit=None if c.thorough else 6000)
        tr.append(c.drive(b, "mrp", "all", script=s))
        s = c.generate("mrp", "GenMrp", "GenMrp_sim", simulate=400 if c.thorough else 60, depth=32)
        tr.append(c.drive(b, "mrp", "sim", script=s))
        tr.append(c.drive(b, "mrp", "rnd", seed=c.seed, n=20000 if c.thorough else 2500, len=60))
        tr.append(c.drive(b, "mrp", "long", seed=c.seed + 7, n=1000 if c.thorough else 100, len=400))
        if pid == "R04":
            bc = build("core")
            tr2 = c.drive(bc, "protoext", "ext", seed=c.seed, n=4000 if c.thorough else 800)
            c.validate("mrp", "TraceProtoExt", tr2, {"*": ["sfu", "dev"]})
            s = c.generate("mrp", "GenMrpFrag", "GenMrpFrag_deep" if c.thorough else "GenMrpFrag", limit=120000)
            tr.append(c.drive(b, "mrp", "frag", script=s))
        c.validate("mrp", "TraceMrp", tr, F[pid])
        c.assumptions += ["endpoints are driven from one thread; payloads are distinct small integers"]
    return f

CHECKS = {p: mk(p) for p in F}
