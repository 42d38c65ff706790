from vp import build

F = {
    "E01": {"*": [], "Encrypt": ["res", "c"], "Decrypt": ["res", "intact"], "Advance": ["c", "sec"], "Announce": ["c", "sec"]},
    "E02": {"*": [], "Encrypt": ["changed"], "Decrypt": ["res", "intact"]},
    "E03": {"*": [], "Encrypt": ["fcgrows", "ksfresh", "changed"], "Burst": ["fcgrows", "ksfresh"], "Fresh": ["fresh"]},
    "E04": {"*": [], "Encrypt": ["c"], "Decrypt": ["res"], "Advance": ["c", "sec"], "Announce": ["c", "sec"], "Fresh": ["fresh"]},
    "E05": {"*": ["stats"], "Report": ["report", "timesok", "stats"], "Decrypt": ["stats", "res"]},
}

def mk(pid):
    def f(c):
        b = build("core")
        c.model_check("crypto", "MCFrameCrypto", "MCFrameCrypto1.cfg")
        if pid in ("E01", "E04") or c.thorough:
            c.model_check("crypto", "MCFrameCrypto")
        if c.thorough:
            c.model_check("crypto", "MCFrameCrypto", "MCFrameCrypto_big.cfg", timeout=500)
        tr = []
        if pid in ("E01", "E02", "E04"):
            for g in ("all", "jump"):
                s = c.generate("crypto", "GenFrameCrypto", f"GenFrameCrypto_{g}", limit=20000 if c.thorough else 5000)
                tr.append(c.drive(b, "crypto", g, script=s))
        s = c.generate("crypto", "GenFrameCrypto", "GenFrameCrypto_sim", simulate=200 if c.thorough else 30, depth=42)
        tr.append(c.drive(b, "crypto", "sim", script=s))
        tr.append(c.drive(b, "crypto", "rnd", seed=c.seed, n=12000 if c.thorough else 1500, len=80))
        tr.append(c.drive(b, "crypto", "long", seed=c.seed + 3, n=300 if c.thorough else 40, len=700))
        if pid == "E03":
            tr.append(c.drive(b, "crypto", "giant", seed=c.seed, giant=1))
        c.validate("crypto", "TraceFrameCrypto", tr, F[pid])
        c.assumptions += ["HKDF, HMAC-SHA256 and AES-CTR are ideal: distinct secrets are modelled as distinct symbols",
                          "contexts are used from one thread, as the API requires"]
    return f

CHECKS = {p: mk(p) for p in F}
