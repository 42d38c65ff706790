from vp import build

PEEK = ["era", "max", "devices", "pending", "creator", "link", "users", "asking", "count"]
JOIN = ["demux", "udp", "tcp", "tls", "hostname", "ufrag", "pwd", "dhe", "creator", "era", "status"]
LINK = ["name", "restrictions", "revoked", "expiration", "key"]
REQUEST = ["requests", "url", "headers", "body", "completions", "outcome"]
WHO = ["devices", "pending", "creator", "users", "asking"]

def answers(c, b):
    c.model_check("sfu", "MCSfu", "MCSfu_big.cfg" if c.thorough else None)
    s = c.generate("sfu", "MCSfu", "GenSfu_big.cfg" if c.thorough else "GenSfu")
    return [c.drive(b, "sfu", "gen", script=s), c.drive(b, "sfu", "rnd", script=s, seed=c.seed, n=60000 if c.thorough else 3000)]

def h02(c):
    b = build("core")
    c.validate("sfu", "TraceSfu", answers(c, b) + [c.drive(b, "sfu", "proof", seed=c.seed, lookups=0, protos=0)],
               {"*": [], "kinds": ["peek", "join"], "Op": REQUEST + PEEK + JOIN, "Proof": ["header"]})

def h03(c):
    b = build("core")
    c.validate("sfu", "TraceSfu", answers(c, b), {"*": [], "kinds": ["read", "create", "update", "delete"], "Op": REQUEST + LINK})

def p01(c):
    b = build("core")
    n = 20 if c.thorough else 1
    c.model_check("sfu", "MCResolver", "MCResolver_big.cfg" if c.thorough else None)
    c.validate("sfu", "TraceSfu", answers(c, b) + [c.drive(b, "sfu", "lookups", seed=c.seed, lookups=150 * n, protos=2000 * n)],
               {"*": [], "kinds": ["peek", "join"], "Op": WHO, "Proto": ["outcome"] + PEEK, "Lookup": ["user"]})

CHECKS = {"H02": h02, "H03": h03, "P01": p01}
