from vp import build

def h01(c):
    b = build("core")
    c.model_check("lite", "MCHttpClient", "MCHttpClient_big.cfg" if c.thorough else None)
    s = c.generate("lite", "MCHttpClient", "GenHttpClient", limit=None if c.thorough else 5000)
    tr = [c.drive(b, "http", "all", script=s), c.drive(b, "http", "rnd", seed=c.seed, n=20000 if c.thorough else 1500)]
    c.validate("lite", "TraceHttpClient", tr, {"*": []})
    c.assumptions += ["fewer than 2^32 requests are made between a request and its answer (the identifier counter wraps there)"]

def k01(c):
    b = build("core")
    c.model_check("lite", "MCBase16", "MCBase16_big.cfg" if c.thorough else None)
    tr = [c.drive(b, "base16", "keys", seed=c.seed, n=3000 if c.thorough else 400, len=7 if c.thorough else 5)]
    c.validate("lite", "TraceBase16", tr, {"*": ["v", "v1", "text", "bytes", "usable", "name", "length", "fresh", "stable"]})
    c.assumptions += ["HKDF and AES-256-GCM-SIV are ideal: a sealed name opens under the key it was sealed under and no other"]

CHECKS = {"H01": h01, "K01": k01}
