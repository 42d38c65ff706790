from vp import build

def k03(c):
    b = build("core")
    c.model_check("keys", "MCKeyAgreement")
    s = c.generate("keys", "MCKeyAgreement", "GenOne")
    s2 = c.generate("keys", "MCKeyAgreement", "GenTwo", simulate=1000 if c.thorough else 100, depth=14,
                    limit=6000 if c.thorough else 500)
    tr = [c.drive(b, "keys", "one", script=s, seed=c.seed, timeout=400),
          c.drive(b, "keys", "two", script=s2, seed=c.seed + 1, timeout=400)]
    c.validate("keys", "TraceKeyAgreement", tr, {"*": []})
    c.assumptions += ["X25519 and HKDF are ideal: distinct secrets, identities and directions give distinct bytes, and nobody "
                      "without one of the two secrets knows the shared one",
                      "identity keys all have the same length", "the media stack is the repository's own simulation of it"]

CHECKS = {"K03": k03}
