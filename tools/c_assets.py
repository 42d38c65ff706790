from vp import build

F = {"D01": {"*": [], "Add": ["res", "contents"], "Get": ["asset"]},
     "D02": {"*": [], "Add": ["opts", "contents"], "Get": ["asset"]}}

def mk(pid):
    def f(c):
        b = build("core")
        c.model_check("assets", "MCAssets")
        if c.thorough:
            c.model_check("assets", "MCAssets", "MCAssets_big.cfg")
        s = c.generate("assets", "MCAssets", "GenAssets", simulate=1000 if c.thorough else 100, depth=40, limit=40000 if c.thorough else 3000)
        tr = [c.drive(b, "assets", "sim", script=s), c.drive(b, "assets", "rnd", seed=c.seed, n=30000 if c.thorough else 4000)]
        c.validate("assets", "TraceAssets", tr, F[pid])
        c.assumptions += ["SHA-512 is collision free"]
    return f

CHECKS = {p: mk(p) for p in F}
