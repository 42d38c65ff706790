from vp import build

# what is judged of a step, per property
FIELDS = {
    "G01": ["life", "busy", "bye"],
    "G02": ["keys", "frame"],
    "G03": ["keys", "frame"],
    "G04": ["frame", "devs", "reacts"],
    "G05": ["devs", "muted", "mutes", "wire"],
    "G06": ["hands", "reacts", "wire"],
    "G07": ["rates", "wire"],
    "G08": ["peeks"],
    "G10": ["life", "peeks", "ring", "wire"],
}

def group(n):
    pid = f"G{n:02}"
    def check(c):
        b = build("core")
        c.model_check("group", "MCGroup", "MCGroup_big.cfg" if c.thorough else None)
        c.model_check("group", "MCGroup", "MCGroupIn_big.cfg" if c.thorough else "MCGroupIn.cfg")
        s = c.generate("group", "MCGroup", "GenGroup", simulate=6000 if c.thorough else 640, depth=120, seed=c.seed * 100 + n)
        tr = c.drive(b, "group", "rnd", script=s, seed=c.seed, timeout=600, threads=128)
        c.validate("group", "TraceGroup", tr, {"*": FIELDS[pid]})
        c.assumptions += ["a call is joined at most once and only after connecting; a device's number is not reused for another user",
                          "pushed participant lists name group members only", "one remote mute request is answered before the next comes"]
    return check

CHECKS = {f"G{n:02}": group(n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 10)}
