"""Runner shared by all checks.

A check = (1) model check the specification with small constants, (2) build the harness from
/repo's working tree and let it drive the real code with stimuli generated by TLC from the
specification and by a seeded random driver, (3) have TLC validate every recorded event against
the specification.  Exit 0: held.  Exit 1: VIOLATION.  Exit 2: the machinery itself failed.
"""
import json, os, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOOLCHAIN = "1.91.1"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def brief(t):
    t = "\n".join(l for l in t.splitlines() if not l.startswith(("Parsing file", "Semantic proc", "Linting of", '"SCRIPT')))
    return t[-2500:]


def build(crate, bins=None, quiet=True):
    """Builds harness/<crate> against /repo's working tree; returns the binary's path."""
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTUP_TOOLCHAIN=TOOLCHAIN,
               CARGO_INCREMENTAL="0", RUSTFLAGS="--cfg vp_hooks -Awarnings")
    env.pop("CARGO_BUILD_RUSTFLAGS", None)
    d = os.path.join(VERIF, "harness", crate)
    pre = os.path.join(d, "prepare.py")
    if os.path.exists(pre):
        r = subprocess.run([sys.executable, pre], capture_output=True, text=True)
        if r.returncode:
            raise ToolError(f"prepare of {crate} failed:\n{r.stdout}{r.stderr}")
        d = r.stdout.strip().splitlines()[-1]
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode:
        raise ToolError(f"build of harness {crate} failed:\n{r.stderr[-6000:]}")
    return os.path.join(TARGET, "debug", f"vp-{crate}")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "out", f"{pid}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "samples": [], "runs": []}
        self.assumptions = []
        self.violations = []
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.dir, name)

    # ---------------------------------------------------------------- TLC
    def _java(self, moddir, cfg, mod, extra, env=None, heap="3g", workers="1", timeout=800, out=None):
        meta = self.path("meta-" + hashlib.md5(repr((cfg, mod, extra, env, time.time_ns())).encode()).hexdigest()[:8])
        gc = "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC"
        cmd = ["java", gc, f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", f"-DTLA-Library={SPEC}/common",
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-config", cfg, "-workers", workers,
               "-metadir", meta] + extra + [mod]
        e = dict(os.environ)
        e.update(env or {})
        try:
            with open(out, "w") as f:
                r = subprocess.run(cmd, cwd=os.path.join(SPEC, moddir), env=e, stdout=f,
                                   stderr=subprocess.STDOUT, timeout=timeout)
            return r.returncode
        except subprocess.TimeoutExpired:
            return -1
        finally:
            shutil.rmtree(meta, ignore_errors=True)

    def model_check(self, moddir, mod, cfg=None, timeout=600, workers=None, need_actions=True):
        """Exhaustive check of the specification itself.  It does not depend on /repo."""
        cfg = cfg or mod + ".cfg"
        name = os.path.basename(cfg)
        out = self.path(f"mc-{name}.log")
        rc = self._java(moddir, cfg, mod + ".tla", [], heap="12g", workers=str(workers or NCPU),
                        timeout=timeout, out=out)
        text = open(out).read()
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", text, re.M)
        if rc != 0 or not m or m[-1][2] != "0":
            raise ToolError(f"model checking {mod} ({cfg}) did not succeed (rc {rc}):\n" + brief(text))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["runs"].append({"model": f"{moddir}/{name}", "distinct_states": dist, "states_generated": gen,
                                 "complete": True})
        log(f"[{self.pid}] model {name}: {dist} states, {gen} transitions")

    def generate(self, moddir, mod, cfg, simulate=None, depth=100, timeout=300, limit=None, seed=None):
        """Scripts (lists of inputs) from TLC: all behaviours of the cfg, or `simulate` random ones."""
        out = self.path(f"gen-{cfg}.log")
        extra = []
        if simulate:
            extra = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed or self.seed)]
        rc = self._java(moddir, cfg + ".cfg", mod + ".tla", extra, heap="6g",
                        workers="1" if simulate else str(NCPU), timeout=timeout, out=out)
        scripts, seen = [], set()
        with open(out) as f:
            for line in f:
                if line.startswith('"SCRIPT '):
                    s = json.loads(line)[7:]
                    if s not in seen:
                        seen.add(s)
                        scripts.append(s)
        if rc != 0 or not scripts:
            raise ToolError(f"generation {mod} ({cfg}) failed (rc {rc}):\n" + brief(open(out).read()))
        os.remove(out)
        if limit and len(scripts) > limit:
            import random
            random.Random(self.seed).shuffle(scripts)
            scripts = scripts[:limit]
        p = self.path(f"script-{cfg}.json")
        with open(p, "w") as f:
            f.write("\n".join(scripts) + "\n")
        log(f"[{self.pid}] generated {len(scripts)} scripts ({cfg})")
        self.cov["runs"].append({"generated_scripts": len(scripts), "from": f"{moddir}/{cfg}.cfg",
                                 "mode": "simulate" if simulate else "all behaviours"})
        return p

    # ---------------------------------------------------------------- driving the real code
    def drive(self, binary, driver, name, timeout=120, env=None, **kw):
        out = self.path(f"trace-{name}.ndjson")
        cmd = [binary, driver, "--out", out]
        for k, v in kw.items():
            if v is not None:
                cmd += [f"--{k}", str(v)]
        e = dict(os.environ)
        e.update(env or {})
        e.setdefault("RUST_BACKTRACE", "0")
        if getattr(self, "hung", False):
            timeout = min(timeout, 30)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            self.hung = True
            self._append_panic(out, "Hang", f"no end within {timeout} s")
            return out
        if r.returncode != 0:
            self._append_panic(out, "Crash", f"exit {r.returncode}: {r.stderr[-1500:]}")
        return out

    @staticmethod
    def _append_panic(out, kind, msg):
        """The code under test hung or took the process down: that is an observation."""
        lines = []
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                lines = [l for l in f if l.endswith("\n") and l.startswith("{")]
        with open(out, "w") as f:
            f.writelines(lines)
            f.write(json.dumps({"ev": "Panic", "obs": {"panic": f"{kind}: {msg}"}}) + "\n")

    # ---------------------------------------------------------------- validation
    def validate(self, moddir, mod, traces, fields, cfg=None, shards=None, max_events=40000, timeout=700,
                 reject_is="violation", heap="3g"):
        """TLC checks each recorded event.  traces: list of ndjson files made of episodes (Reset ...)."""
        lines = []
        for t in ([traces] if isinstance(traces, str) else traces):
            with open(t) as f:
                lines += f.readlines()
        if not lines:
            raise ToolError("empty trace")
        episodes, cur = [], []
        for l in lines:
            if '"ev":"Reset"' in l or '"ev": "Reset"' in l:
                if cur:
                    episodes.append(cur)
                cur = [l]
            else:
                cur.append(l)
        episodes.append(cur)
        # a crash before the first Reset still needs an episode
        if not ('"ev":"Reset"' in episodes[0][0] or '"ev": "Reset"' in episodes[0][0]):
            if len(episodes) == 1:
                msg = json.loads(episodes[0][-1])
                self.violation({"kind": "driver died", "event": msg}, episodes[0])
                return
            episodes[1:2] = [episodes[1] + episodes[0]]
            episodes = episodes[1:]
        nshard = shards or max(1, min(NCPU, (len(lines) + 4999) // 5000))
        nshard = max(nshard, (len(lines) + max_events - 1) // max_events)
        groups = [[] for _ in range(nshard)]
        sizes = [0] * nshard
        for ep in episodes:
            k = sizes.index(min(sizes))
            groups[k].append(ep)
            sizes[k] += len(ep)
        groups = [g for g in groups if g]
        ff = self.path("fields.json")
        json.dump(fields, open(ff, "w"))

        def one(k):
            tf = self.path(f"shard-{mod}-{k}.ndjson")
            with open(tf, "w") as f:
                for ep in groups[k]:
                    f.writelines(ep)
            out = self.path(f"val-{mod}-{k}.log")
            rc = self._java(moddir, cfg or mod + ".cfg", mod + ".tla", [], env={"TRACE": tf, "FIELDS": ff},
                            out=out, timeout=timeout, heap=heap)
            return k, tf, out, rc

        nev = nep = 0
        with ThreadPoolExecutor(NCPU) as ex:
            for k, tf, out, rc in ex.map(one, range(len(groups))):
                text = open(out, errors="replace").read()
                flat = [l for ep in groups[k] for l in ep]
                starts = []
                for ep in groups[k]:
                    starts += [len(starts)] * len(ep)  # start index placeholder
                found = []
                for line in text.splitlines():
                    if line.startswith('"MISMATCH '):
                        found.append(json.loads(json.loads(line)[9:]))
                if rc != 0:
                    m = re.search(r"Invariant (\w+) is violated", text)
                    n = re.search(r"(\d+) states generated", text)
                    if m:
                        d = int(n.group(1)) if n else 1
                        found.append({"line": max(1, d - 1), "ev": "Invariant", "fields": [m.group(1)], "want": m.group(1)})
                    elif "TraceAccepted" in text and "violated" in text.lower() or "Postcondition" in text:
                        m = re.search(r'"REACHED (\d+)"', text)
                        d = re.search(r"depth of the complete state graph search is (\d+)", text)
                        line = int(m.group(1)) if m else int(d.group(1)) if d else 1
                        found.append({"line": line, "ev": "Rejected", "fields": ["rejected"],
                                      "want": "no action of the specification explains this event"})
                    else:
                        raise ToolError(f"trace validation {mod} shard {k} failed (rc {rc}):\n" + brief(text))
                for v in found:
                    ln = min(v["line"], len(flat))
                    # episode containing the line
                    acc = 0
                    for ep in groups[k]:
                        if acc + len(ep) >= ln:
                            break
                        acc += len(ep)
                    self.violation({"kind": "trace not allowed by specification", "spec": f"{moddir}/{mod}",
                                    "step": ln - acc, **v, "event": json.loads(flat[ln - 1])}, ep[:ln - acc])
                nev += len(flat)
                nep += len(groups[k])
                if rc == 0 or found:
                    os.remove(tf)
        self.cov["traces_validated_against_impl"] += nep
        self.cov["events_validated"] += nev
        self.cov["runs"].append({"trace_spec": f"{moddir}/{mod}", "episodes": nep, "events": nev})
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append([json.loads(x) for x in episodes[len(episodes) // 2][:6]])
        log(f"[{self.pid}] validated {nep} episodes, {nev} events against {mod}: {len(self.violations)} violation(s)")

    def violation(self, info, episode):
        key = self.known_key(info)
        if key:
            self.known.append(key)
            return
        self.violations.append((info, episode))

    # ---------------------------------------------------------------- known findings
    def known_key(self, info):
        p = os.path.join(VERIF, "known-findings.json")
        if not os.path.exists(p):
            return None
        for k in json.load(open(p)).get("known", []):
            if k["property"] != self.pid:
                continue
            if all(json.dumps(info.get("event", {}).get(a), sort_keys=True) == json.dumps(b, sort_keys=True)
                   for a, b in k["event"].items()):
                return k["what"]
        return None

    # ---------------------------------------------------------------- finish
    def finish(self, level="model_checking"):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if self.violations:
            for i, (info, ep) in enumerate(self.violations[:5]):
                p = self.path(f"replay-{i}.json")
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "what": info,
                               "episode": [json.loads(x) for x in ep]}, f, indent=1)
                log(f"[{self.pid}] {info.get('ev', info.get('kind'))} step {info.get('step')} fields {info.get('fields')}"
                    f"\n   saw  {json.dumps(info.get('event'))[:600]}\n   want {json.dumps(info.get('want'))[:600]}")
            print(f"VIOLATION property={self.pid} replay={self.path('replay-0.json')}", flush=True)
            return 1
        # traces are large and reproducible from the seed
        for n in os.listdir(self.dir):
            if n.endswith(".ndjson") or n.startswith(("script-", "val-", "gen-", "mc-")):
                os.remove(self.path(n))
        print(f"OK property={self.pid} tier={self.tier} wall={ev['wall_s']}s "
              f"states={self.cov['states']} traces={self.cov['traces_validated_against_impl']}", flush=True)
        return 0
