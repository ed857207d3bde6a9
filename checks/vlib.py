"""Shared machinery of the checks: building the harness, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class ToolError(Exception):
    """The check could not do its work (neither held nor broken)."""


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("timed out after %ss: %s" % (timeout, " ".join(cmd)[:200]))


def build(crate, bins=None, profile="release", timeout=800):
    """Builds a harness crate against /repo's working tree; returns the folder of its binaries."""
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(TARGET, crate),
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS="-Awarnings")
    cmd = ["cargo", "build", "--offline", "--locked"]
    if profile == "release":
        cmd.append("--release")
    for b in bins or []:
        cmd += ["--bin", b]
    r = run(cmd, timeout, cwd=os.path.join(VERIF, "harness", crate), env=env)
    if r.returncode:
        log(r.stdout[-6000:])
        raise ToolError("building harness/%s failed" % crate)
    return os.path.join(TARGET, crate, profile)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vchk")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class TlcResult:
    pass


def tlc(module, cfg, scratch, env=None, workers=8, timeout=600, extra=(), heap="8g", out=None):
    """Runs TLC on spec/<module>.tla with the configuration text `cfg`.

    Result: .violated (name of the violated property or None), .states, .distinct,
    .depth, .out (text or path).  Anything but success or a violated property is a ToolError."""
    d = tempfile.mkdtemp(dir=scratch)
    cfgp = os.path.join(d, "m.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    modp = os.path.join(SPEC, module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", TLA_CP, "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
           "-config", cfgp, "-noGenerateSpecTE", *extra, modp]
    outp = out or os.path.join(d, "out.txt")
    t0 = time.time()
    with open(outp, "w") as f:
        try:
            p = subprocess.run(cmd, timeout=timeout, stdout=f, stderr=subprocess.STDOUT,
                               env=e, cwd=os.path.dirname(modp))
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out after %ss on %s" % (timeout, module))
    r = TlcResult()
    r.rc, r.path, r.wall = p.returncode, outp, time.time() - t0
    r.states = r.distinct = r.depth = 0
    r.violated = None
    r.tail = []
    with open(outp, errors="replace") as f:
        for line in f:
            if line.startswith('"CASE '):
                continue
            m = re.match(r"([\d,]+) states generated.*?([\d,]+) distinct states found", line)
            if m:
                r.states, r.distinct = (int(x.replace(",", "")) for x in m.groups())
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                r.depth = int(m.group(1))
            m = re.match(r"Error: (?:Invariant|Temporal property|Action property|property) ?(\S+)? (?:is|was) violated", line)
            if m:
                r.violated = m.group(1) or "property"
            m = re.match(r"Error: (?:The )?(?:PostCondition|[Pp]ost-?condition) (\S+)", line)
            if m or "evaluated to FALSE" in line and "ostcondition" in line.lower():
                r.violated = r.violated or "POSTCONDITION"
            r.tail.append(line.rstrip("\n")[:2000])
            if len(r.tail) > 400:
                del r.tail[:200]
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    if p.returncode != 0 and r.violated is None:
        log("\n".join(r.tail[-60:]))
        raise ToolError("TLC failed (%d) on %s" % (p.returncode, module))
    return r


def cases(path, tag="CASE"):
    """The JSON objects a specification printed with PrintT("CASE " \\o ToJson(..))."""
    pre = '"%s ' % tag
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith(pre):
                yield json.loads(json.loads(line)[len(tag) + 1:])


class Report:
    """Collects what a check did, writes the evidence file and the verdict."""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []

    def model(self, r, what):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.extra.setdefault("models", []).append(
            {"what": what, "distinct": r.distinct, "generated": r.states, "depth": r.depth,
             "wall_s": round(r.wall, 1)})

    def validated(self, n, what):
        self.cov["traces_validated_against_impl"] += n
        self.extra.setdefault("bindings", []).append({"what": what, "n": n})

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s if isinstance(s, str) else json.dumps(s)[:1500])

    def violation(self, what, data):
        if len(self.violations) < int(os.environ.get("VIOLS", "20")):
            self.violations.append({"what": what, "data": data})

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {k: v for k, v in self.cov.items()}
        if not cov["samples"]:
            cov["samples"] = ["(none)"]
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": {**cov, **self.extra},
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions or ["none"],
              "violations": len(self.violations)}
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, self.prop + ".json")
        if os.path.exists(replay):
            os.unlink(replay)
        if self.violations:
            with open(replay, "w") as f:
                json.dump(self.violations, f, indent=1)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for v in self.violations[:5]:
            log("violated:", v["what"], json.dumps(v["data"])[:700])
        if self.violations:
            log("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        log("%s held (%s): %d model states, %d traces/cases of the real code" % (
            self.prop, self.tier, cov["states"], cov["traces_validated_against_impl"]))
        return 0
