#!/usr/bin/env python3
"""Decides one property of dfinity/response-verification with its TLA+ specification.

usage: check.py <property> [quick|thorough]
       check.py --setup

Every check: (1) TLC explores the design model(s) of the property; (2) the harness (built
against /repo's working tree) replays scenarios that TLC enumerated and its own seeded
inputs and histories against the real code and records what it observed; (3) TLC validates
every recorded run against the specification.  exit 0: held; exit 1 with a VIOLATION line:
broken; exit 2: the machinery itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
CLASSES = os.path.join(BUILD, "classes")
HARNESS = os.path.join(ROOT, "harness")
VH = os.path.join(HARNESS, "target", "debug", "vh")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = "/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN  # noqa: E402


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def sh(cmd, timeout, cwd=ROOT, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


# ---------------------------------------------------------------- building
def build_classes():
    src = os.path.join(SPEC, "java", "Prim.java")
    dst = os.path.join(CLASSES, "Prim.class")
    if os.path.exists(dst) and os.path.getmtime(dst) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    rc, out = sh(["javac", "-cp", TLA, "-d", CLASSES, src], 120)
    if rc != 0:
        raise ToolError("javac failed:\n" + out)


def build_harness():
    rc, out = sh(["cargo", "+1.78.0", "build", "--offline", "--locked"], 840, cwd=HARNESS,
                 env={"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    if rc != 0:
        raise ToolError("the harness does not build against /repo:\n" + out[-6000:])


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, cfg, env=None, real_hash=True, timeout=600, workers=8, extra=()):
    meta = os.path.join(BUILD, "tlc", f"{os.getpid()}-{module}-{time.monotonic_ns()}")
    os.makedirs(meta, exist_ok=True)
    cp = [TLA, COMMUNITY] + ([CLASSES] if real_hash else [])
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss512m", "-Djava.io.tmpdir=" + meta, "-cp", ":".join(cp), "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg,
           *extra, module + ".tla"]
    rc, out = sh(cmd, timeout, cwd=SPEC, env=env)
    shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.rc, r.out = rc, out
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r.transitions, r.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.ok = rc == 0 and "No error has been found" in out
    r.timeout = rc is None
    m = re.search(r"Error: (Invariant|Action property|Temporal properties) ?(\S*)", out)
    r.broken = m.group(0) if m else None
    r.lines = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)]
    r.pos = [int(x) for x in re.findall(r"^(?:/\\ )?i = (\d+)", out, re.M)]
    return r


# ---------------------------------------------------------------- checks
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.dir = os.path.join(BUILD, prop)
        self.states = self.transitions = self.runs = 0
        self.samples, self.parts, self.findings = [], [], []

    def replay_file(self, content):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}.json")
        with open(p, "w") as f:
            json.dump(content, f, indent=1)
        return p

    def num(self, stage, key, default):
        v = stage.get(key, default)
        return v[0 if self.quick else 1] if isinstance(v, (tuple, list)) else v

    # -- one model checked exhaustively
    def model(self, st):
        cfg = self.num(st, "cfg", st["module"] + ".cfg")
        if cfg is None:
            return
        r = tlc(st["module"], cfg, real_hash=st.get("real_hash", True),
                timeout=self.num(st, "timeout", (240, 3600)),
                env={"VH_TRACE": "/dev/null", "VH_OUT": os.path.join(self.dir, "unused")})
        if not r.ok:
            if r.broken:
                # the model is of the design, not of the tree under test
                raise ToolError(f"the model {st['module']} violates its own property: {r.broken}\n{r.out[-3000:]}")
            raise ToolError(f"TLC failed on {st['module']} (rc={r.rc}):\n{r.out[-3000:]}")
        self.states += r.states
        self.transitions += r.transitions
        self.parts.append({"model": st["module"], "config": cfg, "states": r.states,
                           "transitions": r.transitions, "exhaustive": True})

    # -- scenarios enumerated by TLC
    def scenarios(self, st):
        cfg = self.num(st, "scen_cfg", st["scen"] + ".cfg")
        out = os.path.join(self.dir, st["scen"] + ".ndjson")
        if os.path.exists(out):
            os.remove(out)
        extra = []
        if st.get("simulate"):
            n, d = self.num(st, "simulate", None)
            extra = ["-simulate", f"num={n}", "-depth", str(d), "-seed", str(self.seed)]
        r = tlc(st["scen"], cfg, real_hash=st.get("scen_real_hash", True), workers=1 if extra else st.get("scen_workers", 8),
                timeout=self.num(st, "timeout", (240, 3600)), env={"VH_OUT": out}, extra=extra)
        if not (r.ok or (extra and r.rc == 0)):
            raise ToolError(f"TLC failed enumerating {st['scen']} (rc={r.rc}):\n{r.out[-3000:]}")
        self.states += r.states
        self.transitions += r.transitions
        n = 0
        if os.path.exists(out):
            with open(out) as f:
                lines = sorted(set((json.loads(l) + "\n") if l.startswith('"') else l for l in f if l.strip()))
            with open(out, "w") as f:
                f.writelines(lines)
            n = len(lines)
        if n == 0:
            raise ToolError(f"{st['scen']} produced no scenario\n{r.out[-2000:]}")
        self.parts.append({"scenarios": st["scen"], "config": cfg, "count": n,
                           "states": r.states, "transitions": r.transitions})
        return out

    # -- record runs from the real code
    def record(self, st, scen):
        out = os.path.join(self.dir, st["area"] + ".trace.ndjson")
        if os.path.exists(out):
            os.remove(out)
        cmd = [VH, st["area"], "--n", str(self.num(st, "n", (200, 2000))), "--out", out]
        if scen:
            cmd += ["--scen", scen]
        for k, v in (st.get("args") or {}).items():
            cmd += ["--" + k, str(self.num({"v": v}, "v", v))]
        rc, txt = sh(cmd, self.num(st, "timeout", (300, 3600)), env={"VERIF_SEED": str(self.seed)})
        if rc is None:
            raise Violation("the code under test does not terminate",
                            self.replay_file({"property": self.prop, "what": "hang", "command": cmd, "output": txt[-3000:]}))
        if rc == 101:
            raise Violation("the code under test panicked",
                            self.replay_file({"property": self.prop, "what": "panic", "command": cmd, "output": txt[-3000:]}))
        if rc < 0:
            raise Violation(f"the code under test ended the process (signal {-rc})",
                            self.replay_file({"property": self.prop, "what": f"signal {-rc}", "command": cmd, "output": txt[-3000:]}))
        if rc != 0 or not os.path.exists(out):
            raise ToolError(f"harness failed (rc={rc}): {txt[-3000:]}")
        return out

    # -- validate them against the specification
    def validate(self, st, trace):
        with open(trace) as f:
            lines = f.read().splitlines()
        if not lines:
            raise ToolError("empty trace " + trace)
        cfg = st.get("trace_cfg", st["trace"] + ".cfg")
        r = tlc(st["trace"], cfg, env={"VH_TRACE": trace, "VH_PROP": self.prop}, real_hash=True,
                timeout=self.num(st, "timeout", (420, 7200)))
        if not r.ok:
            if r.lines and r.rc is not None and r.rc > 0:
                n = r.lines[-1]
                self.diagnose(st, r, lines, n)
            raise ToolError(f"TLC failed on {st['trace']} (rc={r.rc}):\n{r.out[-4000:]}")
        if r.states < len(lines):
            raise ToolError(f"{st['trace']} visited {r.states} states for {len(lines)} runs")
        self.states += r.states
        self.transitions += r.transitions
        self.runs += len(lines)
        kinds = {}
        for l in lines:
            k = re.search(r'"kind":"([^"]*)"', l)
            k = k.group(1) if k else "run"
            kinds[k] = kinds.get(k, 0) + 1
        self.parts.append({"validated": st["trace"], "runs": len(lines), "kinds": kinds,
                           "states": r.states, "transitions": r.transitions})
        for l in (lines[0], lines[len(lines) // 2]):
            if len(self.samples) < 6:
                self.samples.append({"trace": st["trace"], "run": l[:1500]})
        known = known_findings()
        for k in sorted(set(re.findall(r'"FINDING ([^"]*)"', r.out))):
            if k not in known:
                raise Violation(f"{st['trace']}: {k}", self.replay_file({
                    "property": self.prop, "trace_module": st["trace"], "finding": k, "seed": self.seed, "tier": self.tier}))
            if known[k] == self.prop and k not in self.findings:
                self.findings.append(k)

    def diagnose(self, st, r, lines, n):
        if not r.broken and ("OutOfMemory" in r.out or "StackOverflow" in r.out):
            raise ToolError(f"the specification cannot be evaluated on run {n} of {st['trace']}:\n"
                            f"{r.out[:3000]}\n{r.out[-2000:]}\n{lines[n-1][:3000]}")
        # a run that the specification cannot even make sense of is none of its behaviours
        raise Violation(f"{st['trace']}: run {n} is not a behaviour of the specification ({r.broken or 'malformed'})",
                        self.replay_file({
                            "property": self.prop, "trace_module": st["trace"], "line": n,
                            "step": r.pos[-1] if r.pos else None, "broken": r.broken,
                            "seed": self.seed, "tier": self.tier,
                            "run": json.loads(lines[n - 1]), "tlc": r.out[:3000] + "\n...\n" + r.out[-4000:]}))

    def replay_stage(self, st):
        scen = self.scenarios(st) if st.get("scen") else None
        trace = self.record(st, scen)
        self.validate(st, trace)

    def go(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        t0 = time.time()
        status, what, replay = 0, None, None
        plan = PLAN[self.prop]
        try:
            build_classes()
            build_harness()
            for st in plan["stages"]:
                if st.get("thorough_only") and self.quick:
                    continue
                if "area" in st:
                    self.replay_stage(st)
                else:
                    self.model(st)
        except Violation as v:
            status, what, replay = 1, v.what, v.replay
        except ToolError as e:
            print(f"TOOL ERROR ({self.prop}): {e}")
            return 2
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.runs,
                         "samples": self.samples or [{"none": what or ""}], "parts": self.parts},
            "assumptions": plan.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": 1 if status else 0,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if status:
            print(what)
            print(f"VIOLATION property={self.prop} replay={replay}")
        else:
            for k in self.findings:
                print(f"KNOWN-FINDING: property={self.prop} {k}")
            print(f"{self.prop} held: {self.states} states, {self.runs} runs of the real code validated, "
                  f"{ev['wall_s']} s")
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        return status


def known_findings():
    """The defects that are listed instead of repaired: text -> property."""
    out = {}
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m:
                out[m.group(2).strip()] = m.group(1)
    return out


def main():
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1:] == ["--setup"]:
        try:
            build_classes()
            build_harness()
        except ToolError as e:
            print(e)
            return 2
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return Check(prop, tier).go()


if __name__ == "__main__":
    sys.exit(main())
