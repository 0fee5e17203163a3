#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  - decide one property with its TLA+ specification(s).

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: the check could not run.
The work per property is in tools/plan.py; this file is the common machinery."""
import json, os, re, subprocess, sys, time, hashlib, shutil, threading, glob

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, ".build", "target")
BIN = os.path.join(TARGET, "debug", "vharness")

class ToolError(Exception): pass

def sh_env():
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", "source /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, timeout=60).stdout
        for kv in out.split(b"\0"):
            k, _, v = kv.decode(errors="replace").partition("=")
            if k in ("PATH", "HOME", "CARGO_HOME", "RUSTUP_HOME", "RUSTUP_TOOLCHAIN", "JAVA_HOME") and v: e[k] = v
    except Exception: pass
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",): e.pop(k)
    e.pop("RUSTFLAGS", None)
    return e
ENV = sh_env()

class Check:
    ToolError = ToolError
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = os.path.join(ROOT, "work", f"{prop}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations = []
        self.known = self.load_known()
        self.known_hit = {}
        self._build = None
    @property
    def quick(self): return self.tier == "quick"

    # ---------------------------------------------------------------- known findings
    def load_known(self):
        out = []
        p = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.prop: out.append((m.group(2), m.group(3).strip()))
        return out

    # ---------------------------------------------------------------- building
    def start_build(self):
        """Builds the harness (and with it the crate in /repo) in the background."""
        if self._build: return
        def go():
            os.makedirs(TARGET, exist_ok=True)
            self._br = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, capture_output=True, text=True,
                                      env=dict(ENV, CARGO_TARGET_DIR=TARGET), timeout=800)
        self._build = threading.Thread(target=go)
        self._build.start()
    def wait_build(self):
        self.start_build()
        self._build.join()
        r = getattr(self, "_br", None)
        if r is None or r.returncode != 0:
            raise ToolError("harness build failed:\n" + (r.stderr[-4000:] if r else "timeout"))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, constants=None, invariants=(), spec="Spec", out=None, workers=8, timeout=800, extra=(), properties=(), heap="8g", tag="", count=True, sample=0, simulate=0, constraint=None, view=None):
        """Checks spec/<module>.tla.  If `out` is given, the spec's OutFile constant is set and the
        emitted (sorted, de-duplicated) records' path is returned."""
        name = module + tag
        cfg = os.path.join(self.work, name + ".cfg")
        outp = os.path.join(self.work, out) if out else ""
        cs = dict(constants or {})
        if out is not None: cs["OutFile"] = '"%s"' % outp
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION {spec}\n")
            if cs: f.write("CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in cs.items()))
            for i in invariants: f.write(f"INVARIANT {i}\n")
            for i in properties: f.write(f"PROPERTY {i}\n")
            if view: f.write(f"VIEW {view}\n")
            if constraint: f.write(f"CONSTRAINT {constraint}\n")
            f.write("CHECK_DEADLOCK FALSE\n")
        meta = os.path.join(self.work, "states-" + name)
        cmd = ["tlc", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-seed", str(self.seed), *extra, os.path.join(ROOT, "spec", module + ".tla")]
        if simulate: cmd[1:1] = ["-simulate", f"num={simulate // workers}", "-depth", "100"]
        t = time.time()
        r = subprocess.run(cmd, cwd=self.work, capture_output=True, text=True, timeout=timeout, env=dict(ENV, JAVA_TOOL_OPTIONS=f"-Xmx{heap} -Xss64m"))
        shutil.rmtree(meta, ignore_errors=True)
        o = r.stdout
        open(os.path.join(self.work, name + ".tlc.log"), "w").write(o + r.stderr)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", o)
        st = tr = 0
        sim = re.findall(r"([\d,]+) states checked", o) if simulate else []
        if sim: st = tr = int(sim[-1].replace(",", ""))
        if m: tr, st = (int(x.replace(",", "")) for x in m[-1])
        if count: self.states += st; self.transitions += tr
        res = {"ok": r.returncode == 0 and ("No error has been found" in o or (simulate and "Error" not in o)), "states": st, "generated": tr, "log": o, "secs": time.time() - t, "path": outp}
        self.notes.setdefault("tlc", []).append({"module": module, "constants": {k: v for k, v in cs.items() if k != "OutFile"}, "distinct_states": st, "states_generated": tr, "secs": round(time.time() - t, 1)})
        if outp and os.path.exists(outp):
            ls = sorted(set(open(outp).read().splitlines()))
            open(outp, "w").write("\n".join(ls) + "\n")
            if sample and len(ls) > sample:
                ls = sorted(sorted(ls, key=lambda l: hashlib.md5((str(self.seed) + l).encode()).digest())[:sample])
                open(outp, "w").write("\n".join(ls) + "\n")
            res["n"] = len(ls)
        return res
    def model(self, module, **kw):
        """Model checking of the specification itself; it does not depend on the code, so a
        violation here is an error of the check."""
        r = self.tlc(module, **kw)
        if not r["ok"]: raise ToolError(f"TLC on {module}: " + r["log"][-3000:])
        if kw.get("out") and not r.get("n"): raise ToolError(f"{module} generated nothing")
        return r

    # ---------------------------------------------------------------- harness
    def harness(self, cmd, inp="", out="out.json", timeout=800, args=()):
        self.wait_build()
        outp = os.path.join(self.work, out)
        t = time.time()
        try:
            r = subprocess.run([BIN, cmd, inp, outp, *map(str, args)], cwd=self.work, capture_output=True, text=True, timeout=timeout,
                               env=dict(ENV, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, **{k: v for k, v in os.environ.items() if k.startswith("BLOCK_")}))
        except subprocess.TimeoutExpired as e:
            raise ToolError(f"harness {cmd} timed out")
        if r.returncode != 0 or not os.path.exists(outp):
            if "no port to listen on" in r.stderr: raise ToolError("no port")
            return {"crash": r.returncode, "stderr": r.stderr[-3000:]}
        j = json.load(open(outp))
        self.notes.setdefault("harness", []).append({"cmd": cmd, "secs": round(time.time() - t, 1), **{k: v for k, v in j.items() if isinstance(v, (int, float))}})
        return j

    # ---------------------------------------------------------------- reporting
    def violation(self, what, data, key=None):
        if key:
            for k, text in self.known:
                if k == key:
                    self.known_hit.setdefault(k, text)
                    return
        d = os.path.join(ROOT, "work", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
        json.dump({"property": self.prop, "what": what, "data": data}, open(p, "w"), indent=1)
        self.violations.append((what, p))
    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)

    def finish(self, level):
        for k, text in self.known_hit.items(): print(f"KNOWN-FINDING: property={self.prop} {text}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "samples": self.samples or ["-"], "evaluations": self.evals, **self.notes}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for f in glob.glob(os.path.join(self.work, "*.ndjson")):
            if os.path.getsize(f) > 20_000_000: os.remove(f)
        for what, p in self.violations[:10]:
            print(f"VIOLATION property={self.prop} replay={p}")
            print("   " + what[:600])
        if self.violations: return 1
        print(f"OK property={self.prop} tier={self.tier} states={self.states} traces={self.traces} evaluations={self.evals} wall={ev['wall_s']}s")
        return 0

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import plan
    if prop not in plan.PLAN:
        print("unknown property", prop); return 2
    c = Check(prop, tier)
    try:
        c.start_build()
        level = plan.PLAN[prop](c) or "model_checking"
        c.wait_build()
        return c.finish(level)
    except ToolError as e:
        # a violation already established stands even if a later stage could not run
        if c.violations: return c.finish("model_checking")
        print("ERROR", e); return 2
    except subprocess.TimeoutExpired as e:
        if c.violations: return c.finish("model_checking")
        print("ERROR timeout", e); return 2
    finally:
        if c._build: c._build.join()

if __name__ == "__main__": sys.exit(main())
