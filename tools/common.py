"""Shared parts of the checks: building the harness, running TLC, reporting."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    """The check could not be carried out (not a verdict on the code)."""


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        CARGO_TARGET_DIR=TARGET,
    )
    return e


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.dir = os.path.join(BUILD, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(EVID, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.runs = []
        self.violations = []
        self.known = []
        self.notes = {}

    def path(self, name):
        return os.path.join(self.dir, name)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ TLC

    def tlc(self, module, cfg=None, envv=None, workers=CORES, simulate=None, timeout=600, extra=(), heap="6g"):
        """Runs TLC; returns the JSON values the specification printed."""
        meta = self.path("tlc-%s-%d" % (module, len(self.runs)))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + self.dir,
               "-cp", TLC_CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = env()
        e["VERIF_SPEC"] = SPEC
        e.update(envv or {})
        t = time.time()
        out_path = self.path("tlc-%s-%d.out" % (module, len(self.runs)))
        with open(out_path, "wb") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=self.dir, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s ran out of time" % module)
        text = open(out_path, encoding="utf-8", errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        values = []
        for m in re.finditer(r'"\{(?:[^"\\\n]|\\.)*\}"', text):       # (what two workers print can share a line)
            values.append(json.loads(json.loads(m.group(0))))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"The number of states generated: (\d+)", text)
        if simulate and m:
            gen = dist = int(m.group(1))
        ok = rc == 0
        self.runs.append({"module": module, "config": (cfg or module) + ".cfg", "rc": rc, "generated": gen,
                          "distinct": dist, "printed": len(values), "wall_s": round(time.time() - t, 1)})
        self.states += dist
        self.transitions += gen
        self.log("TLC %s: %d states generated, %d distinct, %d lines, rc %d, %.1fs"
                 % (cfg or module, gen, dist, len(values), rc, time.time() - t))
        return ok, values, text

    def tlc_ok(self, *a, **k):
        ok, values, text = self.tlc(*a, **k)
        if not ok:
            i = text.find("Error:")
            raise ToolError("TLC reports an error in the specification:\n" + text[max(0, i - 200):i + 3000])
        return values

    # ---------------------------------------------------------------- verdict

    def violation(self, what, detail):
        """Records a violation; detail goes to the replay file."""
        self.violations.append((what, detail))

    def known_finding(self, text):
        self.known.append(text)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def finish(self, level="model_checking", assumptions=(), **cover):
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["none"],
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        ev["coverage"].update(cover)
        if self.runs:
            ev["coverage"]["explanation"] = json.dumps({"tlc_runs": self.runs, "notes": self.notes})[:20000]
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            rp = os.path.join(EVID, "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump([{"what": w, "detail": d} for w, d in self.violations[:50]], f, indent=1)
            for w, _ in self.violations[:5]:
                self.log("violation:", w)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        self.log("held on everything explored")
        return 0


def write_json(path, v):
    with open(path, "w") as f:
        json.dump(v, f)


def write_lines(path, vs):
    with open(path, "w") as f:
        for v in vs:
            f.write(json.dumps(v))
            f.write("\n")


# ------------------------------------------------------------------- building

class Artifacts:
    def __init__(self):
        self.externs = {}
        self.deps = os.path.join(TARGET, "debug", "deps")
        self.bins = {}


class BuildFailed(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.log = log


def cargo_build(crate="rt", bins=()):
    """Builds a harness crate (and /repo) from the current tree."""
    d = os.path.join(VERIF, "harness", crate)
    cmd = ["cargo", "build", "--offline", "--message-format=json", "--manifest-path", os.path.join(d, "Cargo.toml")]
    for b in bins:
        cmd += ["--bin", b]
    if not bins:
        cmd += ["--lib"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), cwd=d)
    a = Artifacts()
    msgs = []
    for line in p.stdout.decode("utf-8", "replace").splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    a.externs[m["target"]["name"].replace("-", "_")] = f
            if m.get("executable"):
                a.bins[m["target"]["name"]] = m["executable"]
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msgs.append((m["target"]["name"], m["message"]["rendered"]))
    if p.returncode != 0:
        where = msgs[0][0] if msgs else "?"
        log = "\n".join(r for _, r in msgs)[:6000] or p.stderr.decode("utf-8", "replace")[-4000:]
        if where in ("vrt", "rt") or where.startswith("v_"):
            raise BuildFailed("the harness does not compile against the current tree", log)
        raise ToolError("build failed in %s:\n%s" % (where, log))
    return a


def rustc_cmd(a, src, out, externs=("hyperdrive", "vrt"), crate_type="bin", edition="2018", extra=()):
    cmd = ["rustc", "--edition", edition, "--crate-type", crate_type, "--crate-name",
           re.sub(r"\W", "_", os.path.basename(src).rsplit(".", 1)[0]), "--error-format=json", "--cap-lints", "allow",
           "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on",
           "-L", "dependency=" + a.deps, "-o", out]
    for x in externs:
        cmd += ["--extern", "%s=%s" % (x, a.externs[x])]
    for x, path in getattr(a, "more", {}).items():
        cmd += ["--extern", "%s=%s" % (x, path)]
    return cmd + list(extra) + [src]


def rustc_many(jobs, extra_env=None, timeout=600):
    """Runs several rustc commands in parallel; returns [(rc, messages)] in order."""
    e = env()
    e.update(extra_env or {})
    from concurrent.futures import ThreadPoolExecutor

    def one(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)
        msgs = []
        for line in p.stderr.decode("utf-8", "replace").splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                msgs.append({"level": "error", "message": line, "spans": [], "children": [], "rendered": line})
                continue
            if m.get("level", "").startswith("error"):
                msgs.append(m)
        return p.returncode, msgs

    with ThreadPoolExecutor(CORES) as ex:
        return list(ex.map(one, jobs))


def top_line(m, src):
    """The line of the source file an error message is about (through macro expansions)."""
    def outer(sp):
        while sp.get("expansion"):
            nxt = sp["expansion"]["span"]
            if os.path.basename(sp["file_name"]) == os.path.basename(src) and os.path.basename(nxt["file_name"]) != os.path.basename(src):
                break
            sp = nxt
        return sp
    best = None
    for sp in sorted(m.get("spans", []), key=lambda s: not s.get("is_primary")):
        o = outer(sp)
        if os.path.basename(o["file_name"]) == os.path.basename(src):
            best = best or o["line_start"]
    return best


def h8(s):
    return hashlib.sha1(s.encode()).hexdigest()[:8]


def main(run, prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ck = Check(prop, tier, seed)
    try:
        sys.exit(run(ck))
    except ToolError as ex:
        print("TOOL-ERROR:", ex, flush=True)
        sys.exit(2)
    except BuildFailed as ex:
        # The harness declares contexts and routers that follow the rules.
        if prop == "C13" and "#[derive(" in ex.log or prop == "C12" and "derive(RequestContext)" in ex.log.replace("Debug, Clone, ", ""):
            ck.violation("declarations of the harness are refused or do not compile", {"message": ex.log})
            sys.exit(ck.finish())
        print("TOOL-ERROR:", ex, "\n", ex.log, flush=True)
        sys.exit(2)
    except Exception:       # (no verdict, neither a pass nor a violation)
        import traceback
        traceback.print_exc()
        sys.exit(2)
