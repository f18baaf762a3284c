"""Shared machinery of the checks: building the code under test, running the
harness and the tools, running TLC, reporting."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TELDA_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """Something other than the code under test went wrong."""


def cargo_env():
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env.setdefault("CARGO_HOME", "/root/.cargo")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("RUSTFLAGS", None)
    return env


def _cargo(args):
    for attempt in (0, 1):
        p = subprocess.run(["cargo"] + args, env=cargo_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 0:
            return
        time.sleep(1)
    raise ToolError("cargo failed:\n" + p.stdout[-4000:])


def build_harness():
    _cargo(["build", "--offline", "--manifest-path", os.path.join(ROOT, "harness/Cargo.toml"),
            "--target-dir", os.path.join(BUILD, "harness")])
    return os.path.join(BUILD, "harness/debug/vh")


def build_bins():
    _cargo(["build", "--offline", "--bins", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
            "--target-dir", os.path.join(BUILD, "repo")])
    return os.path.join(BUILD, "repo/debug")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.violations = 0
        self.scratch = tempfile.mkdtemp(prefix="telda-%s-" % prop)
        self._vh = None
        self._bins = None

    def rng(self, label):
        return random.Random("%s/%s/%d" % (self.prop, label, self.seed))

    @property
    def vh(self):
        if self._vh is None:
            self._vh = build_harness()
        return self._vh

    @property
    def bins(self):
        if self._bins is None:
            self._bins = build_bins()
        return self._bins

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- reporting -------------------------------------------------------
    def violation(self, what, data):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, self.violations))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "what": what, "data": data},
                      f, indent=1, default=str)
        self.violations += 1
        print("%s: %s" % (self.prop, what))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def evidence(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples, "parts": self.parts,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": self.violations,
        }
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    # ---- harness ---------------------------------------------------------
    def harness(self, mode, cases, timeout=600):
        """cases: list of dicts of tokens (with id).  Returns the output lines (JSON text).
        A death or hang of the process is a violation naming the case it happened on."""
        text = "".join(" ".join("%s=%s" % kv for kv in c.items()) + "\n" for c in cases)
        p = subprocess.Popen([self.vh, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, cwd=self.scratch)
        try:
            out, err = p.communicate(text.encode(), timeout=timeout)
            died = p.returncode != 0
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            died = True
        self.output = out.decode("utf-8", "replace")
        lines = self.output.split("\n")
        lines = [l for l in lines if l.endswith("}")]
        if p.returncode == 2 and b"unknown mode" in err:
            raise ToolError(err.decode())
        if died or len(lines) != len(cases):
            c = cases[len(lines)] if len(lines) < len(cases) else None
            self.violation("the code under test ended or hung the process (status %s)" % p.returncode,
                           {"mode": mode, "case": c, "stderr": err.decode("utf-8", "replace")[-2000:]})
        return lines

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, timeout=780, workers=8, label=None, extra=(), xmx=None):
        """Runs TLC; returns (ok, output)."""
        run = tempfile.mkdtemp(dir=self.scratch)
        cfgp = os.path.join(run, "run.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Xss64m"] + (["-Xmx" + xmx] if xmx else ["-Xmx12g"]) + [
               "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + run,
               "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-deadlock",
               "-noGenerateSpecTE", "-metadir", os.path.join(run, "states"),
               "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, cwd=run, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise ToolError("TLC timed out on %s" % module)
        out = p.stdout
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        part = self.parts.setdefault(label or module, {"states": 0, "transitions": 0, "wall_s": 0})
        part["states"] += dist
        part["transitions"] += gen
        part["wall_s"] = round(part["wall_s"] + time.time() - t, 1)
        if p.returncode == 0 and "Model checking completed. No error has been found." in out:
            return True, out
        if p.returncode in (10, 11, 12, 13) or "is violated" in out or "MISMATCH" in out:
            return False, out
        raise ToolError("TLC failed on %s (%d):\n%s" % (module, p.returncode, out[-6000:]))

    def validate(self, module, lines, cases=None, env=None, invariants=("Conforms",), label=None,
                 timeout=780, xmx=None, spec="Spec", count=True, extra_cfg=""):
        """Trace validation: lines (JSON texts) against the trace specification."""
        if not lines:
            raise ToolError("no traces for %s" % module)
        path = os.path.join(tempfile.mkdtemp(dir=self.scratch), "trace.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        cfg = "SPECIFICATION %s\n%s%s" % (spec, "".join("INVARIANT %s\n" % i for i in invariants), extra_cfg)
        ok, out = self.tlc(module, cfg, dict(env or {}, TRACE=path), label=label, timeout=timeout, xmx=xmx)
        if count:
            self.traces += len(lines)
        pp = self.parts[label or module]
        pp["cases"] = pp.get("cases", 0) + len(lines)
        self.sample(clip(json.loads(lines[0])))
        if not ok:
            m = re.search(r'<<\s*"MISMATCH",.*?(?=\nError:|\nThe |\nProgress|\Z)', out, re.S)
            what = re.sub(r"\s+", " ", m.group(0)) if m else "invariant violated"
            cid = re.search(r'"MISMATCH",\s*"([^"]*)"', what)
            case = line = None
            if cid:
                for l in lines:
                    if json.loads(l).get("id") == cid.group(1):
                        line = json.loads(l)
                for c in cases or []:
                    if c.get("id") == cid.group(1):
                        case = c
            self.violation("%s rejects an observed behaviour: %s" % (module, what[:1500]),
                           {"case": case, "observed": line, "tlc": out[-5000:] if not m else what[:5000]})
        return ok

    def model(self, module, invariants, env=None, constants="", properties=(), label=None, timeout=780,
              spec="Spec", extra_cfg="", extra=()):
        """Model checking of a specification by itself: a failure is an error of the check,
        since the code is not involved."""
        cfg = "SPECIFICATION %s\n%s%s%s%s" % (
            spec, constants, "".join("INVARIANT %s\n" % i for i in invariants),
            "".join("PROPERTY %s\n" % i for i in properties), extra_cfg)
        ok, out = self.tlc(module, cfg, env, label=label or module, timeout=timeout, extra=extra)
        if not ok:
            raise ToolError("the specification %s does not have the property:\n%s" % (module, out[-6000:]))
        return out


def clip(v, n=24):
    if isinstance(v, list):
        return [clip(x, n) for x in v[:n]] + (["..."] if len(v) > n else [])
    if isinstance(v, dict):
        return {k: clip(x, n) for k, x in v.items()}
    if isinstance(v, str) and len(v) > 400:
        return v[:400] + "..."
    return v


def run_check(prop, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    c = Check(prop, tier, seed)
    try:
        fn(c)
        c.evidence()
        code = 1 if c.violations else 0
        if not code:
            print("%s: held (%d states, %d transitions, %d traces, %.0f s)"
                  % (prop, c.states, c.transitions, c.traces, time.time() - c.t0))
    except ToolError as e:
        c.evidence()
        print("%s: check failed to run: %s" % (prop, e))
        code = 1 if c.violations else 2
    finally:
        c.close()
    sys.exit(code)
