"""Runner shared by all checks: builds, TLC generation, replay on the real code, TLC judging, evidence."""
import json, os, re, shutil, subprocess, sys, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
TLA = "/opt/veriftools/tla"
SEED = os.environ.get("VERIF_SEED", "1") or "1"


class ToolError(Exception):
    pass


class CodeFailure(Exception):
    """The code under test ended the replay (abort, endless loop) or its records cannot be read by the specification."""


def sh(cmd, env=None, timeout=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, errors="replace")


def build_java():
    out = os.path.join(BUILD, "java")
    src = os.path.join(SPEC, "java", "VerifOverrides.java")
    cls = os.path.join(out, "VerifOverrides.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(out, exist_ok=True)
    r = sh(["javac", "-cp", TLA + "/tla2tools.jar", "-d", out, src])
    if r.returncode:
        raise ToolError("javac failed:\n" + r.stdout)


HOOKS = True


def build_harness():
    """Builds the harness against /repo's working tree; without the inspection hooks if they no longer compile."""
    global HOOKS
    lock = os.path.join(ROOT, "harness", "Cargo.lock")
    saved = open(lock).read() if os.path.exists(lock) else None
    base = {"CARGO_NET_OFFLINE": "true"}
    last = ""
    try:
        for hooks in (True, False):
            env = dict(base)
            env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target" if hooks else "target-nohooks")
            env["RUSTFLAGS"] = ("--cfg verif_hooks " if hooks else "") + "--cap-lints allow"
            r = sh(["cargo", "build", "--offline"], env=env, cwd=os.path.join(ROOT, "harness"))
            if r.returncode == 0:
                HOOKS = hooks
                return os.path.join(env["CARGO_TARGET_DIR"], "debug", "vh")
            last = r.stdout
    finally:
        if saved is not None and open(lock).read() != saved:
            open(lock, "w").write(saved)
    raise ToolError("harness does not build against /repo:\n" + last[-4000:])


STAT = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found")
SIMSTAT = re.compile(r"The number of states generated: (\d+)")


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "run", "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.stages = []
        self.violations = []
        self.assumptions = []
        self.known = []
        build_java()
        self.vh = build_harness()

    quick = property(lambda self: self.tier == "quick")

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, env=None, cfg=None, simulate=None, depth=None, workers=8, timeout=None, heap="8g", partial=False):
        md = os.path.join(self.work, "md%d" % len(self.stages) + str(time.time()))
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerifOverrides",
               "-cp", ":".join([TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar", BUILD + "/java"]),
               "tlc2.TLC", "-noTE", "-workers", str(workers), "-metadir", md, "-config", cfg or module + ".cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 60), "-seed", SEED]
        else:
            cmd += ["-fp", "7", "-seed", SEED]
        cmd.append(module + ".tla")
        e = {"VERIF_SEED": SEED}
        e.update(env or {})
        t = time.time()
        try:
            r = sh(cmd, env=e, cwd=SPEC, timeout=timeout or (700 if self.quick else None))
        except subprocess.TimeoutExpired as x:
            if not partial:
                raise ToolError("TLC timed out on " + module)
            out = x.stdout or ""                       # what was found until then counts
            out = out.decode("utf-8", "replace") if isinstance(out, bytes) else out
            r = subprocess.CompletedProcess(cmd, 0, out[:out.rfind("\n") + 1], "")
        shutil.rmtree(md, ignore_errors=True)
        out = r.stdout
        m = STAT.findall(out)
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = SIMSTAT.findall(out)
            if m:
                gen = dist = int(m[-1])
        self.states += dist
        self.transitions += gen
        cases, bads, infos = [], [], []
        for line in out.splitlines():
            i = line.find('"CASE ')
            j = line.find('"BAD ')
            k = line.find('"INFO ')
            for pos, tag, dest in ((i, 6, cases), (j, 5, bads), (k, 6, infos)):
                if pos >= 0:
                    try:
                        s = json.loads(line[pos:])
                    except ValueError:
                        s = json.loads(line[pos:line.rindex('"') + 1])
                    dest.append(json.loads(s[tag - 1:]))
        ok = r.returncode == 0 or partial and "OutOfMemory" in out
        self.stages.append({"tlc": module, "mode": "simulate" if simulate else "exhaustive", "states": dist,
                            "seconds": round(time.time() - t, 1), "cases": len(cases), "bad": len(bads)})
        if partial and "Model checking completed" not in out:
            self.stages[-1]["truncated"] = True
        if not ok:
            log = os.path.join(self.work, module + ".tlc.log")
            open(log, "w").write(out)
            head = "\n".join(l for l in out.splitlines() if not l.startswith('"CASE') and not l.startswith("Parsing")
                             and not l.startswith("Semantic"))
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, head[-3000:]))
        return cases, bads, infos

    # ---- replay ----------------------------------------------------------
    def replay(self, cmd, cases, name=None, timeout=None):
        name = name or cmd
        timeout = timeout or (360 if self.quick else 3600)
        a = os.path.join(self.work, name + ".in")
        b = os.path.join(self.work, name + ".out")
        with open(a, "w") as f:
            for c in cases:
                f.write(json.dumps(c, sort_keys=True) + "\n")
        t = time.time()
        with open(os.path.join(self.work, name + ".err"), "w") as err:
            try:
                r = subprocess.run([self.vh, cmd, a, b], stdout=subprocess.DEVNULL, stderr=err, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CodeFailure("the replay '%s' does not come to an end" % cmd)
        if r.returncode:
            text = open(os.path.join(self.work, name + ".err")).read()[-2000:]
            if r.returncode in (-6, -11, -4, -7):      # abort, stack overflow: not -9 (memory)
                raise CodeFailure("the replay '%s' crashed (rc %d): %s" % (cmd, r.returncode, text))
            raise ToolError("replay %s failed (rc %d): %s" % (cmd, r.returncode, text))
        self.stages.append({"replay": cmd, "cases": len(cases), "seconds": round(time.time() - t, 1)})
        self.traces += len(cases)
        return b

    def judge(self, module, path, env=None, **kw):
        e = {"JUDGE_IN": path, "JUDGE_PROP": self.prop}
        e.update(env or {})
        try:
            _, bads, infos = self.tlc(module, env=e, cfg="Judge.cfg", **kw)
        except ToolError as x:
            t = str(x)
            if "OutOfMemory" in t or "timed out" in t or "(rc -" in t or "Error: " not in t or "Parsing or semantic" in t:
                raise
            raise CodeFailure("the recorded behaviour cannot be evaluated by the specification: " + t[-1500:])
        if bads:
            recs = open(path).read().splitlines()
            for b in bads[:20]:
                why = b["bad"]
                self.violations.append({"why": why, "record": json.loads(recs[b["i"] - 1]), "module": module})
        return infos

    def dedupe(self, cases):
        seen, out = set(), []
        for c in cases:
            k = hashlib.sha1(json.dumps(c, sort_keys=True).encode()).digest()
            if k not in seen:
                seen.add(k)
                out.append(c)
        return out

    # ---- result ----------------------------------------------------------
    def finish(self, assumptions, extra=None):
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.traces, "hooks": HOOKS, "stages": self.stages}
        cov.update(extra or {})
        replay = os.path.join(ev, "replay_%s.json" % self.prop)
        if self.violations:
            with open(replay, "w") as f:
                json.dump(self.violations, f, indent=1)
        elif os.path.exists(replay):
            os.remove(replay)
        d = {"property": self.prop, "tier": self.tier, "seed": int(SEED) if SEED.isdigit() else 1, "level": self.level,
             "coverage": cov, "wall_s": round(time.time() - self.t0, 1), "assumptions": assumptions,
             "violations": len(self.violations)}
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for v in self.violations[:5]:
                print("  " + json.dumps(v["why"])[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        print("OK property=%s states=%d traces=%d %.0fs" % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


def failed(prop, tier, text):
    """A violation that prevents the check from going on."""
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, "replay_%s.json" % prop)
    json.dump([{"why": text}], open(replay, "w"), indent=1)
    json.dump({"property": prop, "tier": tier, "seed": int(SEED) if SEED.isdigit() else 1, "level": "model_checking",
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": 0}, "wall_s": 0,
               "assumptions": [], "violations": 1}, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("  " + text[-400:])
    print("VIOLATION property=%s replay=%s" % (prop, replay))
    return 1
