#!/usr/bin/env python3
"""Decides one property: bin/check.py <property> [quick|thorough]   (seed in VERIF_SEED)

Builds /repo's current working tree and the harness into a scratch directory, lets TLC check the property's
model modules, replays what they export on the real code, records calls of the real code and lets TLC validate
them against the specification.  Exit 0: held.  Exit 1: a VIOLATION line.  Anything else: the check itself failed.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN  # noqa: E402

TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JDK = os.environ.get("VP_JDK", "/usr/lib/jvm/java-21-openjdk-amd64")


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, record):
        super().__init__(what)
        self.what, self.record = what, record


def run(cmd, log, env=None, timeout=3600, cwd=None):
    with open(log, "wb") as f:
        p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env={**os.environ, **(env or {})}, timeout=timeout, cwd=cwd)
    return p.returncode


def tail(path, n=25):
    with open(path, errors="replace") as f:
        return "".join(f.readlines()[-n:])


def library_jars():
    want = ["maven-artifact-3.5.2", "antlr4-runtime-4.13.2", "vavr-0.10.4", "vavr-match-0.10.4", "caffeine-2.9.3", "lombok-1.18.34", "commons-lang3-3.5"]
    found = []
    roots = ["/root/.gradle/caches", os.path.expanduser("~/.gradle/caches"), "/root/.m2/repository"]
    for w in want:
        for root in roots:
            hits = [p for p in glob.glob(f"{root}/**/{w}.jar", recursive=True)]
            if hits:
                found.append(sorted(hits)[0])
                break
        else:
            raise CheckError(f"no {w}.jar in the gradle cache")
    return found


def java(tool):
    return os.path.join(JDK, "bin", tool)


def text(codes):
    return "".join(map(chr, codes))


def readable(x):
    """a JSON value of the specification with its texts written out"""
    if isinstance(x, dict):
        if set(x) == {"s", "m"}:
            n = 0
            for limb in reversed(x["m"]):
                n = n * 10000 + limb
            return n * (1 if x["s"] >= 0 else -1)
        return {k: text(v) if k in ("t", "key", "f", "x", "def") and isinstance(v, list) and all(isinstance(c, int) for c in v) else readable(v) for k, v in x.items()}
    if isinstance(x, list):
        return [readable(v) for v in x]
    return x


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = tempfile.mkdtemp(prefix=f"vp_{pid}_")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.stages = []
        self.n = 0

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, name):
        self.n += 1
        return self.path(f"{self.n}_{name}.log")

    # ---- building -------------------------------------------------------
    def build(self):
        jars = ":".join(library_jars())
        cls, hcls = self.path("cls"), self.path("hcls")
        os.makedirs(cls)
        os.makedirs(hcls)
        src = sorted(glob.glob(f"{REPO}/src/main/java/**/*.java", recursive=True))
        log = self.log("javac")
        if run([java("javac"), "-nowarn", "-proc:full", "-g", "-processorpath", jars, "-cp", jars, "-d", cls] + src, log):
            raise CheckError("the repository does not compile:\n" + tail(log))
        res = f"{REPO}/src/main/resources"
        if os.path.isdir(res):
            shutil.copytree(res, cls, dirs_exist_ok=True)
        extra = glob.glob("/opt/veriftools/java/bytecode/*.jar")
        har = sorted(glob.glob(f"{VERIF}/harness/vp/*.java"))
        log = self.log("javac_harness")
        if run([java("javac"), "-nowarn", "-cp", ":".join([cls, jars] + extra), "-d", hcls] + har, log):
            raise CheckError("the harness does not compile:\n" + tail(log))
        self.cp = ":".join([hcls, cls, jars] + extra)
        self.cls, self.hcls, self.jars, self.extra = cls, hcls, jars, extra

    def harness(self, *args, jvm=(), timeout=1800):
        log = self.log("harness_" + args[0])
        rc = run([java("java"), "-XX:+UseParallelGC", "-Xmx8g", *jvm, "-cp", self.cp, "vp.Main", *map(str, args)], log, timeout=timeout)
        if rc:
            raise CheckError(f"harness {args} ended with {rc}:\n" + tail(log))
        with open(log, errors="replace") as f:
            return f.read()

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env, heap="12g", workers=8):
        log, meta = self.log(f"tlc_{module}"), self.path(f"meta{self.n}")
        cmd = [java("java"), f"-Djava.io.tmpdir={self.work}", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-cp", TLA_JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
        rc = run(cmd, log, env=env, cwd=os.path.join(VERIF, "spec"), timeout=6 * 3600)
        shutil.rmtree(meta, ignore_errors=True)
        with open(log, errors="replace") as f:
            out = f.read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.cov["states"] += int(m.group(2))
            i = re.search(r"Finished computing initial states: (\d+) distinct", out)
            self.cov["transitions"] += int(m.group(1)) - (int(i.group(1)) if i else 1)
        return rc, out, (int(m.group(2)) if m else 0)

    def validate(self, trace, label):
        """TLC decides whether every recorded call is a behaviour of the specification"""
        with open(trace) as f:
            lines = f.read().splitlines()
        rc, out, states = self.tlc("Trace", "Trace.cfg", {"VP_TRACE": trace})
        if rc == 0 and "No error has been found" in out:
            self.cov["traces_validated_against_impl"] += len(lines)
            return lines
        m = re.findall(r"event (?:=|\|->) (\d+)", out)
        if "Invariant CallConforms is violated" in out and m:
            e = json.loads(lines[int(m[-1]) - 1])
            spec = re.findall(r"specified (?:=|\|->) (.*)", out)
            raise Violation(f"{label}: the specification does not allow this call", {"kind": "call", "event": e, "specified_tla": (spec or [""])[-1]})
        raise CheckError(f"TLC ended with {rc} on {label}:\n" + out[-3000:])

    # ---- stages ---------------------------------------------------------
    def stage_trace(self, profiles, quick, thorough, batch=24000):
        total = quick if self.tier == "quick" else thorough
        done, part = 0, 0
        while done < total:
            n = min(batch, total - done)
            trace = self.path(f"trace{part}.ndjson")
            self.harness("gen", profiles, self.seed * 1000 + part, n, trace)
            lines = self.validate(trace, f"recorded calls ({profiles})")
            self.sample_calls(lines)
            os.remove(trace)
            done += n
            part += 1
        self.stages.append({"stage": "trace validation of random calls", "profiles": profiles, "calls": done})

    def stage_record(self, mode, quick, thorough, jvm=()):
        """other recording modes of the harness (histories, threads)"""
        size = quick if self.tier == "quick" else thorough
        trace = self.path(f"{mode}.ndjson")
        said = self.harness(mode, self.seed, size, trace, jvm=jvm)
        lines = self.validate(trace, f"recorded {mode}")
        self.sample_calls(lines)
        os.remove(trace)
        info = {}
        for l in said.splitlines():
            if l.startswith("{"):
                info.update(json.loads(l))
        self.stages.append({"stage": f"trace validation of {mode}", "calls": len(lines), **info})

    def stage_threads(self, quick, thorough, procs=6):
        """concurrent histories: recorded under controlled and free schedules, validated against SessionTrace"""
        size = quick if self.tier == "quick" else thorough
        log = self.log("threads")
        outs, ps = [], []
        for i in range(procs):
            out = self.path(f"threads{i}.ndjson")
            outs.append(out)
            f = open(f"{log}.{i}", "wb")
            ps.append(subprocess.Popen([java("java"), "-XX:+UseParallelGC", "-Xmx2g", "-cp", self.cp, "vp.Main", "threads", str(self.seed * 100 + i), str(size), out], stdout=f, stderr=subprocess.STDOUT))
        info, lines = {}, []
        for i, p in enumerate(ps):
            rc = p.wait(timeout=7200)
            if rc:
                raise CheckError(f"harness threads ended with {rc}:\n" + tail(f"{log}.{i}"))
            with open(f"{log}.{i}", errors="replace") as f:
                for l in f:
                    if l.startswith("{"):
                        for k, v in json.loads(l).items():
                            info[k] = info.get(k, 0) + v
            with open(outs[i]) as f:
                lines += f.read().splitlines()
        self.sessions(lines, "recorded concurrent history")
        for l in (lines[0], lines[-1]):
            h = json.loads(l)
            self.cov["samples"].append({"how": h["how"], "events": readable(h["h"])[:12]})
        self.stages.append({"stage": "trace validation of concurrent histories", "distinct_histories": len(lines), **info})

    def sessions(self, lines, label, batch=4000):
        for at in range(0, len(lines), batch):
            part = lines[at:at + batch]
            trace = self.path("sessions.ndjson")
            with open(trace, "w") as f:
                f.write("\n".join(part) + "\n")
            rc, out, states = self.tlc("SessionTrace", "SessionTrace.cfg", {"VP_TRACE": trace})
            if rc == 0 and "No error has been found" in out:
                self.cov["traces_validated_against_impl"] += len(part)
                continue
            m = re.findall(r"event (?:=|\|->) (\d+)", out)
            a = re.findall(r"at (?:=|\|->) (\d+)", out)
            if re.search(r"Invariant (CallConforms|NothingLost) is violated", out) and m:
                raise Violation(f"{label}: not a history the specification allows (event {a[-1] if a else '?'})", {"kind": "history", "at": int(a[-1]) if a else 0, "history": json.loads(part[int(m[-1]) - 1])})
            raise CheckError(f"TLC ended with {rc} on {label}:\n" + out[-3000:])

    def sample_calls(self, lines):
        if len(self.cov["samples"]) < 6 and lines:
            for k in (0, len(lines) // 2, len(lines) - 1):
                e = json.loads(lines[k])
                self.cov["samples"].append({"api": e["api"], "text": text(e["x"]), "default": text(e["def"]), "data": readable(e["data"]), "outcome": readable(e["out"])})

    def stage_grid(self, family, quick, thorough):
        """TLC checks the laws of a family of cases on the specification and writes out their calls; the calls are made on the
        real code and TLC decides whether what it did is what the specification prescribes"""
        module, _, pick = family.partition(":")
        part = quick if self.tier == "quick" else thorough
        out_dir = self.path("vectors")
        os.makedirs(out_dir)
        rc, out, states = self.tlc(module, "Grid.cfg", {"VP_PART": str(part), "VP_SEED": str(self.seed), "VP_OUT": out_dir, "VP_PICK": pick})
        if rc != 0 or "No error has been found" not in out:
            raise CheckError(f"model {family}: the specification breaks its own law:\n" + out[-3000:])
        trace = self.path("replayed.ndjson")
        self.harness("replay", out_dir, self.seed, trace)
        shutil.rmtree(out_dir)
        calls = 0
        for lines in self.batches(trace):
            self.validate(self.write_batch(lines), f"replayed cases of {family}")
            self.sample_calls(lines)
            calls += len(lines)
        os.remove(trace)
        if calls == 0:
            raise CheckError(f"model {family} wrote out no calls")
        self.stages.append({"stage": "laws checked and cases replayed", "module": family, "one_case_in": part, "calls": calls})

    SESSION_LAWS = "OutcomeAlone CacheSound OwnReads NeverStuck"

    def session_cfg(self, mode, flaw="none", export=False, live=False):
        p = self.path(f"session_{mode}_{flaw}_{export}_{live}.cfg")
        with open(p, "w") as f:
            f.write(f'CONSTANTS Mode = "{mode}" Fault = "{flaw}" Export = {str(export).upper()}\nSPECIFICATION {"FairSpec" if live else "Spec"}\n'
                    f'INVARIANTS {self.SESSION_LAWS}{" Exported" if export else ""}\n{"PROPERTY Terminates" if live else ""}\nCHECK_DEADLOCK FALSE\n')
        return p

    def stage_session(self, mode, quick, thorough, live=None):
        """TLC explores callers that share a parser in every order, checks that each call is answered as if alone, and prints the orders;
        they are carried out on the real code, and TLC decides whether the recorded histories are histories of the specification"""
        part = quick if self.tier == "quick" else thorough
        rc, out, states = self.tlc("MC_Session", self.session_cfg(mode, export=True), {"VP_PART": str(part), "VP_SEED": str(self.seed)})
        if rc != 0 or "No error has been found" not in out:
            raise CheckError(f"model MC_Session ({mode}): the specification breaks its own law:\n" + out[-3000:])
        scripts = [json.loads(l)[1:] for l in out.splitlines() if l.startswith('"@')]
        if not scripts:
            raise CheckError("model MC_Session printed no schedule")
        with open(self.path("schedules.ndjson"), "w") as f:
            f.write("\n".join(sorted(set(scripts))) + "\n")
        trace = self.path("replayed_sessions.ndjson")
        said = self.harness("sessions", self.path("schedules.ndjson"), trace)
        with open(trace) as f:
            lines = f.read().splitlines()
        self.sessions(lines, f"replayed schedules ({mode})")
        info = {}
        for l in said.splitlines():
            if l.startswith("{"):
                info.update(json.loads(l))
        h = json.loads(lines[len(lines) // 2])
        self.cov["samples"].append({"how": h["how"], "events": readable(h["h"])[:12]})
        if self.tier == "thorough":
            rc, out, states = self.tlc("MC_Session", self.session_cfg(mode, live=True), {"VP_PART": str(2 * part + 1), "VP_SEED": str(self.seed)})
            if rc != 0 or "No error has been found" not in out:
                raise CheckError(f"model MC_Session ({mode}): not every call ends:\n" + out[-3000:])
            for flaw in ("key", "holder", "data", "partial") if mode == "pairs" else ("key",):
                rc, out, states = self.tlc("MC_Session", self.session_cfg(mode, flaw), {"VP_PART": "7", "VP_SEED": str(self.seed)})
                if not re.search(r"Invariant \w+ is violated", out):
                    raise CheckError(f"model MC_Session ({mode}) does not notice the flaw {flaw}:\n" + out[-3000:])
        self.stages.append({"stage": "shared parsers explored and schedules replayed", "mode": mode, "one_scenario_in": part, "histories": len(lines), **info})

    def batches(self, path, size=60000):
        part = []
        with open(path) as f:
            for l in f:
                part.append(l.rstrip("\n"))
                if len(part) == size:
                    yield part
                    part = []
        if part:
            yield part

    def write_batch(self, lines):
        p = self.path("batch.ndjson")
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        return p

    # ---- verdict --------------------------------------------------------
    def evidence(self, violations):
        self.cov["stages"] = self.stages
        if violations:
            self.cov["violation_cases"] = violations
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov, "violations": len(violations),
              "assumptions": PLAN[self.pid].get("assumes", []), "wall_s": round(time.time() - self.t0, 1)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        tmp = f"{VERIF}/evidence/.{self.pid}.tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, f"{VERIF}/evidence/{self.pid}.json")

    def main(self):
        try:
            self.build()
            for name, *args in PLAN[self.pid]["stages"]:
                kw = args.pop() if args and isinstance(args[-1], dict) and args[-1].get("_kw") else {}
                kw = {k: v for k, v in kw.items() if k != "_kw"}
                t1 = time.time()
                getattr(self, "stage_" + name)(*args, **kw)
                self.stages[-1]["seconds"] = round(time.time() - t1, 1)
        except Violation as v:
            os.makedirs(f"{VERIF}/evidence", exist_ok=True)
            replay = f"{VERIF}/evidence/replay_{self.pid}.json"
            with open(replay, "w") as f:
                json.dump({"property": self.pid, "what": v.what, "seed": self.seed, "tier": self.tier, **v.record, "readable": readable(v.record)}, f, indent=1)
            self.evidence([{"what": v.what, "case": readable(v.record)}])
            print(v.what)
            print(json.dumps(readable(v.record))[:4000])
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        finally:
            if not os.environ.get("VP_KEEP"):
                shutil.rmtree(self.work, ignore_errors=True)
        self.evidence([])
        print(f"property {self.pid} held: {json.dumps({k: v for k, v in self.cov.items() if k not in ('samples',)})} in {time.time() - self.t0:.0f} s")
        return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if pid not in PLAN or tier not in ("quick", "thorough"):
        print("usage: check.py <property> [quick|thorough]")
        return 2
    for fs in glob.glob(f"{VERIF}/evidence/replay_{pid}.json"):
        try:
            os.remove(fs)
        except FileNotFoundError:
            pass
    try:
        return Run(pid, tier, int(os.environ.get("VERIF_SEED", "1"))).main()
    except CheckError as e:
        print("CHECK ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
