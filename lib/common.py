"""Building, running TLC and the harness, and reporting."""
import json
import os
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
TARGET = os.path.join(HERE, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself does not work: neither a pass nor a violation."""


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise Broken(f"timeout of {timeout} s: {' '.join(map(str, cmd))[:200]}")


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.start = time.time()
        self.work = os.path.join(HERE, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        self.states = self.transitions = 0
        self.traces = 0
        self.models = []
        self.violations = []
        self.samples = []
        self.evaluations = 0
        self.nontrivial = set()
        self.rule = ""
        self.notes = {}
        self.level = "model_checking"
        self.assumptions = []

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.work, name)

    # ---------------------------------------------------------------- building
    def cargo(self, crate, binary, timeout=800, **extra):
        """Builds a crate of /verif against /repo's working tree."""
        target = os.path.join(TARGET, crate)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", **extra)
        r = run(["cargo", "build", "--offline", "--locked"], timeout, cwd=os.path.join(HERE, crate), env=env)
        if r.returncode != 0:
            raise Broken("the harness does not build:\n" + r.stderr[-3000:])
        return os.path.join(target, "debug", binary)

    def vs(self):
        """Builds the harness of the VapourSynth decoder. It defines the functions of VapourSynth itself, so
        that the libraries which the bindings link with are empty."""
        where = os.path.join(TARGET, "vslib")
        os.makedirs(where, exist_ok=True)
        for name in ("vapoursynth", "vapoursynth-script"):
            lib = os.path.join(where, f"lib{name}.a")
            if not os.path.exists(lib) and run(["ar", "rcs", lib], 60).returncode != 0:
                raise Broken("ar failed")
        return self.cargo("vsharness", "avm-vsharness", VAPOURSYNTH_LIB_DIR=where, RUSTFLAGS="--cap-lints=allow")

    def tool(self, features=(), timeout=800):
        """Builds the command line tool of /repo."""
        target = os.path.join(TARGET, "tool")
        cmd = ["cargo", "build", "--offline", "--locked", "-p", "av-metrics-tool", "--target-dir", target]
        r = run(cmd, timeout, cwd="/repo")
        if r.returncode != 0:
            raise Broken("av-metrics-tool does not build:\n" + r.stderr[-3000:])
        return os.path.join(target, "debug", "av-metrics-tool")

    def ffgen(self):
        """Builds the encoder of test videos."""
        out = os.path.join(TARGET, "ffgen")
        src = os.path.join(HERE, "ffgen", "ffgen.c")
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            os.makedirs(TARGET, exist_ok=True)
            flags = run(["pkg-config", "--cflags", "--libs", "libavcodec", "libavformat", "libavutil"], 60).stdout.split()
            r = run(["gcc", "-O1", "-o", out, src, *flags], 120)
            if r.returncode != 0:
                raise Broken("ffgen does not build:\n" + r.stderr[-2000:])
        return out

    def java(self):
        out = os.path.join(TARGET, "classes")
        src = os.path.join(SPEC, "java", "AvmOverrides.java")
        done = os.path.join(out, "avm", "AvmOverrides.class")
        if not os.path.exists(done) or os.path.getmtime(done) < os.path.getmtime(src):
            os.makedirs(out, exist_ok=True)
            r = run(["javac", "-cp", JARS.split(":")[0], "-d", out, src], 120)
            if r.returncode != 0:
                raise Broken("javac: " + r.stderr[-2000:])
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, args=(), env=None, timeout=600, workers=1, mem="3g", tag=""):
        name = f"{module}{tag}"
        cfgfile = self.path(name + ".cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        meta = self.path("states-" + name)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m",
               "-cp", f"{self.java()}:{JARS}", f"-DTLA-Library={SPEC}",
               "-Dtlc2.overrides.TLCOverrides=avm.AvmOverrides:tlc2.overrides.TLCOverrides",
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfgfile, *args, os.path.join(SPEC, module + ".tla")]
        r = run(cmd, timeout, cwd=self.work, env=dict(os.environ, **(env or {})))
        shutil.rmtree(meta, ignore_errors=True)
        return r

    def model(self, module, cfg, expect_violation=None, timeout=800, mem="8g"):
        """Checks a design specification exhaustively. With expect_violation, the defect it
        describes must be found: the specification is strong enough to see it."""
        tag = "-" + str(len(self.models))
        r = self.tlc(module, cfg, workers=8, timeout=timeout, mem=mem, tag=tag)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace("\n", " "))
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if expect_violation:
            if not re.search(expect_violation, out):
                raise Broken(f"{module}: the known defect was not found\n{out[-2000:]}")
            self.models.append({"module": module, "expected": expect_violation, "found": True})
            return
        if "Model checking completed. No error has been found." not in out:
            raise Broken(f"{module} does not satisfy its properties:\n{out[-4000:]}")
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "distinct_states": dist, "states_generated": gen})

    def generate(self, module, cfg, depth, timeout=300, tag="", seed=0):
        """Scenarios which the module prints along one random behaviour."""
        r = self.tlc(module, cfg, ["-deadlock", "-simulate", "num=1", "-depth", str(depth),
                                   "-seed", str(self.seed * 1000003 + seed)], timeout=timeout, tag="-gen" + tag)
        scen = []
        for line in r.stdout.splitlines():
            if line.startswith('"@@SCEN '):
                scen.append(json.loads(json.loads(line)[7:]))
        if not scen or "Error:" in r.stdout:
            i = r.stdout.find("Error:")
            raise Broken(f"{module} generated {len(scen)} scenarios:\n{r.stdout[max(0, i):][:3000]}{r.stderr[-500:]}")
        return scen

    # ---------------------------------------------------------------- the real code
    def record(self, exe, mode, scenarios, timeout=600, crashed=None, tag="", env=None):
        """Runs scenarios in the harness. If the process itself dies or does not answer, the
        scenario in progress gets the trace `crashed(scenario)`."""
        traces, todo, deaths = [], list(scenarios), 0
        while todo and deaths < 3:
            sfile, tfile = self.path(f"scenarios{tag}.json"), self.path(f"traces{tag}.jsonl")
            with open(sfile, "w") as f:
                json.dump(todo, f)
            try:
                p = subprocess.run([exe, mode, sfile, tfile], timeout=timeout, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, text=True, errors="replace", cwd=self.work,
                                   env=dict(os.environ, **(env or {})))
                code, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                code, err = "timeout", ""
            got = []
            if os.path.exists(tfile):
                with open(tfile) as f:
                    for line in f:
                        if line.endswith("\n"):
                            got.append(json.loads(line))
                os.remove(tfile)
            traces += got
            if code == 0:
                break
            deaths += 1
            if len(got) >= len(todo):
                break
            if crashed is None or code == 101:
                raise Broken(f"harness ended with {code} after {len(got)} of {len(todo)} scenarios: {err[-1500:]}")
            traces.append(crashed(todo[len(got)]))
            todo = todo[len(got) + 1:]
        return traces

    def validate(self, module, cfg, traces, describe=None, shards=8, timeout=800, events="ev"):
        """Checks traces against a trace specification, in several processes."""
        if not traces:
            raise Broken("no traces")
        shards = min(shards, len(traces))
        # Spread the expensive ones
        order = sorted(range(len(traces)), key=lambda k: -len(json.dumps(traces[k])))
        parts = [[] for _ in range(shards)]
        for n, k in enumerate(order):
            lap, pos = divmod(n, shards)
            parts[pos if lap % 2 == 0 else shards - 1 - pos].append(k)
        parts = [p for p in parts if p]
        base = len([m for m in os.listdir(self.work) if m.startswith("shard")])
        self.java()

        def one(n):
            f = self.path(f"shard{base + n}.json")
            with open(f, "w") as out:
                json.dump([traces[k] for k in parts[n]], out)
            r = self.tlc(module, cfg, ["-deadlock"], env={"TRACES": f}, timeout=timeout, tag=f"-{base + n}")
            return r

        rejected = []
        with ThreadPoolExecutor(shards) as ex:
            for n, r in enumerate(ex.map(one, range(len(parts)))):
                st = re.search(r'<<"@@STATS", (\d+), (\d+), (\d+)>>', r.stdout)
                inv = re.search(r"Invariant (\w+) is violated", r.stdout)
                if not st or int(st.group(1)) != len(parts[n]) or "Error:" in r.stdout:
                    if not inv:
                        i = r.stdout.find("Error:")
                        raise Broken(f"{module}: no verdict\n{r.stdout[max(0, i):][:3000]}\n{r.stderr[-500:]}")
                    raise Broken(f"{module}: {inv.group(0)} in a trace\n{r.stdout[-3000:]}")
                self.states += int(st.group(2))
                self.transitions += int(st.group(3))
                for m in re.findall(r'"@@REJECTED \[(\d+),(\d+)\]"', r.stdout):
                    rejected.append((parts[n][int(m[0]) - 1], int(m[1]) - 1))
        self.traces += len(traces) - len(rejected)
        self.evaluations += len(traces)
        for k, at in sorted(rejected):
            t = traces[k]
            ev = t.get(events, [])
            what = describe(t, at) if describe else ""
            self.violation({"trace": t, "first_event_not_allowed": at, "event": ev[at] if at < len(ev) else None,
                            "specification": module, "what": what})
        return rejected

    # ---------------------------------------------------------------- reporting
    def violation(self, detail):
        d = os.path.join(self.work, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump(detail, f, indent=1)
        self.violations.append(path)

    def sample(self, s, n=3):
        if len(self.samples) < n:
            self.samples.append(s)

    def finish(self):
        for p in self.violations[:5]:
            with open(p) as f:
                what = json.load(f).get("what", "")
            if what:
                print(f"{self.prop}: {str(what)[:600]}")
            print(f"VIOLATION property={self.prop} replay={p}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule,
            "samples": self.samples,
            "models": self.models,
        }
        cov.update(self.notes)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
                       "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.start, 1), "violations": len(self.violations)}, f, indent=1)
        if not self.violations:
            # Keep what a violation needs only
            shutil.rmtree(self.work, ignore_errors=True)
            print(f"{self.prop}: {self.traces} traces accepted, {self.states} states, "
                  f"{time.time() - self.start:.1f} s")
        return 1 if self.violations else 0
