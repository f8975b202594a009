#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property: model checks the specification, has the specification
generate scenarios, runs these and random ones on the library built from
/repo's working tree, and has TLC judge the recorded calls against the
specification.  Exit 0: held; 1: VIOLATION line printed; 2: could not decide.
"""
import argparse, collections, concurrent.futures as cf, json, os, re, resource
import shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GODEEP_REPO", "/repo")       # override for development only
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
WORKERS = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()

sys.path.insert(0, HERE)
from plans import PLANS  # noqa: E402


def short(e):
    """an event for the evidence file, long lists cut"""
    if isinstance(e, dict):
        return {k: short(v) for k, v in e.items()}
    if isinstance(e, list):
        return [short(v) for v in e[:24]] + ([f"... {len(e) - 24} more"] if len(e) > 24 else [])
    return e


class Undecided(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLANS[prop]
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = 0
        self.model_states = self.model_transitions = 0
        self.kinds = collections.Counter()
        self.parts = []
        self.samples = []
        self.bad = []
        self.exhaustive = False
        self.n = 0

    # ---------------------------------------------------------------- build
    def build(self):
        shutil.copytree(f"{HERE}/spec", f"{self.dir}/spec")
        src = f"{self.dir}/harness"
        shutil.copytree(f"{HERE}/harness", src)
        mod = open(f"{src}/go.mod").read().replace("=> /repo", f"=> {REPO}")
        open(f"{src}/go.mod", "w").write(mod)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off",
                   GOWORK="off", CGO_ENABLED="0", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_="")
        env.setdefault("HOME", "/root")
        self.driver = f"{self.dir}/driver"
        p = subprocess.run(["go", "build", "-o", self.driver, "."], cwd=src, env=env,
                           capture_output=True, text=True)
        if p.returncode:
            raise Undecided("the driver does not build against the tree:\n" + p.stderr[-3000:])
        log("driver built")
        if any(st.get("conform", {}).get("free") for st in self.plan["quick"] + self.plan["thorough"]):
            self.racer = f"{self.dir}/racer"
            p = subprocess.run(["go", "build", "-race", "-o", self.racer, "."], cwd=src, capture_output=True,
                               text=True, env=dict(env, CGO_ENABLED="1"))
            if p.returncode:
                self.racer = self.driver
            log("driver built with the race detector" if not p.returncode else
                "NO race detector here: " + p.stderr[-300:])

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env, workers=1, heap="2g", timeout=1500, xss="64m"):
        with self.lock:
            self.n += 1
            meta = f"{self.dir}/tlc{self.n}"
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, f"-Xmx{heap}", f"-Xss{xss}", f"-Djava.io.tmpdir={self.dir}", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", meta, "-config", f"{cfg}.cfg", f"{module}.tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        try:
            p = subprocess.run(cmd, cwd=f"{self.dir}/spec", env=e, capture_output=True, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Undecided(f"TLC on {module} took more than {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    # ---------------------------------------------------------------- stages
    def model(self, st):
        rc, out = self.tlc(st["module"], st.get("cfg", st["module"]), st.get("env", {}),
                           workers=st.get("workers", WORKERS), heap=st.get("heap", "6g"))
        if rc or "Model checking completed. No error has been found." not in out:
            raise Undecided(f"model checking {st['module']} failed ({rc}):\n" + out[-3000:])
        g, d = self.counts(out)
        self.model_transitions += g
        self.model_states += d
        self.parts.append({"model": st["module"], "env": st.get("env", {}), "states": d,
                           "transitions": g, "what": st.get("what", "")})
        log(f"model {st['module']} {st.get('env', {})}: {d} distinct states, no error")

    def generate(self, st):
        path = f"{self.dir}/gen{len(self.parts)}.ndjson"
        env = dict(st.get("env", {}), OUT=path)
        rc, out = self.tlc(st["module"], st.get("cfg", st["module"]), env,
                           workers=st.get("workers", 1), heap=st.get("heap", "6g"))
        if rc:
            raise Undecided(f"generating with {st['module']} failed ({rc}):\n" + out[-3000:])
        if st.get("stdout"):
            with open(path, "w") as f:
                for line in out.splitlines():
                    if line.startswith('"SCRIPT '):
                        f.write(json.loads(line)[7:] + "\n")
        n = sum(1 for _ in open(path))
        if not n:
            raise Undecided(f"{st['module']} generated nothing:\n" + out[-2000:])
        g, d = self.counts(out)
        if st.get("stdout"):
            self.model_transitions += g
            self.model_states += d
        log(f"generated {n} scripts with {st['module']} {st.get('env', {})}")
        return path, n

    def run_driver(self, args, trace, limit):
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        env = dict(os.environ, GODEBUG="randautoseed=0", GOMAXPROCS="2", GOTRACEBACK="single")
        free = "-free" in args
        if free:
            env.update(GOMAXPROCS="4", GORACE="halt_on_error=0 exitcode=66")
        try:
            return subprocess.run([self.racer if free else self.driver, *args, "-out", trace], cwd=self.dir, env=env,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                  timeout=limit, preexec_fn=None if free else lim)
        except subprocess.TimeoutExpired:
            raise Undecided(f"driver {args} took more than {limit} s")

    def drive(self, args, trace, name, src):
        """run the driver; a reproducible fatal error of the library is a violation"""
        p = self.run_driver(args, trace, 800)
        if p.returncode == 0:
            return
        if "-free" in args and ("DATA RACE" in p.stderr or "concurrent map" in p.stderr) \
                and "github.com/julioguillermo/godeep/" in p.stderr:
            with self.lock:
                self.bad.append({"stage": name, "scenario": 0, "what": "data race between separate objects",
                                 "stderr": p.stderr[:6000], "args": args})
            return
        if p.returncode == 3 or not os.path.exists(trace + ".at"):
            raise Undecided(f"driver {args}: exit {p.returncode}\n{p.stderr[-2000:]}")
        at = open(trace + ".at").read().split()
        if not at or not at[0].isdigit():
            raise Undecided(f"driver {args}: exit {p.returncode}\n{p.stderr[-2000:]}")
        k = int(at[0])
        a2 = self.with_range(args, k, k + 1)
        q = self.run_driver(a2, trace + ".2", 300)
        if q.returncode == 0 or "fatal error" not in q.stderr and "panic" not in q.stderr:
            raise Undecided(f"driver died (exit {p.returncode}) but not again:\n{p.stderr[-2000:]}")
        if "out of memory" in q.stderr:
            raise Undecided(f"driver ran out of memory in scenario {k}:\n{q.stderr[-1500:]}")
        with self.lock:
            self.bad.append({"stage": name, "scenario": k, "what": "the library kills the process",
                             "stderr": q.stderr[:4000], "args": a2})

    @staticmethod
    def with_range(args, a, b):
        out, i = [], 0
        while i < len(args):
            if args[i] in ("-from", "-to", "-step"):
                i += 2
                continue
            out.append(args[i])
            i += 1
        return out + ["-from", str(a), "-to", str(b)]

    def judge(self, st, name, args, lo, hi, step):
        tag = f"{name}-{lo}-{step}"
        trace = f"{self.dir}/{tag}.ndjson"
        args = args + ["-from", str(lo), "-to", str(hi), "-step", str(step)]
        self.drive(args, trace, name, st)
        lines = open(trace).read().splitlines() if os.path.exists(trace) else []
        if not lines:
            return
        module = st.get("trace", "MachineTrace")
        rc, out = self.tlc(module, module, {"TRACE": trace}, heap=st.get("theap", "2g"))
        bad = [(int(a), b) for a, b in re.findall(r'<<"BAD", (\d+), "([^"]*)">>', out)]
        if f'<<"DONE", {len(lines)}>>' not in out:
            m = re.findall(r"^/\\ i = (\d+)", out, re.M)
            if "verflow" in out:
                raise Undecided(f"TLC on {tag}: numbers too large:\n" + out[-3000:])
            if "evaluating" in out and m and "OutOfMemory" not in out and "StackOverflow" not in out:
                # an outcome outside anything the specification can even describe
                bad.append((int(m[-1]) + 1, "not interpretable: " + self.gist(out)))
            else:
                raise Undecided(f"TLC on {tag} ended early ({rc}):\n" + out[-3000:])
        g, d = self.counts(out)
        scen, kinds = 0, collections.Counter()
        for l in lines:
            e = json.loads(l)
            if e["e"] == "reset":
                scen += 1
            kinds[e["e"] + ("/" + e["k"] if isinstance(e.get("k"), str) else "")
                  + (":" + e["r"] if isinstance(e.get("r"), str) else "")] += 1
        with self.lock:
            self.transitions += g
            self.states += d
            self.traces += scen
            self.events += len(lines)
            self.kinds.update(kinds)
            if len(self.samples) < 3:
                first = []
                for l in lines[:40]:
                    if first and '"e":"reset"' in l:
                        break
                    first.append(json.loads(l))
                self.samples.append({"stage": name, "events": [short(e) for e in first[:14]]})
            for at, what in bad:
                a = at - 1
                while a > 0 and json.loads(lines[a])["e"] != "reset":
                    a -= 1
                head = json.loads(lines[a])
                self.bad.append({"stage": name, "scenario": head.get("sc", 0), "what": what,
                                 "event": json.loads(lines[at - 1]) if at <= len(lines) else {},
                                 "events": [json.loads(x) for x in lines[a:at]],
                                 "args": self.with_range(args, head.get("sc", 0), head.get("sc", 0) + 1),
                                 "script": self.script_of(args, head.get("sc", 0)), "trace": module})
        os.remove(trace)

    @staticmethod
    def gist(out):
        m = re.search(r"(Attempted|In evaluation|The [^\n]* was not|Evaluating)[^\n]*", out)
        return m.group(0)[:200] if m else "evaluation error"

    @staticmethod
    def script_of(args, k):
        if "-in" in args:
            with open(args[args.index("-in") + 1]) as f:
                for i, l in enumerate(f):
                    if i == k:
                        return json.loads(l)
        return None

    def conform(self, st):
        name = st["name"]
        if "module" in st:
            path, n = self.generate(st)
            args = ["-prop", st.get("drive", "script"), "-seed", str(self.seed), "-in", path]
        else:
            n = st["count"]
            args = ["-prop", st["drive"], "-seed", str(self.seed)] + (["-free"] if st.get("free") else [])
        chunk = st.get("chunk", 400)
        jobs = max(1, -(-n // chunk))
        jobs = min(n, -(-jobs // WORKERS) * WORKERS)      # whole rounds of workers
        before, ev0 = self.traces, self.events
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            fs = [ex.submit(self.judge, st, name, args, i, n, jobs) for i in range(jobs)]
            errs = []
            for f in fs:
                try:
                    f.result()
                except Undecided as x:
                    errs.append(x)
        if errs and not self.bad:
            raise errs[0]
        self.parts.append({"stage": name, "traces": self.traces - before, "events": self.events - ev0,
                           "what": st.get("what", ""), "exhaustive": bool(st.get("exhaustive"))})
        log(f"{name}: {self.traces - before} traces, {self.events - ev0} calls judged, "
            f"{len(self.bad)} disagreements")

    # ---------------------------------------------------------------- report
    def evidence(self):
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        cov = {
            "states": self.states + self.model_states,
            "transitions": self.transitions + self.model_transitions,
            "traces_validated_against_impl": self.traces,
            "calls_judged": self.events,
            "model_states": self.model_states,
            "calls_by_kind_and_outcome": dict(sorted(self.kinds.items())),
            "parts": self.parts,
            "samples": self.samples,
        }
        json.dump({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": self.plan.get("assumptions", []),
            "wall_s": round(time.time() - T0, 2), "violations": len(self.bad),
        }, open(f"{HERE}/evidence/{self.prop}.json", "w"), indent=1)

    def known(self):
        """findings listed in known-findings.txt as `finding: property=ID stage=S match=REGEX -- text`"""
        path = f"{HERE}/known-findings.txt"
        for line in open(path) if os.path.exists(path) else []:
            m = re.match(r"finding: property=(\S+) stage=(\S+) match=(.*?) -- (.*)", line)
            if not m or m.group(1) != self.prop:
                continue
            hit = [b for b in self.bad if b["stage"] == m.group(2)
                   and re.search(m.group(3), json.dumps(b.get("event", "")))]
            self.bad = [b for b in self.bad if b not in hit]
            print(f"KNOWN-FINDING: property={self.prop} {m.group(4)}", flush=True)

    def report(self):
        os.makedirs(f"{HERE}/replays", exist_ok=True)
        seen = 0
        for b in sorted(self.bad, key=lambda b: len(b.get("events", [0] * 999))):
            path = f"{HERE}/replays/{self.prop}-{b['stage']}-{b['scenario']}-seed{self.seed}.json"
            json.dump(b, open(path, "w"), indent=1)
            log(f"disagreement in {b['stage']} scenario {b['scenario']}: {b['what']} "
                f"{json.dumps(b.get('event', b.get('stderr', '')))[:600]}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            seen += 1
            if seen >= 5:
                break

    def main(self):
        try:
            self.build()
            for st in self.plan["quick" if self.tier == "quick" else "thorough"]:
                if "conform" in st:
                    self.conform(st["conform"])
                    if self.bad:
                        break
                else:
                    self.model(st["model"])
            self.evidence()
            self.known()
            if self.bad:
                self.report()
                return 1
            log(f"{self.prop} held: {self.model_states} model states, {self.traces} traces "
                f"of the library, {self.events} calls")
            return 0
        except Undecided as x:
            print("UNDECIDED:", x, flush=True)
            return 2
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def replay(path):
    """run one saved scenario again: check.py --replay FILE"""
    b = json.load(open(path))
    prop = os.path.basename(path).split("-")[0]
    c = Check(prop, "quick", 1)
    try:
        c.build()
        args = list(b["args"])
        if b.get("script") is not None:
            p = f"{c.dir}/one.ndjson"
            json.dump(b["script"], open(p, "w"))
            args[args.index("-in") + 1] = p
            args = c.with_range(args, 0, 1)
        args = [a for a in args]
        lo, hi = int(args[args.index("-from") + 1]), int(args[args.index("-to") + 1])
        i = args.index("-from")
        c.judge({"trace": b.get("trace", "MachineTrace")}, "replay", args[:i], lo, hi, 1)
        for x in c.bad:
            print(json.dumps(x.get("event", x.get("stderr")), indent=1))
            print("reproduced:", x["what"])
        return 1 if c.bad else 0
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        c = Check("C01", "quick", 1)
        try:
            c.build()
        except Undecided as x:
            sys.exit(str(x))
        finally:
            shutil.rmtree(c.dir, ignore_errors=True)
        sys.exit(0)
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(Check(a.property, a.tier, a.seed).main())
