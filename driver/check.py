"""Decides one property by deterministic simulation: builds the simulator around
/repo's working tree, explores seeds on all processors, confirms, minimises and
records what it finds, and writes the evidence file."""
import atexit
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

import build
import props

VERIF = build.VERIF
GORACE = "exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 halt_on_error=0 atexit_sleep_ms=0"
MASK = (1 << 64) - 1


def mix(seed, stream):
    """The simulator's Mix."""
    s = (seed ^ ((stream + 1) * 0xd1342543de82ef95)) & MASK
    z = 0
    for _ in range(2):
        s = (s + 0x9e3779b97f4a7c15) & MASK
        z = s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & MASK
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & MASK
        z ^= z >> 31
    return z


class Trouble(Exception):
    """The check cannot give an answer."""


class Sim:
    def __init__(self, work, prop):
        self.work = work
        self.prop = prop
        self.race = props.PROPS[prop]["race"]
        t = time.time()
        self.bin, self.report = build.build(work, self.race)
        self.build_s = time.time() - t
        self.env = dict(os.environ, GORACE=GORACE, GOTRACEBACK="all", GOGC="400", GOMAXPROCS="1",
                        GOMEMLIMIT="2500MiB", TMPDIR=work)
        self.n = 0

    def path(self, name):
        self.n += 1
        return "%s/%s-%d" % (self.work, name, self.n)

    def call(self, args, timeout):
        """Runs the simulator; returns (status, text), status None on timeout."""
        p = subprocess.Popen([self.bin] + args, cwd=self.work, env=self.env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            killpg(p)
            out, _ = p.communicate()
            return None, out.decode("utf-8", "replace")

    def run_plan(self, plan, timeout=300, log=False):
        """Executes a plan in a fresh process. Returns a dict with class, msg,
        hash and text."""
        f, o = self.path("plan"), self.path("run")
        json.dump(plan, open(f, "w"))
        rc, text = self.call(["run", "-plan", f, "-out", o] + (["-log"] if log else []), timeout)
        try:
            if rc is None:
                return dict(cls="hang", msg="the run does not end", hash="", text=text, trace=[], log=[])
            if rc != 0 or not os.path.exists(o):
                return dict(cls="fatal", msg=first_line(text), hash="", text=text, trace=[], log=[])
            r = json.load(open(o))
            oc = r["outcome"]
            return dict(cls=oc.get("class", ""), msg=oc.get("msg", ""), hash=oc["hash"], text=text,
                        trace=oc.get("trace") or [], log=r.get("log") or [], steps=oc["stats"]["Steps"])
        finally:
            for p in (f, o):
                if os.path.exists(p):
                    os.remove(p)

    def gen(self, seed):
        o = self.path("gen")
        rc, text = self.call(["gen", "-prop", self.prop, "-seed", str(seed), "-out", o], 60)
        if rc != 0:
            raise Trouble("generating a plan failed: " + text[-500:])
        return json.load(open(o))


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def first_line(text):
    for l in text.splitlines():
        l = l.strip()
        if l.startswith(("fatal error", "panic", "SIG", "runtime:")):
            return l[:300]
    return (text.strip().splitlines() or ["the process died"])[0][:300]


class Worker:
    def __init__(self, sim, base, start, stride, deadline, known, cold=False, n=None):
        self.sim, self.base, self.start, self.stride = sim, base, start, stride
        self.out = sim.path("out")
        self.prog = sim.path("prog")
        self.err = open(sim.path("err"), "w+b")
        ms = max(0, int((deadline - time.time()) * 1000))
        args = [sim.bin, "explore", "-prop", sim.prop, "-base", str(base), "-start", str(start), "-stride", str(stride),
                "-ms", str(ms), "-out", self.out, "-progress", self.prog]
        if n:
            args += ["-n", str(n)]
        if cold:
            args += ["-cold"]
        if known:
            args += ["-known", known]
        self.p = subprocess.Popen(args, cwd=sim.work, env=sim.env, stdin=subprocess.DEVNULL, stdout=self.err,
                                  stderr=self.err, start_new_session=True)
        self.last = None
        self.changed = time.time()

    def index(self):
        try:
            b = open(self.prog, "rb").read(8)
            return struct.unpack("<Q", b)[0]
        except (OSError, struct.error):
            return None

    def stalled(self):
        ix = self.index()
        if ix != self.last:
            self.last, self.changed = ix, time.time()
        return time.time() - self.changed

    def text(self):
        self.err.seek(0)
        return self.err.read().decode("utf-8", "replace")


class Check:
    def __init__(self, prop, tier, seed, seconds):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = props.PROPS[prop]
        self.seconds = seconds or self.spec[tier]
        self.base = mix(seed, int.from_bytes(prop.encode(), "big"))
        self.begin = time.time()
        self.workers = props.WORKERS
        self.totals = {}
        self.counters = {}
        self.hashes = set()
        self.samples = []
        self.known_hits = []
        self.notes = []
        self.determinism = {}

    # ------------------------------------------------------------ exploring

    def explore(self, sim):
        self.explore_begin = time.time()
        deadline = self.explore_begin + self.seconds
        cold = self.spec.get("cold", False)
        known = self.known_file(sim)
        ws = [Worker(sim, self.base, i, self.workers, deadline, known, cold) for i in range(self.workers)]
        failed = None
        try:
            live = list(ws)
            while live:
                time.sleep(.05)
                for w in list(live):
                    rc = w.p.poll()
                    if rc is None:
                        if w.stalled() > props.STALL:
                            killpg(w.p)
                            w.p.wait()
                            live.remove(w)
                            if failed is None:
                                failed = (w, None)
                        continue
                    live.remove(w)
                    if rc == 2 and "simrun:" in w.text():
                        raise Trouble("the simulator failed: " + w.text()[-1500:])
                    if rc != 0 or not os.path.exists(w.out):
                        if failed is None:
                            failed = (w, None)
                        continue
                    rep = json.load(open(w.out))
                    self.add(rep, w)
                    if rep.get("fail") and (failed is None or failed[1] is not None and rep["runs"] < failed[1]["runs"]):
                        failed = (w, rep)
                if failed is not None:
                    # Let the others finish soon: the first failure decides.
                    for w in live:
                        killpg(w.p)
                        w.p.wait()
                    live = []
        finally:
            for w in ws:
                if w.p.poll() is None:
                    killpg(w.p)
                    w.p.wait()
        self.explore_s = time.time() - self.explore_begin
        return failed

    def add(self, rep, w):
        for k in ("runs", "nontrivial", "steps", "points", "switches", "chan_ops", "map_iterations", "tasks", "sim_ns"):
            self.totals[k] = self.totals.get(k, 0) + rep[k]
        for k, v in rep["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        if os.path.exists(w.out + ".hashes"):
            b = open(w.out + ".hashes", "rb").read()
            self.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if len(self.samples) < 3:
            self.samples += (rep.get("samples") or [])[:1]
        for k in rep.get("known") or []:
            if k not in self.known_hits:
                self.known_hits.append(k)

    # ------------------------------------------------------------ failures

    def confirm(self, sim, failed):
        """Turns what a worker reported into a plan that fails in a fresh
        process, twice alike. Returns (plan, result)."""
        w, rep = failed
        if rep is None:
            ix = w.index()
            if ix is None:
                raise Trouble("a worker died before its first run: " + w.text()[-1500:])
            text = w.text()
            seed = mix(self.base, ix)
            plan = sim.gen(seed)
            a = sim.run_plan(plan)
            if a["cls"] in ("fatal", "hang"):
                b = sim.run_plan(plan)
                if b["cls"] == a["cls"]:
                    plan["expect"] = a["cls"]
                    plan["detail"] = [a["msg"]]
                    return plan, a
            if a["cls"]:
                return self.twice(sim, dict(plan, expect=a["cls"], trace=a["trace"], replay=True))
            seeds = [mix(self.base, i) for i in range(w.start, ix, w.stride)]
            r = self.prefixed(sim, plan, seeds, ("fatal", "hang"))
            if r:
                return r
            raise Trouble("a worker ended abnormally, but not again when its run was repeated:\n" + text[-3000:])
        plan = rep["fail"]
        if self.spec.get("cold"):
            return self.twice(sim, dict(plan, replay=True))
        plan["replay"] = True
        r = self.twice(sim, plan, quiet=True)
        if r:
            return r
        # The violation may depend on what the process did before, or the
        # recorded decisions may not suit a fresh process.
        seeds = [mix(self.base, i) for i in range(w.start, rep["fail_index"], w.stride)]
        r = self.prefixed(sim, dict(plan, replay=False, trace=None), seeds, (plan["expect"],))
        if r:
            return r
        if not self.check_determinism(sim):
            # Nothing repeats exactly on this tree; what was seen was seen.
            return dict(plan, replay=False, trace=None), dict(
                cls=plan["expect"], msg=rep.get("fail_msg", ""), hash="", text=w.text(), trace=[], log=[])
        raise Trouble("run %d failed (%s: %s) but does not fail again when it is repeated" % (
            rep["fail_index"], plan["expect"], rep.get("fail_msg", "")[:500]))

    def twice(self, sim, plan, quiet=False):
        a = sim.run_plan(plan)
        b = sim.run_plan(plan)
        if a["cls"] and a["cls"] == b["cls"] and a["hash"] == b["hash"]:
            plan["expect"] = a["cls"]
            return plan, a
        if quiet:
            return None
        if a["cls"] and a["cls"] == b["cls"] and not self.check_determinism(sim):
            plan["expect"] = a["cls"]
            return plan, a
        raise Trouble("a failing run does not repeat exactly: %s %s / %s %s" % (a["cls"], a["hash"], b["cls"], b["hash"]))

    def prefixed(self, sim, plan, seeds, classes):
        def with_prefix(s):
            p = dict(plan, prefix={"seeds": s}) if s else dict(plan)
            r = sim.run_plan(p, timeout=props.PREFIX_LIMIT)
            return (p, r) if r["cls"] in classes else None
        # The end of the history is usually enough.
        best, n = None, 0
        while best is None:
            best = with_prefix(seeds[len(seeds) - n:])
            if best is None and n >= len(seeds):
                return None
            if best is None:
                n = min(len(seeds), max(1, 8 * n))
        seeds = seeds[len(seeds) - n:]
        # Shorten the history while it still fails.
        end = time.time() + 60
        size = max(1, len(seeds) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(seeds) and time.time() < end:
                cand = seeds[:i] + seeds[i + size:]
                r = with_prefix(cand)
                if r:
                    seeds, best = cand, r
                else:
                    i += size
            size //= 2
        best[0]["expect"] = best[1]["cls"]
        return best

    def minimise(self, sim, plan, res):
        if plan.get("prefix") or plan["expect"] in ("fatal", "hang") or self.spec.get("cold"):
            plan["detail"] = [res["msg"].splitlines()[0][:400] if res["msg"] else ""]
            return plan, res
        f, o = sim.path("full"), sim.path("min")
        json.dump(plan, open(f, "w"))
        rc, text = sim.call(["minimise", "-plan", f, "-out", o, "-ms", str(props.MINIMISE_MS)], props.MINIMISE_MS / 1000 + 60)
        if rc == 0 and os.path.exists(o):
            small = json.load(open(o))
            small["replay"] = True
            r = self.twice(sim, small, quiet=True)
            if r and r[1]["cls"] == plan["expect"]:
                return r
        self.notes.append("the minimised run did not repeat in a fresh process; the replay file holds the full one")
        return plan, res

    # ------------------------------------------------------------ findings

    def findings(self):
        path = VERIF + "/known_findings.json"
        if not os.path.exists(path):
            return []
        return [f for f in json.load(open(path))["findings"] if f["property"] == self.prop]

    def still_fails(self, sim, f):
        """Whether a known finding is still there: those with a plan of their own
        are executed, apart from the exploration, which cannot meet them."""
        if not f.get("plan"):
            return True
        r = sim.run_plan(json.load(open(VERIF + "/" + f["plan"])), timeout=180)
        there = r["cls"] != ""
        if not there:
            self.notes.append("the known finding %s no longer fails" % f["id"])
        return there

    def known_file(self, sim):
        ks = [f for f in self.findings() if f["status"] == "known" and not f.get("plan")]
        if not ks:
            return None
        p = sim.path("known")
        json.dump([{"id": f["id"], "class": f["class"], "match": f["match"]} for f in ks], open(p, "w"))
        return p

    # ------------------------------------------------------------ evidence

    def check_determinism(self, sim):
        """Repeats a sample of runs in other processes: same seed, same
        execution, whatever ran before; and replays them from their recorded
        decisions."""
        if self.spec.get("cold"):
            n = 2
            rs = []
            for i in range(n):
                plan = sim.gen(mix(self.base, i))
                a, b = sim.run_plan(plan), sim.run_plan(plan)
                rs.append(a["hash"] == b["hash"] and a["cls"] == b["cls"])
            same = all(rs)
            self.determinism = {"runs_repeated": n, "identical": same}
        else:
            n = self.spec.get("det", 12)
            a = sim.call(["hashes", "-prop", self.prop, "-base", str(self.base), "-n", str(n), "-replay"], 300)
            b = sim.call(["hashes", "-prop", self.prop, "-base", str(self.base), "-n", str(n // 2), "-start", str(n // 2)], 300)
            if a[0] != 0 or b[0] != 0:
                raise Trouble("repeating runs failed: " + (a[1] + b[1])[-1000:])
            la = [l for l in a[1].splitlines() if re.match(r"^\d+ [0-9a-f]{16} ", l)]
            lb = [l for l in b[1].splitlines() if re.match(r"^\d+ [0-9a-f]{16} ", l)]
            same = "MISMATCH" not in a[1] and la[n // 2:] == lb and len(la) == n
            self.determinism = {"runs_replayed_from_trace": n, "runs_repeated_in_another_process": n // 2, "identical": same}
            if not same:
                same = self.session_determinism(sim, n)
        if not same:
            self.notes.append("simulated runs do not repeat exactly on this tree: something it does escapes the simulator's control")
            print("note: " + self.notes[-1])
        return same

    def session_determinism(self, sim, n):
        """A tree that keeps something from one call to the next, a cache of the
        package say, makes a run depend on what its process did before. Then a
        worker's whole history is what repeats, and single runs repeat in fresh
        processes."""
        args = ["hashes", "-prop", self.prop, "-base", str(self.base), "-n", str(n)]
        a, b = sim.call(args, 300), sim.call(args, 300)
        same = a == b and a[0] == 0
        fresh = 0
        for i in range(3):
            plan = sim.gen(mix(self.base, i))
            x, y = sim.run_plan(plan), sim.run_plan(plan)
            z = sim.run_plan(dict(plan, trace=x["trace"], replay=True))
            same = same and x["hash"] == y["hash"] == z["hash"] and x["cls"] == y["cls"] == z["cls"]
            fresh += 1
        self.determinism = {"histories_repeated_in_another_process": 1, "runs_in_that_history": n,
                            "runs_repeated_and_replayed_in_fresh_processes": fresh, "identical": same}
        self.notes.append("on this tree a run depends on what its process ran before: it repeats with that history, or in a fresh process")
        return same

    def evidence(self, sim, violations):
        s = self.spec
        t = self.totals
        runs = t.get("runs", 0)
        hours = max(self.explore_s, .001) / 3600
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": len(self.hashes),
            "rule": s["rule"] + " Distinct: by the hash of every scheduling decision, task switch and recorded event of the run.",
            "samples": self.samples or ["none"],
            "simulated_runs_and_seeds_per_hour": round(runs / hours),
            "simulated_time_s": round(t.get("sim_ns", 0) / 1e9, 6),
            "statements_simulated": t.get("steps", 0),
            "decision_points": t.get("points", 0),
            "task_switches": t.get("switches", 0),
            "channel_operations": t.get("chan_ops", 0),
            "map_iterations_permuted": t.get("map_iterations", 0),
            "simulated_threads": t.get("tasks", 0),
            "faults_injected": {k[6:]: v for k, v in sorted(self.counters.items()) if k.startswith("fault.")},
            "conditions_reached": {k[6:]: v for k, v in sorted(self.counters.items()) if k.startswith("probe.")},
            "runs_ended_by_violations_of_other_properties": {k[8:]: v for k, v in sorted(self.counters.items()) if k.startswith("foreign.")},
            "distinct_interleavings_measure": "distinct run hashes, see rule",
            "determinism": self.determinism,
            "race_detector": sim.race,
            "real_code": s["real"],
            "stubs": s["stubs"],
            "rewritten": sim.report,
            "worker_processes": self.workers,
            "exploration_s": round(self.explore_s, 1),
            "build_s": round(sim.build_s, 1),
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": s["assumptions"], "wall_s": round(time.time() - self.begin, 1), "violations": violations}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        p = "%s/evidence/%s.json" % (VERIF, self.prop)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(p + ".tmp", p)

    # ------------------------------------------------------------

    def run(self):
        work = tempfile.mkdtemp(prefix="verif-%s-" % self.prop)
        atexit.register(shutil.rmtree, work, True)
        sim = Sim(work, self.prop)
        failed = self.explore(sim)
        if failed is None:
            for f in self.findings():
                if f["status"] == "known" and self.still_fails(sim, f):
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
            self.check_determinism(sim)
            self.evidence(sim, 0)
            print("property %s held: %d simulated runs (%d distinct), %d statements, %.0f s" % (
                self.prop, self.totals["runs"], len(self.hashes), self.totals["steps"], time.time() - self.begin))
            return 0
        plan, res = self.confirm(sim, failed)
        plan, res = self.minimise(sim, plan, res)
        detail = [l for l in (plan.get("detail") or []) if l] or [res["msg"].splitlines()[0][:400] if res["msg"] else ""]
        report = res["msg"]
        if res["cls"] == "race":
            report += "\n" + race_text(res["text"])
        elif res["cls"] in ("fatal", "hang"):
            report += "\n" + res["text"][:4000]
        plan["detail"] = detail
        plan["report"] = report.splitlines()[:120]
        plan["hash"] = res["hash"]
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = "%s/replays/%s-%016x.json" % (VERIF, self.prop, plan["seed"])
        with open(path, "w") as f:
            json.dump(plan, f, indent=1)
            f.write("\n")
        self.samples.insert(0, {"violation": plan["expect"], "seed": plan["seed"], "detail": detail, "operations": len(plan["ops"]),
                                "decisions": len(plan.get("trace") or [])})
        self.evidence(sim, 1)
        print("%s: %s" % (plan["expect"], "; ".join(detail)))
        print("seed %d, %d operations, %d scheduling decisions; replay with: %s/replay %s" % (
            plan["seed"], len(plan["ops"]), len(plan.get("trace") or []), VERIF, path))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def race_text(text):
    i = text.find("WARNING: DATA RACE")
    return text[i:i + 6000] if i >= 0 else text[:2000]


def replay(path):
    plan = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    atexit.register(shutil.rmtree, work, True)
    sim = Sim(work, plan["property"])
    r = sim.run_plan(plan, log=True)
    for l in r["log"]:
        print(l)
    print("outcome: %s %s" % (r["cls"] or "no violation", r["msg"]))
    if r["cls"] == "race":
        print(race_text(r["text"]))
    same = r["cls"] == plan["expect"]
    if same and plan.get("hash") and r["hash"] != plan["hash"]:
        print("note: the same violation by a different execution (the tree has changed since)")
    if same:
        print("VIOLATION property=%s replay=%s" % (plan["property"], path))
        return 1
    return 0


def main(argv):
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    if len(argv) > 1 and argv[1] == "replay":
        return guard(lambda: replay(argv[2]))
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seconds = None
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
        if a == "--seconds":
            seconds = float(argv[i + 1])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return guard(lambda: Check(prop, tier, seed, seconds).run())


def guard(f):
    try:
        return f()
    except build.BuildError as e:
        print("check error: cannot build the simulator: %s" % e)
    except Trouble as e:
        print("check error: %s" % e)
    return 2
