#!/usr/bin/env python3
"""Runs the simulations that decide one property.

    check.py --prop P01 [--tier quick|thorough] [--seed N] [--repo /repo] [--secs S]
    check.py --replay FILE        executes a replay file once and tells what happened

Exit status: 0 the property held on everything explored, 1 violation (with a VIOLATION line), 2 the check failed.
"""
import argparse, concurrent.futures as cf, copy, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENV = dict(os.environ)
ENV.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off", GOSUMDB="off",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOMAXPROCS="")
ENV.pop("GOMAXPROCS")
ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV["GORACE"] = "atexit_sleep_ms=0 halt_on_error=0"
ENV.setdefault("GOCACHE", "/root/.cache/go-build")

# race: the race detector watches half of the workers.
PROPS = {
    "P01": dict(race=True), "P02": dict(race=True), "P03": dict(race=True), "P04": dict(race=True),
    "P05": dict(race=True), "P06": dict(race=True), "P07": dict(race=True), "P08": dict(race=True),
    "P09": dict(race=False, xproc=True), "P10": dict(race=False), "P11": dict(race=False), "P12": dict(race=False),
    "P13": dict(race=True), "P14": dict(race=False), "P15": dict(race=False), "P16": dict(race=True),
    "P17": dict(race=False, gen=True), "P18": dict(race=False, gen=True),
}
WORKERS = 8


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Broken(Exception):
    pass


def sh(cmd, cwd, what, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf8", "replace")
    if p.returncode:
        raise Broken("%s failed:\n%s" % (what, out[-4000:]))
    return out


class Build:
    def __init__(self, scratch, repo, gen):
        self.dir = scratch
        try:
            os.makedirs(ENV["GOCACHE"], exist_ok=True)
            with tempfile.TemporaryFile(dir=ENV["GOCACHE"]):
                pass
        except OSError:
            ENV["GOCACHE"] = os.path.join(scratch, "gocache")
        tool = os.path.join(scratch, "simtool")
        sh(["go", "build", "-o", tool, "."], os.path.join(HERE, "tool"), "building the instrumenter")
        self.src = os.path.join(scratch, "src")
        cmd = [tool, "-repo", repo, "-rt", os.path.join(HERE, "rt"), "-out", self.src,
               "-harness", os.path.join(HERE, "common") + "," + os.path.join(HERE, "gharness" if gen else "harness")]
        if gen:
            cmd.append("-gen")
        self.notes = [l for l in sh(cmd, scratch, "instrumenting the tree").splitlines() if l]

    def binary(self, race):
        out = os.path.join(self.dir, "harness-race" if race else "harness")
        if not os.path.exists(out):
            cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "./zsim/harness"]
            sh(cmd, self.src, "building the instrumented tree")
        return out


# processes on other machines, as it were
SETTINGS = [{}, dict(GOMAXPROCS="1", LANG="fr_FR.UTF-8", LC_ALL="fr_FR.UTF-8", TZ="Asia/Tokyo", TERM="dumb", GOGC="20"),
            dict(GOMAXPROCS="3", COLUMNS="40", TERM="xterm-256color", NO_COLOR="1", HOME="/nonexistent"),
            dict(GOMAXPROCS="2", LANG="ja_JP.UTF-8", LC_ALL="ja_JP.UTF-8", COLUMNS="132", TZ="America/New_York", USER="nobody", GOGC="400")]


def run(cmd, timeout, more=None):
    """-> (rc, stdout, stderr); rc -1: out of time"""
    p = subprocess.Popen(cmd, env=dict(ENV, **(more or {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -1, "", ""


def verdict(rc, out, err):
    """Class of an execution: None (held), 'invalid', or the class of a violation."""
    if rc == 0:
        return None
    if rc == 4:
        return "invalid"
    if rc == 3:
        m = re.search(r"^VIOLATED (\S+)", out, re.M)
        return m.group(1) if m else "unknown"
    if rc == -1:
        return "hang"
    if rc == 66:
        return "race"
    return "crash"


class Replayer:
    def __init__(self, b, scratch):
        self.b, self.dir, self.n = b, scratch, 0

    def sure(self, plan, timeout=60):
        """As exec; the race detector forgets accesses at random, so that it may need several looks at the same execution."""
        for k in range(8 if plan.get("race") else 1):
            r = self.exec(plan, timeout)
            if r[0]:
                break
        return r

    def exec(self, plan, timeout=60, more=None):
        if plan.get("xproc"):
            # the same execution in several processes: the histories must be the same
            one = dict(plan)
            one.pop("xproc")
            with cf.ThreadPoolExecutor(WORKERS) as pool:
                rs = list(pool.map(lambda k: self.exec(one, timeout, SETTINGS[k % len(SETTINGS)]), range(plan["xproc"])))
            for r in rs:
                if r[0]:
                    return r
            hs = sorted(set(r[1] for r in rs))
            if len(hs) > 1:
                return "process-dependent", "", "%d processes, %d different histories" % (len(rs), len(hs))
            return None, hs[0], rs[0][2]
        self.n += 1
        f = os.path.join(self.dir, "try-%d-%d.json" % (self.n, threading.get_ident()))
        with open(f, "w") as fh:
            json.dump(plan, fh)
        try:
            rc, out, err = run([self.b.binary(plan.get("race", False)), "exec", "-plan", f], timeout, more)
        finally:
            os.unlink(f)
        h = re.search(r"^HASH (\S+)", out, re.M)
        return verdict(rc, out, err), (h.group(1) if h else ""), out + err


# ---- minimisation -------------------------------------------------------------------------------------------------

def candidates(plan):
    """Smaller plans, biggest steps first: parts of lists, strings, numbers and flags of the scenario, decisions."""
    def paths(x, path):
        yield path, x
        if isinstance(x, dict):
            for k in sorted(x):
                yield from paths(x[k], path + [k])
        elif isinstance(x, list):
            for i, v in enumerate(x):
                yield from paths(v, path + [i])

    def put(path, v):
        q = copy.deepcopy(plan)
        x = q
        for k in path[:-1]:
            x = x[k]
        x[path[-1]] = v
        return q

    def drop(path):
        q = copy.deepcopy(plan)
        x = q
        for k in path[:-1]:
            x = x[k]
        del x[path[-1]]
        return q

    for top in ("sched", "choices", "scn"):
        if plan.get(top) is None:
            continue
        todo = sorted(paths(plan[top], [top]), key=lambda e: len(e[0]))
        for path, x in todo:
            if isinstance(x, list) and x:
                n = len(x)
                size = n
                while size >= 1:
                    for i in range(0, n, size):
                        yield put(path, x[:i] + x[i + size:])
                    size //= 2
            elif isinstance(x, str) and x and top == "scn":
                n = len(x)
                if n > 400 and "\n" in x:
                    ls = x.split("\n")
                    size = len(ls) // 2
                    while size >= 1:
                        for i in range(0, len(ls), size):
                            yield put(path, "\n".join(ls[:i] + ls[i + size:]))
                        size //= 2
                    continue
                size = n
                while size >= 1:
                    for i in range(0, n, size):
                        yield put(path, x[:i] + x[i + size:])
                    size //= 2
            elif isinstance(x, bool):
                if x and top == "scn":
                    yield put(path, False)
            elif isinstance(x, (int, float)) and x and top == "scn":
                for v in (0, 1, x // 2 if isinstance(x, int) else int(x), x - 1 if x > 0 else x + 1):
                    if v != x and abs(v) < abs(x):
                        yield put(path, v)
            elif isinstance(x, dict) and len(path) > 1 and isinstance(path[-1], str) and top == "scn":
                yield drop(path)


def size_of(plan):
    return len(json.dumps([plan.get("sched"), plan.get("choices"), plan["scn"]]))


def minimise(plan, cls, rep, budget):
    end = time.time() + budget
    best = plan
    tried = kept = 0
    pool = cf.ThreadPoolExecutor(WORKERS)
    progress = True
    while progress and time.time() < end:
        progress = False
        gen = candidates(best)
        seen = 0
        while time.time() < end:
            batch = []
            for c in gen:
                batch.append(c)
                if len(batch) == WORKERS * 2:
                    break
            if not batch:
                break
            hit = None
            for c, r in zip(batch, pool.map(lambda c: rep.exec(c, 30), batch)):
                tried += 1
                if hit is None and r[0] == cls:
                    hit = c
            if hit is not None:
                kept += 1
                best = hit
                progress = True
                break
    pool.shutdown()
    return best, tried, kept


# ---- simulation ---------------------------------------------------------------------------------------------------

def simulate(b, prop, seed, secs, scratch, race):
    """Run the workers; -> (list of stats, first violation or None)"""
    procs = []
    for w in range(WORKERS):
        d = os.path.join(scratch, "w%d" % w)
        os.makedirs(d)
        is_race = race and w % 2 == 1
        cmd = [b.binary(is_race), "run", "-prop", prop, "-seed", str(seed), "-worker", str(w), "-workers", str(WORKERS),
               "-secs", str(secs), "-out", d]
        so, se = open(os.path.join(d, "stdout"), "wb"), open(os.path.join(d, "stderr"), "wb")
        procs.append((w, d, is_race, subprocess.Popen(cmd, env=ENV, stdout=so, stderr=se, start_new_session=True)))
    end = time.time() + secs + 60
    found = []
    pending = list(procs)
    while pending:
        time.sleep(0.05)
        for e in list(pending):
            w, d, is_race, p = e
            rc = p.poll()
            if rc is None and time.time() > end:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -1
            if rc is None:
                continue
            pending.remove(e)
            if rc != 0:
                found.append((rc, w, d, is_race))
        if found:
            # give the others a moment: the smallest failure is the better start
            for w, d, is_race, p in pending:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            pending = []
    stats = []
    for w, d, is_race, p in procs:
        f = os.path.join(d, "stats.json")
        if os.path.exists(f):  # written at once, at the end
            with open(f) as fh:
                stats.append((d, json.load(fh)))
    return stats, found


def read(path):
    try:
        with open(path, "rb") as fh:
            return fh.read().decode("utf8", "replace")
    except OSError:
        return ""


def report(prop, plan, cls, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, plan.get("seed", 0)))
    plan = dict(plan)
    plan["class"] = cls
    plan.update(extra)
    with open(path, "w") as fh:
        json.dump(plan, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return path


def known_findings():
    out = []
    for l in read(os.path.join(VERIF, "known-findings.txt")).splitlines():
        m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)", l)
        if m:
            out.append(m.groups())
    return out


def handle(b, prop, seed, found, scratch, secs):
    """Reproduce, minimise and report. -> True when a violation was reported."""
    rep = Replayer(b, scratch)
    plan = cls = None
    for rc, w, d, is_race in found:
        out, err = read(os.path.join(d, "stdout")), read(os.path.join(d, "stderr"))
        c = verdict(rc, out, err)
        f = os.path.join(d, "plan.json")
        if os.path.exists(f):
            p = json.loads(read(f))
        else:
            s = read(os.path.join(d, "progress")).strip().lstrip("0")
            if not s:
                raise Broken("worker %d ended with status %s before its first run:\n%s" % (w, rc, err[-3000:]))
            rc2, out2, err2 = run([b.binary(is_race), "one", "-prop", prop, "-one", s, "-dump"], 60)
            m = re.search(r"^PLAN (.*)$", out2, re.M)
            if not m:
                raise Broken("no plan for seed %s:\n%s" % (s, err2[-2000:]))
            p = json.loads(m.group(1))
            p["live"] = True  # decisions are drawn again from the seed
        p["race"] = is_race
        log("worker %d: %s (seed %s)" % (w, c, p["seed"]))
        log((p.get("message") or err)[:3000])
        if c == "race" or "DATA RACE" in err:
            log(err[-6000:])
            p["message"] = (p.get("message") or "") + "\n" + err[-5000:]
        if is_race and c not in ("race", "crash"):
            p["race"] = False
            if rep.exec(p, 90)[0] != c:  # only the other build shows it
                p["race"] = True
        c2, h, text = rep.sure(p, 90)
        log("replay: %s" % c2)
        if c2 not in (None, "invalid"):
            plan, cls = p, c2
            if not p.get("message"):
                p["message"] = text[-4000:]
            break
        if plan is None:
            plan, cls = p, None
    if cls is None:
        # not reproduced from the plan alone: the failure depends on what the process did before
        rc, w, d, is_race = found[0]
        c = verdict(rc, read(os.path.join(d, "stdout")), read(os.path.join(d, "stderr")))
        again = os.path.join(scratch, "again")
        os.makedirs(again)
        cmd = [b.binary(is_race), "run", "-prop", prop, "-seed", str(seed), "-worker", str(w), "-workers", str(WORKERS),
               "-secs", "100000", "-until", str(plan["seed"]), "-out", again]
        rc2, out2, err2 = run(cmd, secs * 3 + 120)
        c2 = verdict(rc2, out2, err2)
        plan["worker_replay"] = dict(seed=seed, worker=w, workers=WORKERS, until=plan["seed"])
        report(prop, plan, c, dict(reproduced=(c2 == c), note="depends on earlier runs of the same process: replayed by running this worker again"))
        return plan, c
    known = [k for k in known_findings() if k[0] == prop and k[1] == cls]
    best, tried, kept = minimise(plan, cls, rep, 45)
    a, b2 = rep.sure(best, 90), rep.sure(best, 90)
    exact = a[0] == b2[0] == cls and a[1] == b2[1]
    text = a[2]
    m = re.search(r"VIOLATED \S+\n(.*?)\nHASH", text, re.S)
    best["message"] = (m.group(1) if m else text)[-6000:]
    for k in known:
        if k[2] in best["message"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
            return None, None
    log("minimised in %d executions (%d steps) to %d bytes" % (tried, kept, size_of(best)))
    log(best["message"][:3000])
    report(prop, best, cls, dict(reproduced=exact, hash=a[1], minimised=dict(executions=tried, reductions=kept,
           size_before=size_of(plan), size_after=size_of(best)),
           how="sim/check.py --replay FILE builds /repo's tree and executes this file"))
    return best, cls


def process_dependent(b, prop, seed, one, scratch, about):
    rc, out, err = run([b.binary(False), "one", "-prop", prop, "-one", str(one), "-dump"], 60)
    m = re.search(r"^PLAN (.*)$", out, re.M)
    if not m:
        raise Broken("no plan for seed %s:\n%s" % (one, err[-2000:]))
    plan = json.loads(m.group(1))
    plan.update(live=True, xproc=16)
    rep = Replayer(b, scratch)
    msg = "run %s has different histories in different processes" % one
    got = rep.exec(plan, 60)
    if got[0] == "process-dependent":
        best, tried, kept = minimise(plan, got[0], rep, 45)
        again = rep.exec(best, 60)
        best["message"] = msg
        report(prop, best, got[0], dict(reproduced=again[0] == got[0], how="sim/check.py --replay FILE builds /repo's tree and "
               "executes this file in 16 processes, whose histories differ",
               minimised=dict(executions=tried, reductions=kept, size_before=size_of(plan), size_after=size_of(best))))
        return best
    plan["message"] = msg + " (seen after earlier runs of the same processes)"
    plan["trail_replay"] = dict(seed=seed, runs=about.get("det", 40), processes=16)
    report(prop, plan, "process-dependent", dict(reproduced=None))
    return plan


def replay(path, repo):
    plan = json.loads(read(path))
    prop = plan["prop"]
    scratch = tempfile.mkdtemp(prefix="verif-sim-")
    try:
        b = Build(scratch, repo, PROPS[prop].get("gen"))
        if plan.get("worker_replay"):
            w = plan["worker_replay"]
            cmd = [b.binary(plan["race"]), "run", "-prop", prop, "-seed", str(w["seed"]), "-worker", str(w["worker"]),
                   "-workers", str(w["workers"]), "-secs", "100000", "-until", str(w["until"]), "-out", scratch]
            rc, out, err = run(cmd, 800)
            c = verdict(rc, out, err)
            text = out + err
        elif plan.get("trail_replay"):
            w, seen = plan["trail_replay"], set()
            for k in range(w["processes"]):
                rc, out, err = run([b.binary(False), "run", "-prop", prop, "-seed", str(w["seed"]), "-workers", str(WORKERS), "-trail",
                                    "-worker", "0", "-runs", str(w["runs"]), "-out", scratch], 120, SETTINGS[k % len(SETTINGS)])
                with open(os.path.join(scratch, "trail"), "rb") as fh:
                    seen.add(fh.read())
            c, text = ("process-dependent" if len(seen) > 1 else None), "%d different histories" % len(seen)
        else:
            c, h, text = Replayer(b, scratch).sure(plan, 300)
        print(text)
        if c:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def merge(ms):
    out = {}
    for m in ms:
        for k, v in (m or {}).items():
            out[k] = out.get(k, 0) + v
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--secs", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay, a.repo)
    prop, cfg = a.prop, PROPS[a.prop]
    with open(os.path.join(HERE, "about.json")) as fh:
        about = json.load(fh)[prop]
    secs = a.secs or (about.get("quick", 20) if a.tier == "quick" else about.get("thorough", 400))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-sim-")
    violations = 0
    try:
        b = Build(scratch, a.repo, cfg.get("gen"))
        b.binary(False)
        if cfg.get("race"):
            b.binary(True)
        t1 = time.time()
        for n in b.notes:
            log(n)
        # determinism of the simulation itself: the same seeds in several processes
        def trail(k):
            d = os.path.join(scratch, "det%d" % k)
            os.makedirs(d)
            rc, out, err = run([b.binary(False), "run", "-prop", prop, "-seed", str(a.seed), "-workers", str(WORKERS), "-trail",
                                "-worker", "0", "-runs", str(about.get("det", 40)), "-secs", "15", "-out", d], 120, SETTINGS[k] if cfg.get("xproc") else None)
            if rc:
                return None
            with open(os.path.join(d, "trail"), "rb") as fh:
                t = fh.read()
            return [(int.from_bytes(t[i:i + 8], "little"), t[i + 8:i + 16]) for i in range(0, len(t), 16)]
        with cf.ThreadPoolExecutor(4) as pool:
            trails = [t for t in pool.map(trail, range(4 if cfg.get("xproc") else 2)) if t is not None]
        deterministic, differs = None, None
        if len(trails) > 1:
            deterministic = True
            for t in trails[1:]:
                for x, y in zip(trails[0], t):
                    if x != y:
                        deterministic = False
                        differs = x[0] if differs is None else differs
                        break
        stats, found = simulate(b, prop, a.seed, secs, scratch, cfg.get("race"))
        plan = None
        if found:
            plan, cls = handle(b, prop, a.seed, found, scratch, secs)
            if plan:
                violations = 1
        if not violations and deterministic is False:
            if cfg.get("xproc"):
                # for this property the difference between two processes is the violation
                plan = process_dependent(b, prop, a.seed, differs, scratch, about)
                violations = 1
            else:
                log("note: two processes simulated the same seeds differently: the code under test uses a source of nondeterminism the simulator does not control")
        wall = time.time() - t0
        st = [s for _, s in stats]
        hashes = set()
        for d, _ in stats:
            f = os.path.join(d, "hashes")
            if os.path.exists(f):
                with open(f, "rb") as fh:
                    buf = fh.read()
                for i in range(0, len(buf), 8):
                    hashes.add(buf[i:i + 8])
        runs = sum(s["runs"] for s in st)
        sim = max([s["secs"] for s in st] or [0.001]) or 0.001
        samples = []
        for s in st:
            for p in s.get("sample") or []:
                if len(samples) < 3:
                    samples.append(p)
        for k in known_findings():
            if k[0] == prop and not violations:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
        cov = dict(
            evaluations=runs,
            distinct_nontrivial=len(hashes),
            rule=about["rule"],
            samples=samples or ["the first run ended the exploration"],
            seeds=dict(base=a.seed, first=[str(s["first_seed"]) for s in st], last=[str(s["last_seed"]) for s in st]),
            runs_per_hour=int(runs / sim * 3600), seeds_per_hour=int(runs / sim * 3600),
            simulated_time=dict(unit="scheduling points of the instrumented code; there is no wall clock in this code",
                                steps=sum(s["steps"] for s in st), operations=sum(s["ops"] for s in st)),
            largest_share_of_a_step_budget=max([s.get("share", 0) for s in st] or [0]),
            task_switches=sum(s["switches"] for s in st),
            faults_injected=merge(s["fired"] for s in st),
            conditions_reached=merge(s["probes"] for s in st),
            scheduling_policies=merge(s["policies"] for s in st),
            race_detector_runs=sum(s["runs"] for s in st if s["race_build"]),
            distinct_measure="64-bit hash over every task switch (task, position, site), fault, choice and outcome of an operation of a run; counted over runs with a task switch or more than one operation",
            real_components=about["real"], stubs=about["stubs"],
            deterministic_across_processes=deterministic,
            instrumenter_notes=b.notes,
            build_s=round(t1 - t0, 1), simulation_s=round(sim, 1),
        )
        if plan:
            cov["violation"] = dict(cls=cls, message=(plan.get("message") or "")[:2000])
        ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed,
                  level=about["level"], coverage=cov, assumptions=about["assumptions"], wall_s=round(wall, 1), violations=violations)
        if not a.no_evidence:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
                json.dump(ev, fh, indent=1, ensure_ascii=False)
                fh.write("\n")
        print("%s: %d runs, %d distinct, %.1f s%s" % (prop, runs, len(hashes), wall, ", VIOLATED" if violations else ""))
        return 1 if violations else 0
    except Broken as e:
        log("check failed:", e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # whatever goes wrong in here is no violation
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
