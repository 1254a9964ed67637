#!/usr/bin/env python3
"""Driver of the simulator: build from /repo, search, gate, minimise, report.

  check.py PROP [--tier quick|thorough] [--secs N] [--seed N]
  check.py --replay FILE        re-executes a replay file; exit 1 if it reproduces
  check.py --setup              builds every variant
Exit 0: no violation found.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import concurrent.futures
import array, collections, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
REPLAYS = os.path.join(VERIF, "replays")
JOBS = int(os.environ.get("SIM_JOBS", 0)) or max(1, min(8, os.cpu_count() or 8))
WATCHDOG = 60.0            # seconds a single run may take before it counts as hung
REPLAY_WATCHDOG = 60.0
QUICK_SECS, THOROUGH_SECS = 25.0, 600.0
VARIANTS = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
}
USES = collections.defaultdict(lambda: ["plain"] * JOBS)
USES["C08"] = (["plain", "asan"] * JOBS)[:JOBS]


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


# ------------------------------------------------------------------ build
def sources():
    sut = []
    for f in sorted(glob.glob(os.path.join(REPO, "soil_simulator", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(f, REPO)
        with open(f, errors="replace") as h:
            if re.search(r"^\s*(int|auto)\s+main\s*\(", h.read(), re.M):
                continue                       # a program, not the library
        sut.append(rel)
    return sut, sorted(glob.glob(os.path.join(SIM, "*.cpp")))


def build(variant):
    """Compiles the library of /repo's working tree together with the simulator."""
    sut, har = sources()
    if not sut:
        die("no library sources under %s/soil_simulator" % REPO)
    hdr = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "soil_simulator", "**", "*.h*"), recursive=True)) + sorted(glob.glob(os.path.join(SIM, "*.hpp"))):
        hdr.update(f.encode()); hdr.update(open(f, "rb").read())
    flags = ["-std=c++20", "-D_GLIBCXX_ASSERTIONS", "-Wno-comment", "-w"] + VARIANTS[variant]
    hdr.update(" ".join(flags).encode())
    hdr.update(REPO.encode())
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    jobs, objs = [], []
    for f in sut + har:
        p = os.path.join(REPO, f) if not os.path.isabs(f) else f
        key = hashlib.sha256(hdr.digest() + f.encode() + open(p, "rb").read()).hexdigest()[:20]
        obj = os.path.join(out, key + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            # paths of the library stay relative, so that the result files of
            # the simulated runs land in each worker's own scratch directory
            jobs.append((["g++"] + flags + ["-I.", "-I" + SIM, "-include", os.path.join(SIM, "seam.hpp"), "-c", f, "-o", obj + ".tmp%d" % os.getpid()], obj))
    exe = os.path.join(out, "sim-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
    if os.path.exists(exe):
        return exe
    errs = []
    lock = threading.Lock()
    jobs.sort(key=lambda j: -os.path.getsize(os.path.join(REPO, j[0][-3])))

    def work():
        while True:
            with lock:
                if not jobs or errs:
                    return
                cmd, obj = jobs.pop(0)
            r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
            if r.returncode:
                with lock:
                    errs.append(" ".join(cmd) + "\n" + r.stderr[-4000:])
                return
            os.replace(cmd[-1], obj)

    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        die("the library does not compile under the simulator:\n" + errs[0])
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run(["g++"] + VARIANTS[variant] + ["-rdynamic"] + objs + ["-o", tmp, "-lglog", "-ldl"], capture_output=True, text=True)
    if r.returncode:
        die("link failed:\n" + r.stderr[-4000:])
    os.replace(tmp, exe)
    return exe


# ------------------------------------------------------------------ running
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=0:allocator_may_return_null=1:replace_str=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1", GLOG_minloglevel="0")


def limits(variant):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant == "plain":
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        os.setpgid(0, 0)
    return f


class Scratch:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="soilsim-")

    def sub(self, name):
        p = os.path.join(self.d, name)
        os.makedirs(os.path.join(p, "results"), exist_ok=True)
        os.makedirs(os.path.join(p, "soil_simulator"), exist_ok=True)
        open(os.path.join(p, "SIM_SCRATCH"), "w").close()
        return p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def classify_crash(rc, err):
    if rc == 97:
        return "hang", "a call into the library did not terminate (allocation budget exceeded)"
    m = re.search(r"(AddressSanitizer: [\w-]+|runtime error: [^\n]{0,120}|Assertion '[^']{0,100}' failed|SIM-HEAP[^\n]*|terminate called[^\n]*)", err)
    sig = "signal %d" % -rc if rc < 0 else "exit %d" % rc
    return "crash", "the process died (%s)%s" % (sig, ": " + m.group(1) if m else "")


Result = collections.namedtuple("Result", "cls op msg hash")


def run_plan(exe, variant, text, scratch, timeout=REPLAY_WATCHDOG):
    """Executes one replay text in a fresh process."""
    d = scratch.sub("p%d" % threading.get_ident())
    f = os.path.join(d, "plan.txt")
    with open(f, "w") as h:
        h.write(text)
    if text.startswith("simseq"):
        kv = dict(l.split(None, 1) for l in text.splitlines()[1:] if " " in l)
        cmd = [exe, "run", kv["prop"], kv["seed"], kv["start"], kv["stride"], kv["count"], "100000", kv["dup"]]
    else:
        cmd = [exe, "plan", f]
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, preexec_fn=limits(variant))
    try:
        out, err = p.communicate(timeout=timeout * (4 if text.startswith("simseq") else 1))
    except subprocess.TimeoutExpired:
        killpg(p)
        p.communicate()
        return Result("hang", -1, "a run did not finish within %d s" % timeout, "hang")
    h = re.findall(r"^H (\w+)", out, re.M)
    if text.startswith("simseq"):
        v = re.findall(r"^V \d+ (\S+) (-?\d+) ?(.*)$", out, re.M)
        h = [hashlib.sha256("".join(re.findall(r"^[RVN] .*$", out, re.M)).encode()).hexdigest()[:16]]
        if not v and re.search(r"^N ", out, re.M):
            v = [("nondeterminism", "-1", "the same plan executed twice took two different courses")]
    else:
        v = re.findall(r"^V (\S+) (-?\d+) ?(.*)$", out, re.M)
    if v:
        return Result(v[0][0], int(v[0][1]), v[0][2], h[-1] if h else "")
    if p.returncode != 0:
        c, m = classify_crash(p.returncode, out[-2000:] + err[-20000:])
        return Result(c, -1, m, c)
    return Result("", -1, "", h[-1] if h else "")


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        p.kill()


def known(prop):
    """listed findings: 'finding: property=C01 class=<cls> match=<regex> :: text'"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


class Search:
    def __init__(self, prop, seed, secs, dup, scratch, exes):
        self.prop, self.seed, self.secs, self.dup, self.scratch, self.exes = prop, seed, secs, dup, scratch, exes
        self.variants = USES[prop]
        self.n = len(self.variants)
        self.hits = []           # (idx, variant, cls, msg, worker, first index of that process)
        self.nond = []
        self.runs = 0
        self.nontrivial = set()
        self.hashes = set()
        self.agg = collections.Counter()
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.known = known(prop)
        self.known_seen = collections.Counter()
        self.by_variant = collections.Counter()

    def is_known(self, cls, msg):
        for c, rx, text in self.known:
            if c == cls and rx.search(msg):
                self.known_seen[text] += 1
                return True
        return False

    def worker(self, w):
        variant = self.variants[w]
        d = self.scratch.sub("w%d" % w)
        start, t_end = w, time.time() + self.secs
        while not self.stop.is_set() and time.time() < t_end:
            first = start
            errf = open(os.path.join(d, "stderr"), "w+", errors="replace")
            p = subprocess.Popen([self.exes[variant], "run", self.prop, str(self.seed), str(start), str(self.n), "100000000", "%.2f" % max(0.5, t_end - time.time()), str(self.dup)],
                                 cwd=d, stdout=subprocess.PIPE, stderr=errf, text=True, errors="replace", env=ENV, preexec_fn=limits(variant))
            state = {"t": time.time(), "idx": start, "hung": False}

            def watch():
                while p.poll() is None:
                    if self.stop.is_set():
                        killpg(p)
                        return
                    if time.time() - state["t"] > WATCHDOG:
                        state["hung"] = True
                        killpg(p)
                        return
                    time.sleep(0.1)
            wt = threading.Thread(target=watch)
            wt.start()
            ended, agg, open_idx = False, None, None
            for line in p.stdout:
                state["t"] = time.time()
                k = line[:2]
                if k == "S ":
                    open_idx = int(line[2:])
                elif k == "R ":
                    _, i, h, nt = line.split()
                    with self.lock:
                        self.runs += 1
                        self.by_variant[variant] += 1
                        self.hashes.add(h)
                        if nt == "1":
                            self.nontrivial.add(h)
                elif k == "V ":
                    _, i, cls, op, msg = (line.rstrip("\n").split(" ", 4) + [""])[:5]
                    with self.lock:
                        if not self.is_known(cls, msg):
                            self.hits.append((int(i), variant, cls, msg, w, first))
                            self.stop.set()
                    open_idx = None
                elif k == "N ":
                    with self.lock:
                        self.nond.append((int(line[2:]), variant, w, first))
                    if self.prop == "C05":
                        self.stop.set()
                elif k == "A ":
                    agg = line[2:]
                elif line.startswith("END"):
                    ended = True
            wt.join()
            p.wait()
            if agg:
                try:
                    a = json.loads(agg)
                    with self.lock:
                        for x, y in a.items():
                            self.agg[x] += y
                except ValueError:
                    pass
            if ended or self.stop.is_set():
                errf.close()
                return
            errf.seek(0)
            err = errf.read()[-20000:]
            errf.close()
            if p.returncode == 3 or open_idx is None:
                with self.lock:
                    self.hits.append((-1, variant, "harness", "worker ended with %s: %s" % (p.returncode, err[-300:]), w, first))
                self.stop.set()
                return
            cls, msg = ("hang", "a run did not finish within %d s" % WATCHDOG) if state["hung"] else classify_crash(p.returncode, err)
            with self.lock:
                if not self.is_known(cls, msg):
                    self.hits.append((open_idx, variant, cls, msg, w, first))
                    self.stop.set()
            start = open_idx + self.n

    def go(self):
        ts = [threading.Thread(target=self.worker, args=(w,)) for w in range(self.n)]
        [t.start() for t in ts]
        [t.join() for t in ts]


def minimise(exe, variant, text, cls, scratch, budget):
    """ddmin over the operation list, then over the fault switches."""
    head = [l for l in text.splitlines() if not l.startswith("op ")]
    ops = [l for l in text.splitlines() if l.startswith("op ")]
    t_end = time.time() + budget
    tries = [0]
    wait = REPLAY_WATCHDOG / 5 if cls == "hang" else REPLAY_WATCHDOG    # confirmed with the full time afterwards

    def bad(h, o):
        tries[0] += 1
        return run_plan(exe, variant, "\n".join(h + o) + "\n", scratch, wait).cls == cls

    # cut the tail first: nothing after the violating operation matters
    r = run_plan(exe, variant, text, scratch, wait)
    if r.op >= 0 and bad(head, ops[:r.op + 1]):
        ops = ops[:r.op + 1]
    n = 2
    while len(ops) >= 2 and time.time() < t_end:
        size = max(1, len(ops) // n)
        changed = False
        i = 0
        while i < len(ops) and time.time() < t_end:
            cand = ops[:i] + ops[i + size:]
            if cand and bad(head, cand):
                ops = cand
                changed = True
            else:
                i += size
        if not changed:
            if size == 1:
                break
            n = min(len(ops), n * 2)
        else:
            n = max(2, n - 1)
    for k, l in enumerate(list(head)):
        if l.startswith("cfg e_") and not l.endswith(" 0") and time.time() < t_end:
            cand = [x if x != l else " ".join(l.split()[:2]) + " 0" for x in head]
            if bad(cand, ops):
                head = cand
    for key, val in (("terrain", "0"), ("rngmode", "0")):
        cand = [("cfg %s %s" % (key, val)) if l.startswith("cfg %s " % key) else l for l in head]
        if cand != head and time.time() < t_end and bad(cand, ops):
            head = cand
    return "\n".join(head + ops) + "\n", tries[0], len(ops)


def gen(exe, variant, prop, seed, idx, scratch):
    d = scratch.sub("g")
    r = subprocess.run([exe, "gen", prop, str(seed), str(idx)], cwd=d, capture_output=True, text=True, env=ENV, preexec_fn=limits(variant), timeout=120)
    return r.stdout


def confirm(exe, variant, text, scratch, times=3):
    """Fresh-process replays; returns the result when all agree exactly."""
    with concurrent.futures.ThreadPoolExecutor(times) as ex:          # side by side: a hung run takes its time
        rs = list(ex.map(lambda _: run_plan(exe, variant, text, scratch), range(times)))
    if rs[0].cls and all((r.cls, r.op, r.hash) == (rs[0].cls, rs[0].op, rs[0].hash) for r in rs):
        return rs[0], True
    if all(r.cls for r in rs):
        return rs[0], False
    return None, False


def rule_of(exe, prop, scratch):
    out = subprocess.run([exe, "list"], cwd=scratch.sub("l"), capture_output=True, text=True, env=ENV).stdout
    for l in out.splitlines():
        k, _, v = l.partition("\t")
        if k == prop:
            return v
    return None


def check(prop, tier, secs, seed):
    t0 = time.time()
    need = sorted(set(USES[prop]))
    exes = {}
    for v in need:
        exes[v] = build(v)
    t_build = time.time() - t0
    with Scratch() as scratch:
        rule = rule_of(exes[need[-1]], prop, scratch)
        if rule is None:
            die("unknown property " + prop)
        s = Search(prop, seed, secs, 20, scratch, exes)
        ts = time.time()
        s.go()
        search_s = time.time() - ts
        verdict, info = 0, None
        if prop == "C05" and not s.hits and s.nond:
            i, v, w, first = s.nond[0]
            s.hits.append((i, v, "nondeterminism", "the same plan executed twice took two different courses", w, first))
        for idx, variant, cls, msg, w, first in sorted(s.hits, key=lambda h: h[0]):
            if cls == "harness":
                die(msg)
            exe = exes[variant]
            text = gen(exe, variant, prop, seed, idx, scratch)
            res, exact = confirm(exe, variant, text, scratch)
            tries, nops = 0, text.count("\nop ")
            if res:
                small, tries, nops = minimise(exe, variant, text, res.cls, scratch, 45 if tier == "quick" else 180)
                r2, ex2 = confirm(exe, variant, small, scratch)
                if r2 and r2.cls == res.cls and (ex2 or not exact):
                    text, res, exact = small, r2, ex2
                else:
                    nops = text.count("\nop ")
            else:
                # needs the runs before it (state leaking between runs)
                count = (idx - first) // s.n + 1
                text = "simseq 1\nprop %s\nseed %d\nstart %d\nstride %d\ncount %d\ndup %d\n" % (prop, seed, first, s.n, count, s.dup)
                res, exact = confirm(exe, variant, text, scratch, 2)
                nops = count
            if not res or (not exact and prop != "C05"):
                print("NOT-REPRODUCED %s idx=%d class=%s %s" % (prop, idx, cls, msg))
                info = info or ("unreproduced", idx, cls, msg)
                continue
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-s%d-i%d.txt" % (prop, seed, idx))
            with open(path, "w") as h:
                h.write(text)
                h.write("# variant %s\n# expect %s op %d hash %s\n# %s\n# minimised: %d operations left, %d candidate runs\n" % (variant, res.cls, res.op, res.hash, res.msg, nops, tries))
            print("seed %d run %d: [%s] %s" % (seed, idx, res.cls, res.msg))
            print("minimised to %d operations; replay: python3 %s --replay %s" % (nops, os.path.join(VERIF, "check.py"), path))
            verdict, info = 1, (path, idx, res.cls, res.msg)
            break
        for text, k in s.known_seen.items():
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        samples = []
        for i in (0, 1):
            pt = gen(exes["plain"] if "plain" in exes else exes[need[0]], "plain", prop, seed, i, scratch).splitlines()
            ops = [l for l in pt if l.startswith("op ")]
            samples.append({"run": i, "config": " ".join(l[4:] for l in pt if l.startswith("cfg ")), "operations": len(ops), "first_operations": ops[:6]})
        faults = {k[6:]: v for k, v in sorted(s.agg.items()) if k.startswith("fault_")}
        sim_time = s.agg.pop("sim_time", 0)
        states = s.agg.pop("states", 0)
        dups = s.agg.pop("dup_checks", 0)
        runs_counted = s.agg.pop("runs", 0)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
            "coverage": {
                "evaluations": s.runs, "distinct_nontrivial": len(s.nontrivial), "rule": rule, "samples": samples,
                "runs_per_hour": int(s.runs / max(search_s, 1e-9) * 3600),
                "simulated_seconds": round(sim_time, 1),
                "faults_fired": faults,
                "schedule_changes": s.agg.get("sched_switch", 0),
                "distinct_run_histories": len(s.hashes),
                "distinct_states_per_worker_summed": states,
                "state_measure": "hash of terrain, machine layers, carried layers, records, areas and equilibrium flag after every accepted step; distinct within a worker, summed over workers",
                "reexecuted_runs_compared": dups, "reexecuted_runs_differing": len(s.nond),
                "counters": {k: v for k, v in sorted(s.agg.items()) if not k.startswith("fault_")},
                "runs_by_build": dict(s.by_variant),
                "real_code": "every file of /repo/soil_simulator except the program entry point, compiled from the working tree",
                "stubs": "std::mt19937 and std::random_device (seeded schedule), operator new/delete, wall and CPU clocks, rand, glog sinks; file system calls go to real files in a scratch directory through a fault layer",
                "build_s": round(t_build, 1), "search_s": round(search_s, 1),
            },
            "assumptions": ASSUME,
            "wall_s": round(time.time() - t0, 1), "violations": verdict,
        }
        if info:
            ev["coverage"]["violation"] = {"where": str(info[0]), "run": info[1], "class": info[2], "message": info[3]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
    if verdict:
        print("VIOLATION property=%s replay=%s" % (prop, info[0]))
        return 1
    if info and info[0] == "unreproduced":
        die("a violation did not reproduce in a fresh process")
    if s.runs == 0:
        die("no run finished")
    print("OK %s: %d runs (%d distinct non-trivial), %.0f simulated s, %d re-executed identically, faults fired %d, %.0f s" % (
        prop, s.runs, len(s.nontrivial), sim_time, dups - len(s.nond), sum(faults.values()), time.time() - t0))
    if s.nond:
        print("note: %d re-executed runs differed (reported by C05)" % len(s.nond))
    return 0


LEVEL = {}
ASSUME = [
    "machine poses keep every corner at least a few cells away from the border of the site",
    "the machine is larger than a few cells and smaller than the site; slopes step by at least one height cell",
    "a run that finds nothing is evidence over the sampled schedules and faults, not a proof",
]


def replay(path):
    text = open(path).read()
    body = "\n".join(l for l in text.splitlines() if not l.startswith("#")) + "\n"
    m = re.search(r"^# variant (\S+)", text, re.M)
    e = re.search(r"^# expect (\S+) op (-?\d+) hash (\S*)", text, re.M)
    variant = m.group(1) if m else "plain"
    exe = build(variant)
    with Scratch() as scratch:
        r = run_plan(exe, variant, body, scratch)
    prop = re.search(r"^prop (\S+)", body, re.M).group(1)
    if not r.cls:
        print("the replay shows no violation")
        return 0
    print("[%s] operation %d, event hash %s: %s" % (r.cls, r.op, r.hash, r.msg))
    if e:
        same = (r.cls, str(r.op), r.hash) == (e.group(1), e.group(2), e.group(3))
        print("identical to the recorded execution" if same else "differs from the recorded execution (%s op %s hash %s)" % e.groups())
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    a = sys.argv[1:]
    if "--setup" in a:
        for v in VARIANTS:
            print("built", build(v))
        return 0
    if "--replay" in a:
        return replay(a[a.index("--replay") + 1])

    def opt(n, d):
        return a[a.index(n) + 1] if n in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    secs = float(opt("--secs", QUICK_SECS if tier == "quick" else THOROUGH_SECS))
    return check(a[0], tier, secs, seed)


if __name__ == "__main__":
    sys.exit(main())
