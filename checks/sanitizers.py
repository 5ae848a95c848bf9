"""C22: ThreadSanitizer, AddressSanitizer, MemorySanitizer and Miri over the
workload in harness/src/work.rs (bin c22).

A report counts as a violation when the project's own code is in it: for a
data race, when the innermost frame of one of the two accesses outside the
standard library lies in /repo; for the other reports, when a frame of the
report does.  Reports wholly inside dependencies are counted, not blamed.
"""
import concurrent.futures, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
import run

TRIPLE = "x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-" + TRIPLE
FLAGS = {
    "tsan": "-Zsanitizer=thread",
    "msan": "-Zsanitizer=memory -Zsanitizer-memory-track-origins",
    "asan": "-Zsanitizer=address -Zub-checks=yes",
}
OPTIONS = {
    "tsan": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:detect_deadlocks=0:history_size=5:print_full_thread_history=0"},
    "msan": {"MSAN_OPTIONS": "exitcode=66"},
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=66:detect_stack_use_after_return=1"},
}
NAMES = {"tsan": "ThreadSanitizer", "msan": "MemorySanitizer", "asan": "AddressSanitizer", "miri": "Miri"}
MIRI_DIR = os.path.join(run.VERIF, "miri")

# (sanitizer, scale, callers, rounds, pools): quick; thorough multiplies rounds
PLAN = [
    ("tsan", "small", 8, 40, "0,2,16"),
    ("tsan", "any", 6, 30, "0,1,3,8"),
    ("tsan", "big", 4, 1, "0,3"),
    ("asan", "any", 6, 30, "0,1,3,8"),
    ("asan", "big", 4, 2, "0,3"),
    ("msan", "any", 6, 30, "0,1,3,8"),
    ("msan", "big", 4, 2, "0,3"),
]


def target(san):
    return os.path.join(run.VERIF, "target", "san-" + san)


def env_for(san, extra=None):
    e = run.env({"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_INCREMENTAL": "0"})
    if san == "miri":
        e["XDG_CACHE_HOME"] = os.path.join(run.VERIF, "target", "cache")
        for k in ("MIRIFLAGS", "MIRI_SYSROOT"):
            e.pop(k, None)
    else:
        e["RUSTFLAGS"] = FLAGS[san] + " -Cforce-frame-pointers=yes"
        e["RUST_MIN_STACK"] = str(256 << 20)
        e.update(OPTIONS[san])
    e.update(extra or {})
    return e


def cargo(args, e, cwd, timeout=700):
    try:
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 1, "cargo %s took more than %d s" % (args[0], timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def clean(san, e, cwd, extra):
    where = os.path.join(target(san), "miri") if san == "miri" else target(san)
    args = ["clean", "--offline", "--target-dir", where] + extra
    for p in run.PACKAGES:
        args += ["-p", p]
    return cargo(args, e, cwd)


def build(san):
    t0 = time.time()
    if san == "miri":
        e = env_for(san)
        code, out = cargo(["miri", "setup"], e, MIRI_DIR)
        if code == 0:
            clean(san, e, MIRI_DIR, ["--target", TRIPLE])
            # a run that does nothing compiles everything
            code, out = cargo(miri_args(["--pools", ""]), dict(e, MIRIFLAGS=MIRIFLAGS), MIRI_DIR)
    else:
        e = env_for(san)
        clean(san, e, run.HARNESS, ["--release", "--target", TRIPLE])
        args = ["build", "--release", "--offline", "--locked", "--target-dir", target(san), "--target", TRIPLE, "--bin", "c22"]
        if san != "asan":
            args.append("-Zbuild-std")
        code, out = cargo(args, e, run.HARNESS)
    return san, code, out, time.time() - t0


MIRIFLAGS = "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"


def miri_args(args):
    return ["miri", "run", "--offline", "--locked", "--target", TRIPLE, "--target-dir", target("miri"), "--"] + args


def prepare():
    """Nothing: the sanitizer builds are made by the check itself."""


def run_one(job):
    """Returns (returncode or None, text)."""
    san, args, seed, dirname, limit, flags = job
    if san == "miri":
        e = env_for(san, {"MIRIFLAGS": flags})
        cmd, cwd = ["cargo"] + miri_args(args), MIRI_DIR
    else:
        e = env_for(san)
        cmd, cwd = [os.path.join(target(san), TRIPLE, "release", "c22")] + args, run.VERIF
    if dirname:
        cmd = cmd + ["--dir", dirname]
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, err = p.communicate()
        return None, err.decode("utf-8", "replace")
    return p.returncode, err.decode("utf-8", "replace")


def foreign(path):
    """standard library, runtime or interceptor frames"""
    return ("/rustlib/src/" in path or path.startswith("/rustc/") or "hashbrown" in path
            or "/library/" in path or "compiler-rt" in path or "sysdeps" in path or "/llvm-project/" in path)


def place(frame):
    """The source path of a sanitizer stack frame."""
    m = re.search(r"\s(/[^\s:]+\.(?:rs|cpp|h|c|S)):\d+", frame)
    return m.group(1) if m else None


def blame(frames):
    """'repo', 'harness', 'dependency' or None for a stack, innermost first"""
    for f in frames:
        p = place(f)
        if p is None or foreign(p):
            continue
        if p.startswith(run.REPO + "/"):
            return "repo"
        if p.startswith(run.VERIF + "/"):
            return "harness"
        return "dependency"
    return None


def tsan_reports(text):
    out = []
    for block in re.split(r"={18,}", text):
        if "WARNING: ThreadSanitizer" not in block and "ERROR: ThreadSanitizer" not in block:
            continue
        stacks, cur = [], None
        access = re.compile(r"^\s+(Previous\s+)?(atomic\s+)?(read|write)\b.* by ", re.I)
        for line in block.splitlines():
            if access.match(line):
                cur = []
                stacks.append(cur)
            elif re.match(r"^\s+#\d+ ", line):
                if cur is not None:
                    cur.append(line)
            elif line.strip() and not line.startswith("    "):
                cur = None
        if not stacks:
            frames = [l for l in block.splitlines() if re.match(r"^\s+#\d+ ", l)]
            stacks = [frames]
        whose = [blame(s) for s in stacks]
        out.append(("repo" in whose, block.strip()))
    return out


def error_reports(san, text):
    key = "%s: " % NAMES[san]
    i = text.find(key)
    if i < 0:
        return []
    body = text[i:]
    mine = any((place(l) or "").startswith(run.REPO + "/") for l in body.splitlines() if re.match(r"^\s+#\d+ ", l))
    return [(mine, body[:12000])]


def miri_reports(text):
    i = text.find("error: Undefined Behavior")
    if i < 0:
        return []
    body = text[i:]
    places = re.findall(r"(?:-->|at) (/?[^\s:]+\.rs):\d+", body)
    for p in places:
        q = p if p.startswith("/") else os.path.normpath(os.path.join(MIRI_DIR, p))
        if foreign(q):
            continue
        return [(q.startswith(run.REPO + "/") or q.startswith(run.VERIF + "/"), body[:12000])]
    return [(False, body[:12000])]


def judge(san, code, text):
    """(violations, reports not blamed)"""
    if san == "tsan":
        reports = tsan_reports(text)
    elif san == "miri":
        reports = miri_reports(text)
    else:
        reports = error_reports(san, text)
    mine = [r for ok, r in reports if ok]
    other = [r for ok, r in reports if not ok]
    if not mine and "unsafe precondition(s) violated" in text:
        mine.append(text[-6000:])
    if not mine and code is not None and code < 0 and -code in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL):
        mine.append("the process died of %s\n%s" % (signal.Signals(-code).name, text[-6000:]))
    return mine, other


def observed(text):
    for line in reversed(text.splitlines()):
        if line.startswith("OBSERVED "):
            try:
                return json.loads(line[9:])
            except ValueError:
                return None
    return None


def jobs(tier, seed, scratch):
    times = 1 if tier == "quick" else 20
    out = []
    for san, scale, callers, rounds, pools in PLAN:
        for t in range(times):
            s = int(seed) * 100 + t
            args = ["--seed", str(s), "--scale", scale, "--callers", str(callers), "--rounds", str(rounds),
                    "--pools", pools, "--secs", "35" if tier == "quick" else "240"]
            out.append((san, args, s, scratch, 240 if tier == "quick" else 900, None))
    return out


def miri_jobs(tier, seed, scratch):
    out = []
    for t in range(8 if tier == "quick" else 240):
        s = int(seed) * 1000 + t
        flags = MIRIFLAGS + " -Zmiri-seed=%d" % s
        flags += [" -Zmiri-preemption-rate=0.05", "", " -Zmiri-preemption-rate=0.3", " -Zmiri-compare-exchange-weak-failure-rate=0.5"][t % 4]
        args = ["--seed", str(s), "--scale", "tiny", "--callers", "2", "--rounds", "1",
                "--pools", ["2", "1", "3", "0"][t // 2 % 4]]
        # reading files is slow under Miri: one run in four does it
        out.append(("miri", args, s, scratch if t % 4 == 1 else None, 400 if tier == "quick" else 1200, flags))
    return out


def main(tier, seed, extra):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vph-")
    try:
        return check(tier, seed, extra, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(tier, seed, extra, scratch, t0):
    os.makedirs(run.REPLAYS, exist_ok=True)
    os.makedirs(run.EVIDENCE, exist_ok=True)
    ev = os.path.join(run.EVIDENCE, "C22.json")
    plan, slow = jobs(tier, seed, scratch), miri_jobs(tier, seed, scratch)
    if extra:
        old = json.load(open(extra[1]))
        job = (old["sanitizer"], old["args"], 0, scratch, 900, old.get("flags"))
        plan, slow = ([job], []) if old["sanitizer"] != "miri" else ([], [job])
    elif os.path.exists(ev):
        os.remove(ev)
    need = sorted({j[0] for j in plan + slow})
    with concurrent.futures.ThreadPoolExecutor(len(need)) as pool:
        for san, code, out, secs in pool.map(build, need):
            if code:
                print(out[-5000:])
                run.give_up("the %s build of the workload failed" % NAMES[san])
            print("built for %s in %.0f s" % (NAMES[san], secs), flush=True)

    totals = {s: {"executions": 0} for s in need}
    samples, others, problems, violation = [], {}, [], None

    def take(job, result):
        nonlocal violation
        san, args, _, _, _, flags = job
        code, text = result
        mine, other = judge(san, code, text)
        others[san] = others.get(san, 0) + len(other)
        if mine and violation is None:
            path = os.path.join(run.REPLAYS, "C22-%s.json" % san)
            with open(path, "w") as f:
                json.dump({"sanitizer": san, "args": args, "flags": flags, "report": mine[0]}, f, indent=1)
            violation = (san, path, mine[0])
        seen = observed(text)
        t = totals[san]
        t["executions"] += 1
        if seen:
            for k, v in seen.items():
                if k in ("panic texts", "samples"):
                    continue
                if k in ("most split searches at once", "worker indices that searched"):
                    t[k] = max(t.get(k, 0), v)
                else:
                    t[k] = t.get(k, 0) + v
            if len(samples) < 8:
                for s in seen.get("samples", [])[:1]:
                    samples.append("%s, %s: %s" % (NAMES[san], " ".join(args), s[:400]))
            for s in seen.get("panic texts", []):
                t.setdefault("panic texts", [])
                if len(t["panic texts"]) < 3:
                    t["panic texts"].append(s[:200])
        elif not mine:
            problems.append("%s %s: status %s\n%s" % (NAMES[san], " ".join(args), code, text[-1500:]))

    for j in plan:
        t1 = time.time()
        take(j, run_one(j))
        print("%s %s: %.0f s" % (NAMES[j[0]], " ".join(j[1]), time.time() - t1), flush=True)
        if violation:
            break
    if not violation:
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            def timed(j):
                t1 = time.time()
                r = run_one(j)
                print("%s %s: %.0f s" % (NAMES[j[0]], " ".join(j[1]), time.time() - t1), flush=True)
                return r
            for j, r in zip(slow, pool.map(timed, slow)):
                take(j, r)

    good = sum(t["executions"] for t in totals.values()) - len(problems)
    sessions = sum(t.get("sessions", 0) for t in totals.values())
    distinct = sum(t.get("distinct", 0) for t in totals.values())
    if not extra:
        with open(ev, "w") as f:
            json.dump({
                "property": "C22", "tier": tier, "seed": int(seed), "level": "exploration",
                "coverage": {
                    "evaluations": sessions, "distinct_nontrivial": distinct,
                    "rule": "an evaluation is one session: all tree kinds, three ensembles, partitions, sorting, scoring, concurrent prediction, "
                            "printing and file reading on one generated data set, run by several threads at once under a sanitizer or Miri; "
                            "non-trivial: the plain tree of its data has a split; distinct by data within an execution",
                    "samples": samples or ["none"],
                    "observed": {NAMES[s]: totals[s] for s in need},
                    "reports wholly inside dependencies, not blamed": {NAMES[s]: n for s, n in others.items()},
                    "executions without a result": [p[:400] for p in problems],
                },
                "assumptions": ["a panic is no memory error: calls outside the project's contract may panic, nothing else", "dependencies (rayon, crossbeam, csv) are trusted; Miri runs use rayon 1.12 instead of 1.5.1"],
                "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0,
            }, f, indent=1)
            f.write("\n")
    for line in run.known_findings("C22"):
        print(line)
    for s in need:
        print("%s: %s" % (NAMES[s], json.dumps(totals[s])[:900]))
    if violation:
        san, path, report = violation
        print(report[:5000])
        print("%s reports an error in the project's code" % NAMES[san])
        print("VIOLATION property=C22 replay=%s" % path, flush=True)
        return 1
    for p in problems[:3]:
        print("no result: " + p)
    for s in need:
        if totals[s].get("total", 0) == 0:
            run.give_up("no execution under %s finished" % NAMES[s])
        if totals[s].get("panics", 0) * 2 > totals[s]["total"]:
            run.give_up("most of the workload panics under %s" % NAMES[s])
    print("C22: no report in the project's code over %d sessions in %d executions (%.0f s)" % (sessions, good, time.time() - t0))
    return 0
