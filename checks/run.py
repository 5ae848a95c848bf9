#!/usr/bin/env python3
"""Builds one check from /repo's current working tree and runs it.

usage: run.py C01 [--replay FILE]
Environment: VERIF_SEED, VERIF_TIER (quick | thorough).
Exit: 0 held, 1 violation (with a VIOLATION line), 2 no answer.
"""
import glob, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
PACKAGES = ["common", "multi-target-decision-tree", "multi-target-grad-boost"]
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}


def env(extra=None):
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RAYON_NUM_THREADS", "RUST_BACKTRACE"):
        e.pop(k, None)
    if extra:
        e.update(extra)
    return e


def give_up(msg):
    print("INCONCLUSIVE: " + msg, flush=True)
    sys.exit(2)


def cargo(args, e, cwd, timeout=600):
    try:
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        give_up("cargo %s took more than %d s" % (args[0], timeout))
    return r.returncode, r.stdout.decode("utf-8", "replace")


def build(name, target=TARGET, e=None, profile_args=None, cwd=HARNESS, features=None):
    """Recompiles the three crates of /repo (never trusting file times) and the bin."""
    e = e or env()
    profile_args = profile_args or ["--release"]
    clean = ["clean", "--offline", "--target-dir", target] + profile_args
    for p in PACKAGES:
        clean += ["-p", p]
    code, out = cargo(clean, e, cwd)
    if code:
        print(out[-4000:])
        give_up("cargo clean failed")
    args = ["build", "--offline", "--locked", "--target-dir", target] + profile_args + ["--bin", name]
    code, out = cargo(args, e, cwd)
    if code:
        print(out[-6000:])
        give_up("the harness does not build against /repo's working tree")


def write_replay(prop, text):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-crash.json" % prop)
    with open(path, "w") as f:
        f.write(text)
    return path


def run_bin(prop, binary, extra_args, tier, seed, limit, e):
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = os.path.join(EVIDENCE, prop + ".json")
    for f in glob.glob(os.path.join(REPLAYS, prop + ".current.*")) + [ev]:
        if os.path.exists(f) and "--replay" not in extra_args:
            os.remove(f)
    cmd = [binary, "--tier", tier, "--seed", seed, "--replays", REPLAYS] + extra_args
    if "--replay" not in extra_args:
        cmd += ["--evidence", ev]
    p = subprocess.Popen(cmd, cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        print(out.decode("utf-8", "replace")[-4000:])
        give_up("the check ran longer than %d s" % limit)
    text = out.decode("utf-8", "replace")
    return p.returncode, text


def crashed(code, text):
    """A signal raised by the program itself, not by the memory watcher."""
    if code >= 0:
        return None
    sig = -code
    if sig not in {int(s) for s in CRASH}:
        return None
    if "memory allocation of" in text and "failed" in text:
        return None
    return signal.Signals(sig).name


def explain_crash(prop, binary, tier, seed, sig, text, e):
    """Re-runs the cases in flight when the process died, one at a time."""
    marks = sorted(glob.glob(os.path.join(REPLAYS, prop + ".current.*")))
    saved = []
    for i, m in enumerate(marks):
        t = open(m, errors="replace").read().replace("\0", "").strip()
        if t:
            path = os.path.join(REPLAYS, "%s-inflight-%d.json" % (prop, i))
            with open(path, "w") as f:
                f.write(t + "\n")
            saved.append(path)
        os.remove(m)
    hit = None
    deadline = time.time() + 200
    for path in saved:
        if time.time() > deadline:
            break
        try:
            r = subprocess.run([binary, "--replay", path, "--replays", REPLAYS], cwd=VERIF, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode < 0 or r.returncode == 1:
            hit = path
            break
    for path in saved:
        if path != hit:
            os.remove(path)
    for m in glob.glob(os.path.join(REPLAYS, prop + ".current.*")):
        os.remove(m)
    if hit is None:
        hit = write_replay(prop, '{"property": "%s", "tier": "%s", "seed": %s, "signal": "%s"}\n' % (prop, tier, seed, sig))
    print(text[-3000:])
    print("the process died of %s while running the code under test" % sig)
    print("VIOLATION property=%s replay=%s" % (prop, hit), flush=True)
    ev = os.path.join(EVIDENCE, prop + ".json")
    with open(ev, "w") as f:
        f.write('{"property": "%s", "tier": "%s", "seed": %s, "level": "exploration", "coverage": '
                '{"evaluations": %d, "distinct_nontrivial": 0, "rule": "the process died of %s before it could report", '
                '"samples": []}, "wall_s": 0, "violations": 1}\n' % (prop, tier, seed, len(saved), sig))
    return 1


def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=<id> ...' listed for this property."""
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(line.strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.isdigit():
        seed = "1"
    extra = []
    if "--replay" in sys.argv:
        extra = ["--replay", os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])]
    limit = 3600 * 3 if tier == "thorough" else 700
    if prop == "C22":
        import sanitizers
        sys.exit(sanitizers.main(tier, seed, extra))
    name = prop.lower()
    build(name)
    extra_env = {}
    if prop == "C21":
        import cli
        extra_env["VPH_CLI"] = cli.build()
    binary = os.path.join(TARGET, "release", name)
    scratch = tempfile.mkdtemp(prefix="vph-")
    extra_env["VPH_SCRATCH"] = scratch
    try:
        sys.exit(judge(prop, binary, extra, tier, seed, limit, env(extra_env)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def judge(prop, binary, extra, tier, seed, limit, e):
    code, text = run_bin(prop, binary, extra, tier, seed, limit, e)
    sig = crashed(code, text)
    if sig and extra:
        print(text[-3000:])
        print("VIOLATION property=%s replay=%s" % (prop, extra[1]), flush=True)
        return 1
    if sig:
        return explain_crash(prop, binary, tier, seed, sig, text, e)
    for line in known_findings(prop):
        print(line)
    sys.stdout.write(text[-20000:])
    sys.stdout.flush()
    if code == 1 and ("VIOLATION property=%s " % prop) in text:
        return 1
    if code == 0:
        return 0
    give_up("the check ended with status %d" % code)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["run"] = sys.modules["__main__"]
    main()
