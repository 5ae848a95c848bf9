"""Builds the command-line program of /repo for C21."""
import os
import run


def build():
    target = os.path.join(run.VERIF, "target", "cli")
    e = run.env()
    manifest = os.path.join(run.REPO, "Cargo.toml")
    clean = ["clean", "--offline", "--manifest-path", manifest, "--target-dir", target, "--release"]
    for p in run.PACKAGES + ["main"]:
        clean += ["-p", p]
    code, out = run.cargo(clean, e, run.VERIF)
    if code:
        print(out[-4000:])
        run.give_up("cargo clean failed")
    code, out = run.cargo(["build", "--offline", "--locked", "--manifest-path", manifest, "-p", "main",
                           "--release", "--target-dir", target], e, run.VERIF)
    if code:
        print(out[-6000:])
        run.give_up("the program does not build from /repo's working tree")
    return os.path.join(target, "release", "main")
