#!/usr/bin/env python3
"""Mirror /repo's working tree and build the conformance driver against it.

usage: build.py [serial|curve|generic|parts|parallel ...]     (default: all)
"""
import fcntl
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import mirror  # noqa: E402

# build variants: target folder, binary, features
VARIANTS = {
    "serial": ("target", "replay", []),
    "curve": ("target", "replay-curve", []),
    "generic": ("target", "replay-generic", []),
    "parts": ("target", "replay-parts", []),
    "parallel": ("target-par", "replay", ["--features", "parallel"]),
}


class BuildError(Exception):
    pass


def binary(variant):
    target, name, _ = VARIANTS[variant]
    return os.path.join(HERE, "build", target, "debug", name)


def build(variant):
    target, name, extra = VARIANTS[variant]
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=os.path.join(HERE, "build", target), PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
    env.pop("RUSTFLAGS", None)
    with open(os.path.join(HERE, "build", "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mirror.sync()
        cmd = ["cargo", "build", "--quiet", "--bin", name] + extra
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, capture_output=True, text=True)
    if p.returncode != 0:
        lines = [x for x in p.stderr.splitlines() if x.startswith("error")]
        raise BuildError("cargo build (%s) failed: %s\n%s" % (variant, "; ".join(lines[:5]), p.stderr[-3000:]))
    return variant


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        try:
            build(v)
        except BuildError as e:
            print(e)
            sys.exit(2)
