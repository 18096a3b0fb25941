#!/usr/bin/env python3
"""Builds all the checkers once, so that what they need is known to be there."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for crate in sorted(os.listdir(os.path.join(ROOT, "harness"))):
    d = os.path.join(ROOT, "harness", crate)
    if not os.path.exists(os.path.join(d, "checkers")):
        continue
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "harness", "target", crate), CARGO_NET_OFFLINE="true")
    for a in ([], ["--release"]):
        if subprocess.run(["cargo", "build", "--offline", "--bins", "--quiet"] + a, cwd=d, env=env).returncode:
            sys.exit(1)
    if crate == "seq":
        env.update(CARGO_TARGET_DIR=env["CARGO_TARGET_DIR"] + "-asan", RUSTFLAGS="-Zsanitizer=address --cfg seq_asan")
        if subprocess.run(["cargo", "+nightly", "build", "--offline", "--bins", "--quiet", "--profile", "asan", "--target", "x86_64-unknown-linux-gnu"], cwd=d, env=env).returncode:
            sys.exit(1)
