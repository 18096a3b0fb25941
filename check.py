#!/usr/bin/env python3
"""Runs the check of one property: check.py <property> [quick|thorough]

Builds the checkers from /repo's working tree, runs those that decide the property (each in a build with
and in a build without assertions and overflow checks) and writes evidence/<property>.json.
Exit 0: the property held on everything explored. Exit 1: VIOLATION line was printed. Exit 2: no answer.
"""
import fcntl, json, os, shutil, subprocess, sys, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN

ASSUME = {
    "seq": "single thread; the instrumented allocator always moves on realloc, never reuses memory within a history and refuses requests over 1 MiB",
    "conc": "a load never reads a store that is executed later (no load buffering); stores enter the modification order when executed; as many spurious failures of weak compare-exchange per execution as listed (1 quick, 2 thorough); stores become visible in finite time; at most three threads besides an idle main thread",
}


def cargo(target, bins, profile):
    """Command, and what it needs in the environment."""
    b = [x for b in bins for x in ("--bin", b)]
    env = {"CARGO_TARGET_DIR": target}
    if profile == "asan":
        env["CARGO_TARGET_DIR"] = target + "-asan"
        env["RUSTFLAGS"] = "-Zsanitizer=address --cfg seq_asan"
        return ["cargo", "+nightly", "build", "--offline", "--quiet", "--profile", "asan", "--target", "x86_64-unknown-linux-gnu"] + b, env
    return ["cargo", "build", "--offline", "--quiet"] + b + (["--release"] if profile == "release" else []), env


def binary(target, b, profile):
    return os.path.join(target + "-asan/x86_64-unknown-linux-gnu" if profile == "asan" else target, profile, b)


def build(crate, bins):
    """`bins`: pairs of checker and profile."""
    d = os.path.join(HERE, "harness", crate)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "harness", "target", crate), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    lock = open(os.path.join(env["CARGO_TARGET_DIR"], ".build-lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    # Times of files say nothing certain about the working tree: always compile lokky anew.
    for f in glob.glob(os.path.join(HERE, "harness", "target", crate + "*", "**", ".fingerprint", "lokky-*"), recursive=True):
        shutil.rmtree(f, ignore_errors=True)
    jobs = []
    for p in sorted({p for _, p in bins}):
        cmd, add = cargo(env["CARGO_TARGET_DIR"], sorted({b for b, q in bins if p == q}), p)
        jobs.append((p, subprocess.Popen(cmd, cwd=d, env=dict(env, **add), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for p, j in jobs:
        log, _ = j.communicate()
        if j.returncode != 0:
            errs = [l for l in log.splitlines() if not l.startswith("warning")]
            print("\n".join(errs[-60:]))
            print(f"check: cannot build {crate} ({p})")
            sys.exit(2)
    lock.close()
    return env["CARGO_TARGET_DIR"]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough") or prop not in PLAN:
        print(__doc__)
        sys.exit(2)
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    replay = os.path.join(ev, "replay")
    os.makedirs(replay, exist_ok=True)
    for f in glob.glob(os.path.join(replay, prop + "-*")):
        os.remove(f)
    steps = PLAN[prop]["run"]
    dirs = {}
    for crate, _, profiles in steps:
        if crate not in dirs:
            dirs[crate] = build(crate, [(b, p) for c, b, ps in steps if c == crate for p in ps])
    built = time.time() - t0
    tot = {"states": 0, "transitions": 0, "fault_runs": 0, "executed_ops": 0, "runs": 0}
    worlds, samples, cut, viol, other = [], [], [], 0, 0
    kinds, outs, extra = {}, {}, {}
    failed = False
    for crate, b, profiles in steps:
        for p in profiles:
            out = os.path.join(ev, f"{prop}.{b}.{p}.json.tmp")
            try:
                r = subprocess.run([binary(dirs[crate], b, p), prop, tier, replay, out, p],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                                   timeout=870 - (time.time() - t0) if tier == "quick" else None)
            except subprocess.TimeoutExpired:
                print(f"check: {b} {p} does not finish in time")
                sys.exit(2)
            sys.stderr.write(r.stderr[-20000:])
            sys.stdout.write(r.stdout[-20000:])
            d = None
            if os.path.exists(out):
                d = json.load(open(out))
                os.remove(out)
            if r.returncode != 0 and f"VIOLATION property={prop} " in r.stdout:
                failed = True
                viol += d["violations"] if d else 1
            elif r.returncode != 0 or d is None:
                print(r.stderr[-3000:])
                print(f"check: {b} {p} ended with {r.returncode}")
                sys.exit(2)
            if d:
                for k in tot:
                    tot[k] += d[k]
                worlds += [f"[{p}] {w}" for w in d["worlds"]]
                cut += [f"[{p}] {w}" for w in d["cut"]]
                samples += d["samples"]
                other += d["other_kind"]
                for k, v in d["op_kinds"].items():
                    kinds[k] = kinds.get(k, 0) + v
                for k, v in d["outcomes"].items():
                    outs[k] = outs.get(k, 0) + v
                for k, v in d.get("extra", {}).items():
                    extra[k] = extra.get(k, 0) + v
            if failed:
                break
        if failed:
            break
    cov = {
        "states": tot["states"], "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["runs"],
        "fault_transitions": tot["fault_runs"], "operations_executed": tot["executed_ops"],
        "samples": samples[:12],
        "operations": kinds, "outcomes": outs, "worlds": worlds, "cut_by_limit": cut,
        "histories_left_because_of_violations_of_other_properties": other,
        "exhaustive": not cut and not failed and other == 0,
        "build_s": round(built, 1),
        "method": PLAN[prop]["technique"],
    }
    cov.update(extra)
    crates = sorted({c for c, _, _ in steps})
    json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
               "level": "model_checking", "coverage": cov,
               "assumptions": [ASSUME[c] for c in crates],
               "violations": viol, "wall_s": round(time.time() - t0, 1)},
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for l in open(os.path.join(HERE, "known_findings.txt")) if os.path.exists(os.path.join(HERE, "known_findings.txt")) else []:
        if l.startswith(f"known: property={prop} "):
            print("KNOWN-FINDING: " + l[len("known: "):].strip())
    if failed:
        sys.exit(1)
    print(f"{prop}: held on {tot['states']} states, {tot['transitions']} transitions, {tot['fault_runs']} fault points, "
          f"{tot['runs']} histories" + (f" (cut by limit: {len(cut)})" if cut else ""))


main()
