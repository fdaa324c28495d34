#!/usr/bin/env python3
"""Decide one property: generate traces of its Quint machines, check their invariants, model check its
design models, rebuild the library from /repo's working tree and replay every trace into it.

usage: check.py <property id>         environment: VERIF_SEED, VERIF_TIER (quick | thorough)
exit 0: held; 1 and a VIOLATION line: broken; 2: the check itself failed
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import build  # noqa: E402
import plan  # noqa: E402

SPEC = os.path.join(HERE, "spec")
EVID = os.path.join(HERE, "evidence")
CORES = os.cpu_count() or 4


class CheckError(Exception):
    pass


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def simulate(job):
    """One quint process: random traces of a machine, with its invariants checked on every state."""
    out = os.path.join(job["dir"], "%s-%03d-{seq}.itf.json" % (job["main"], job["k"]))
    cmd = ["quint", "run", "--main", job["main"], "--seed", str(job["seed"]), "--max-steps", str(job["steps"]),
           "--max-samples", str(job["traces"]), "--n-traces", str(job["traces"]), "--out-itf", out, "--verbosity", "1",
           "--invariant", job["inv"]]
    if job.get("init"):
        cmd += ["--init", job["init"]]
    if job.get("step"):
        cmd += ["--step", job["step"]]
    cmd.append(os.path.join(SPEC, job["spec"]))
    env = dict(os.environ, NODE_OPTIONS="--max-old-space-size=3500")
    p = subprocess.run(cmd, cwd=job["dir"], capture_output=True, text=True, timeout=plan.LIMIT, env=env)
    if p.returncode != 0:
        raise CheckError("quint run %s seed %d: %s" % (job["main"], job["seed"], (p.stdout + p.stderr)[-2000:]))
    base = "%s-%03d-" % (job["main"], job["k"])
    return sorted(os.path.join(job["dir"], f) for f in os.listdir(job["dir"]) if f.startswith(base))


def model_check(job):
    """Exhaustive check of a design model with TLC.  Returns (generated, distinct) states."""
    d = os.path.join(job["dir"], "tlc-%s" % job["main"])
    shutil.copytree(os.path.join(SPEC, "design"), d)
    expect = job.get("expect", "holds")
    cmd = ["tlc", "-workers", str(job.get("workers", 2)), "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
           "-config", job["main"] + ".cfg", job["main"] + ".tla"]
    env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xmx%s" % job.get("memory", "2g"))
    p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=plan.LIMIT, env=env)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", p.stdout)
    # 12: an invariant is violated
    if p.returncode != (12 if expect == "broken" else 0) or not m:
        raise CheckError("tlc %s: exit %d: %s" % (job["main"], p.returncode, (p.stdout + p.stderr)[-2500:]))
    shutil.rmtree(d, ignore_errors=True)
    num = lambda t: int(t.replace(",", ""))
    return num(m[-1][0]), num(m[-1][1])


def spec_test(job):
    """The specification's own tests: facts the machines rely on.  Returns their number."""
    cmd = ["quint", "test", "--main", job["main"], "--seed", str(job["seed"]), os.path.join(SPEC, job["spec"])]
    p = subprocess.run(cmd, cwd=job["dir"], capture_output=True, text=True, timeout=plan.LIMIT)
    m = re.search(r"(\d+) passing", p.stdout)
    if p.returncode != 0 or not m or "failed" in p.stdout:
        raise CheckError("quint test %s: %s" % (job["main"], (p.stdout + p.stderr)[-2000:]))
    return int(m.group(1))


def racing(files, variant, rounds):
    """Concurrent first calls that are known to race (they may corrupt memory, so any outcome counts as the finding):
    in how many rounds did a call crash, hang or return something else than specified?"""
    hits = 0
    for _ in range(rounds):
        try:
            p = subprocess.run([build.binary(variant), "--threads", str(CORES), "--op-timeout", "20"] + files, capture_output=True,
                               text=True, timeout=60)
            hits += p.returncode != 0
        except subprocess.TimeoutExpired:
            hits += 1
    return hits


def replay(files, variant, threads, warm=False):
    binary = build.binary(variant)
    total = {"traces": 0, "steps": 0, "ops": {}, "refused": 0, "distinct": 0, "known": {}, "gone": {}, "samples": [],
             "failures": [], "errors": []}
    if not files:
        return total
    env = dict(os.environ)
    p = subprocess.run([binary, "--threads", str(threads), "--op-timeout", str(plan.OP_LIMIT)] + (["--warm"] if warm else []) + files,
                       capture_output=True, text=True, timeout=plan.LIMIT, env=env)
    if p.returncode < 0:
        # the library took the process down; find the trace which does so
        for f in files:
            q = subprocess.run([binary, "--threads", "1", f], capture_output=True, text=True, timeout=plan.LIMIT, env=env)
            if q.returncode < 0 and q.returncode != -9:
                total["failures"].append({"trace": f, "state": -1, "op": "?", "detail": "the process died with signal %d" % -q.returncode})
                return total
        raise CheckError("replay died with signal %d" % -p.returncode)
    if p.returncode not in (0, 2, 3):
        raise CheckError("replay: exit %d: %s" % (p.returncode, (p.stdout + p.stderr)[-1500:]))
    res = json.loads(p.stdout.strip().splitlines()[-1])
    if res["errors"] and not res["failures"]:
        raise CheckError("replay: %s" % res["errors"][:3])
    return res


def merge(total, res):
    for k in ("traces", "steps", "refused", "distinct"):
        total[k] = total.get(k, 0) + res[k]
    for name in ("ops", "known", "gone"):
        for k, v in res[name].items():
            total.setdefault(name, {})[k] = total.setdefault(name, {}).get(k, 0) + v
    total.setdefault("samples", []).extend(res["samples"])


def keep_replay(pid, seed, n, failure):
    """The trace up to the failing step, with what went wrong, for rerunning by hand."""
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.itf.json" % (pid, seed, n))
    with open(failure["trace"]) as f:
        doc = json.load(f)
    if failure["state"] >= 0:
        doc["states"] = doc["states"][:failure["state"] + 1]
    doc["violation"] = {k: v for k, v in failure.items() if k != "trace"}
    doc["rerun"] = "%s <this file> (after bin/build.py)" % os.path.relpath(build.binary(failure["build"]), HERE)
    with open(path, "w") as f:
        json.dump(doc, f)
    return path


def run(pid, tier, seed):
    t0 = time.time()
    entry = plan.PLAN[pid]
    rundir = os.path.join(HERE, "build", "run", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    problems = []
    try:
        variants = sorted({m.get("variant", "serial") for m in entry["machines"]} | set(entry.get("variants", [])))
        random.seed(seed)
        sims, models = [], []
        for m in entry["machines"]:
            jobs, traces, steps = m[tier]
            for k in range(jobs):
                sims.append(dict(m, k=len(sims), seed=derive(seed, pid, m["main"], m.get("init", ""), m.get("step", ""), k), dir=rundir,
                                 traces=traces, steps=steps))
        for m in entry.get("models", []):
            if tier == "thorough" or m.get("quick", True):
                models.append(dict(m, k=len(models), dir=rundir))
        with cf.ThreadPoolExecutor(CORES) as pool:
            built = [pool.submit(build.build, v) for v in variants]
            fs = [(j, pool.submit(simulate, j)) for j in sorted(sims, key=lambda j: -j["traces"] * j["steps"] * j.get("weight", 1))]
            ft = [pool.submit(spec_test, dict(t, seed=derive(seed, pid, t["main"]), dir=rundir)) for t in entry.get("tests", [])]
            fm = [pool.submit(model_check, j) for j in models]
            for b in built:
                b.result()
            files = {}
            for j, f in fs:
                for v in j.get("variants", [j.get("variant", "serial")]):
                    files.setdefault((v, j.get("threads", CORES)), []).extend(f.result())
            tlc = [f.result() for f in fm]
            ntests = sum(f.result() for f in ft)
        total = {}
        failures = []
        for (variant, threads), fl in sorted(files.items()):
            # the parallel build: by one caller, then by several callers at once
            for warm, callers in [(False, 1)] + [(True, threads)] * entry["repeat"][tier] if variant == "parallel" else [(False, threads)]:
                res = replay(fl, variant, callers, warm)
                merge(total, res)
                failures += [dict(f, build=variant) for f in res["failures"]]
                if failures:
                    break
        race = entry.get("race")
        if race and not failures:
            fl = [f for x in files.values() for f in x if os.path.basename(f).startswith(race["main"])]
            hits = racing(fl, "parallel", race["rounds"])
            if hits:
                total["known"][race["text"]] = hits
        ops = total.get("ops", {})
        if not failures:
            missing = [o for o in entry.get("must", []) if ops.get(o, 0) == 0]
            if missing:
                raise CheckError("no trace exercised %s" % missing)
        gen, dis = sum(x[0] for x in tlc), sum(x[1] for x in tlc)
        level = entry.get("level", "model_checking")
        steps = total.get("steps", 0)
        samples = total.get("samples", [])[:3]
        if level == "model_checking":
            cov = {"states": steps + dis, "transitions": steps - total.get("traces", 0) + gen,
                   "traces_validated_against_impl": total.get("traces", 0), "samples": samples}
        else:
            cov = {"evaluations": steps, "distinct_nontrivial": total.get("distinct", 0), "samples": samples,
                   "rule": "random walks of the specification's machine with boundary-biased choices; distinct calls "
                           "(name, arguments and specified outcome) are counted, initial states and repeats are not"}
        known = total.get("known", {})
        cov.update({"calls_replayed": ops, "calls_with_known_findings": known, "calls_left_out": total.get("gone", {}), "distinct_calls": total.get("distinct", 0), "refusals_replayed": total.get("refused", 0),
                    "specification_steps": steps, "specification_tests": ntests, "model_states_generated": gen, "model_states_distinct": dis,
                    "models": [{"main": j["main"], "generated": g, "distinct": d, "expected": j.get("expect", "holds")} for j, (g, d) in zip(models, tlc)]})
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                       "wall_s": round(time.time() - t0, 2), "assumptions": plan.ASSUMPTIONS + entry.get("assumptions", []),
                       "violations": len(failures)}, f, indent=1)
        for name, n in sorted(total.get("gone", {}).items()):
            print("left out: %d calls %s of a function that is no longer there" % (n, name))
        for text in sorted(known):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        for n, f in enumerate(failures[:5]):
            print("%s: state %d of %s (%s build): %s" % (f["op"], f["state"], os.path.basename(f["trace"]), f["build"], f["detail"]))
            print("VIOLATION property=%s replay=%s" % (pid, keep_replay(pid, seed, n, f)))
        if failures:
            return 1
        print("%s held: %d traces, %d calls replayed, %d model states, %.1f s" % (pid, total.get("traces", 0), steps, dis, time.time() - t0))
        return 0
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(rundir, ignore_errors=True)


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in plan.PLAN:
        print("usage: check.py <property id>")
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:6], "big")
    try:
        return run(sys.argv[1], "thorough" if tier == "thorough" else "quick", seed)
    except (CheckError, build.BuildError, subprocess.TimeoutExpired, OSError, ValueError) as e:
        print("check error: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
