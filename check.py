#!/usr/bin/env python3
"""check.py PROPERTY            run the check of a property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE       replay a recorded violation: exit 1 if it happens again, 0 if not

Builds the simulator from /repo's working tree, runs seeded batches of simulations in all profiles,
writes evidence/PROPERTY.json, and reports a violation with its minimised replay file."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PROFILES = ["release", "checked"]
WEAK = ["C02", "C04"]  # also with a compare-exchange that may fail for no reason
TIERS = {"quick": dict(secs=14, min_runs=4000, hard=200, shrink=30), "thorough": dict(secs=150, min_runs=4000, hard=330, shrink=60)}

def group(prop):
    """The simulator with the workload of a property."""
    d = os.path.join(HERE, "sim/src/bin")
    for f in sorted(os.listdir(d)):
        if f'id: "{prop}"' in open(os.path.join(d, f)).read(): return f[:-3]
    sys.exit(f"error: no simulator for {prop}")

def binary(profile, prop):
    return os.path.join(HERE, "sim/target/x86_64-unknown-linux-gnu", profile, group(prop))

def build(prop, profiles=PROFILES, optional=False):
    r = subprocess.run([os.path.join(HERE, "build_sim.sh"), "--bin", group(prop), *profiles], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 and optional:
        print(f"note: {profiles} does not build with the current tree and is left out")
        return False
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("error: the simulator does not build with the current tree")
        sys.exit(2)
    return True

def vsim(profile, command, prop, *args, timeout=300):
    return subprocess.run([binary(profile, prop), command, prop, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)

def run_tape(profile, prop, tape, tmp):
    f = os.path.join(tmp, "tape")
    open(f, "w").write(" ".join(map(str, tape)))
    return vsim(profile, "run", prop, "--tape", f)

def result_of(out):
    for l in out.splitlines():
        m = re.match(r"result violation ([^:]+): (.*)", l)
        if m: return m.group(1), m.group(2)
    return None

def trace_of(out):
    return [l for l in out.splitlines() if not re.match(r"(tape|hash|result)( |$)", l)]

def parse(path):
    d = {"count": {}, "h": {}}
    for l in open(path):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("count", "h"):
            a, b = v.split(" ")
            d[k][a] = int(b) if k == "count" else b
        elif k in ("found", "class", "msg", "kind", "tape", "shrunk"): d[k] = v
        else: d[k] = int(v)
    return d

def replay(path):
    r = json.load(open(path))
    build(r["property"], [r["profile"]])
    tmp = tempfile.mkdtemp(prefix="vsim-")
    try:
        if r["kind"] == "tape": out = run_tape(r["profile"], r["property"], r["tape"], tmp).stdout
        elif r["kind"] == "batch":
            f = os.path.join(tmp, "out")
            vsim(r["profile"], "batch", r["property"], "--seed", r["seed"], "--secs", 600, "--runs", r["run"] + 1, "--shrink-secs", 1, "--workers", r["workers"], "--out", f, timeout=800)
            d = parse(f)
            out = "result violation " + d["found"].split(" ", 2)[2] + "\n" if "found" in d else "result ok\n"
        else: out = vsim(r["profile"], "run", r["property"], "--seed", r["seed"], "--start", r["start"], "--stride", r["stride"], "--end", r["end"], timeout=600).stdout
    finally: shutil.rmtree(tmp)
    print(out, end="")
    v = result_of(out)
    if v:
        print(f"VIOLATION property={r['property']} replay={path}")
        sys.exit(1)
    print("not reproduced on this tree")
    sys.exit(0)

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay": replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in TIERS: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1")) & 0xffffffff
    cfg = TIERS[tier]
    t0 = time.time()
    print(f"property {prop} tier {tier} VERIF_SEED {seed}")
    build(prop)
    # The feature it needs may be without effect or unavailable in a changed tree.
    profiles = PROFILES + (["weak"] if prop in WEAK and build(prop, ["weak"], True) else [])
    built = time.time() - t0
    workers = max(2, min(16, os.cpu_count() or 8))
    tmp = tempfile.mkdtemp(prefix="vsim-")
    results, violation, samples, mismatches, compared = {}, None, [], 0, 0
    try:
        for profile in profiles:
            out = os.path.join(tmp, profile)
            if profile == "weak": cfg = dict(cfg, secs=cfg["secs"] // 2, hard=cfg["hard"] // 2)
            r = vsim(profile, "batch", prop, "--seed", seed, "--secs", cfg["secs"], "--min-runs", cfg["min_runs"], "--hard-secs", cfg["hard"], "--shrink-secs", cfg["shrink"], "--workers", workers, "--hashes", 200, "--out", out, timeout=800)
            if r.returncode != 0 or not os.path.exists(out):
                print(f"error: the batch of profile {profile} ended with {r.returncode}")
                sys.exit(2)
            d = results[profile] = parse(out)
            print(f"  {profile}: {d['runs']} runs, {d['steps']} steps, {d['wall_ms']} ms")
            if "found" in d:
                violation = (profile, d)
                break
            # The same seeds again, each in a process of its own.
            h = vsim(profile, "hashes", prop, "--seed", seed, "--to", 200).stdout.split("\n")
            for l in h:
                if " " in l:
                    i, x = l.split(" ")
                    if i in d["h"]:
                        compared += 1
                        mismatches += d["h"][i] != x
        if violation is None:
            for i in range(40):
                o = vsim("release", "run", prop, "--seed", seed, "--run", i).stdout
                tr = trace_of(o)
                if 4 <= len(tr) <= 60 or i >= 37:
                    samples.append({"run": i, "profile": "release", "trace": tr[:60]})
                if len(samples) >= 3: break
        code = 0
        if violation:
            code = report(prop, seed, tier, *violation, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    evidence(prop, tier, seed, results, samples, compared, mismatches, violation, built, time.time() - t0)
    if mismatches:
        print(f"note: {mismatches} of {compared} runs were not repeated exactly in another process")
    sys.exit(code)

def report(prop, seed, tier, profile, d, tmp):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{profile}-{seed}.json")
    run, run_seed, text = d["found"].split(" ", 2)
    rec = {"property": prop, "profile": profile, "seed": seed, "run": int(run), "run_seed": int(run_seed), "found": text}
    if d.get("kind") == "tape":
        tape = [int(x) for x in d["tape"].split()]
        a = run_tape(profile, prop, tape, tmp).stdout
        b = run_tape(profile, prop, tape, tmp).stdout
        rec.update(kind="tape", tape=tape, violation=d["class"], message=d["msg"], trace=trace_of(a), repeats_exactly=a == b, minimised_from_and_to=d["shrunk"].split())
        if result_of(a) is None or result_of(b) is None:
            rec = {k: rec[k] for k in ("property", "profile", "seed", "run", "run_seed", "found")}
            d = dict(d, kind="none")
    if "kind" in rec: pass
    elif d.get("kind", "none").startswith("sequence"):
        _, start, stride, end = d["kind"].split()
        rec.update(kind="sequence", start=int(start), stride=int(stride), end=int(end), violation=d["class"], message=d["msg"])
    elif text.startswith("hang"):
        print(f"error: a violation was found but could not be repeated: {text}")
        return 2
    else:
        # Depends on something outside of the run, such as the contents of memory nobody wrote to. The
        # whole batch is the replay.
        rec.update(kind="batch", workers=d["workers"], violation=text.split(":")[0], message=text.partition(": ")[2])
    json.dump(rec, open(path, "w"), indent=1)
    print(f"  violation {rec['violation']}: {rec['message']}")
    for l in rec.get("trace", [])[:80]: print("    " + l)
    print(f"VIOLATION property={prop} replay={path}")
    return 1

def evidence(prop, tier, seed, results, samples, compared, mismatches, violation, built, wall):
    tot = lambda k: sum(d.get(k, 0) for d in results.values())
    counts = {}
    for d in results.values():
        for k, v in d["count"].items(): counts[k] = counts.get(k, 0) + v
    hours = tot("wall_ms") / 3600000 or 1e-9
    meta = json.load(open(os.path.join(HERE, "components.json")))
    comp = meta["properties"].get(prop, {})
    if violation and not samples:
        samples = [{"run": violation[1]["found"]}]
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("nontrivial"),
            "rule": "One evaluation is one simulated run, entirely decided by its seed derived from VERIF_SEED, the property and the run's number. "
                    "Two runs are distinct if the hash over all of their decisions (operations, schedule, faults) and observed results differs; counted per profile. "
                    "A run is non-trivial if at least one fault was injected or one thread was preempted within an operation. " + comp.get("rule", ""),
            "samples": samples,
            "simulated_runs": tot("runs"),
            "seeds_per_hour": int(tot("runs") / hours),
            "simulated_steps": tot("steps"),
            "simulated_time": "the code has no clock; time is counted in steps: one per operation and per instrumented memory access of an operation",
            "distinct_runs": tot("distinct"),
            "distinct_measure": "hash of decisions and observed results of a run",
            "faults_injected": {k[6:]: v for k, v in counts.items() if k.startswith("fault.")},
            "preemptions_within_operations": counts.get("sched.preempted_mid_operation", 0),
            "probes": {k: v for k, v in counts.items() if not k.startswith("fault.") and not k.startswith("sched.")},
            "real_components": comp.get("real", []),
            "stub_components": comp.get("stub", []),
            "profiles": {p: {"runs": d["runs"], "steps": d["steps"], "wall_ms": d["wall_ms"], "workers": d["workers"]} for p, d in results.items()},
            "determinism": {"runs_repeated_in_another_process": compared, "not_identical": mismatches},
            "build_s": round(built, 1),
        },
        "assumptions": meta["assumptions"] + comp.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

main()
