#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   build from /repo, explore, write evidence, report.
   run.py --replay FILE               run one recorded case again."""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
import meta
from specs import SPECS


def known(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("finding: property=%s " % prop):
                    out.append(l[len("finding: "):])
    except OSError:
        pass
    return out


def main():
    replay = None
    if sys.argv[1] == "--replay":
        replay = os.path.abspath(sys.argv[2])
        with open(replay) as f:
            head = f.read(4000)
        prop = re.search(r"^property (\S+)", head, re.M).group(1)
        m = re.search(r"^worker .* tier (\S+)", head, re.M)
        tier = m.group(1) if m else "quick"
    else:
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPECS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop, dir=os.environ.get("MC_TMP"))
    rc = 2
    try:
        rc = explore(prop, tier, seed, spec, scratch, t0, replay)
    finally:
        if os.environ.get("MC_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def explore(prop, tier, seed, spec, scratch, t0, replay):
    parts = spec["parts"] if "parts" in spec else [spec]
    replaydir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replaydir, exist_ok=True)
    results, violation = [], None
    for i, part in enumerate(parts):
        part = dict(part)
        part.setdefault("tag", "p%d" % i)
        if part.get("tier") and part["tier"] != tier:
            continue
        try:
            exe = build.build(scratch, part)
        except build.BuildError as e:
            print("BUILD FAILED for %s: %s" % (prop, e))
            return 2
        work = os.path.join(scratch, "work-" + part["tag"])
        os.makedirs(work)
        os.chmod(work, 0o755)
        out = os.path.join(scratch, "result-%s.json" % part["tag"])
        limit = part.get("limit", {}).get(tier, 420 if tier == "quick" else 3000)
        argv = [exe, "--property=" + prop, "--out=" + out, "--replaydir=" + replaydir, "--scratch=" + work,
                "--seed=%d" % seed, "--workers=%d" % part.get("workers", max(2, os.cpu_count() or 8)), "--limit=%d" % limit] + part.get("args", [])
        if tier == "thorough" or spec.get("deep"):
            argv.append("--deepest" if tier == "thorough" and spec.get("deep") else "--thorough")
        if replay:
            with open(replay) as f:
                m = re.search(r"^part (\S+)", f.read(), re.M)
            if m and m.group(1) != part["tag"]:
                continue
            argv.append("--replay=" + replay)
        sys.stdout.flush()
        env = dict(os.environ, LC_ALL="C", TZ="UTC")
        for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
            env.pop(k, None)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        env["MC_KNOWN"] = " ".join(re.findall(r"\[[\w-]+\]", " ".join(known(prop))))      # which findings are recorded, not repaired
        p = subprocess.run(argv, cwd=work, env=env, stdin=subprocess.DEVNULL)
        if replay:
            return p.returncode
        if p.returncode not in (0, 1):
            print("harness of %s ended with %d" % (prop, p.returncode))
            return 2
        with open(out) as f:
            r = json.load(f)
        r["part"] = part.get("name", part["tag"])
        results.append(r)
        if p.returncode == 1:
            violation = r["replay"]
            with open(violation, "a") as f:
                f.write("part %s\n" % part["tag"])
            break
    wall = time.time() - t0
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["validated"] for r in results),
        "samples": [s for r in results for s in r["samples"]][:24] or ["(stopped before the first sample)"],
        "exhaustive": all(r["exhaustive"] for r in results) and not violation,
        "cases_executed": sum(r["cases"] for r in results),
        "unit": spec.get("unit", "state = distinct observed outcome (hash of results) or distinct object state; transition = call of the code under test or scheduling step; trace = case executed on the real code and compared with the reference model"),
        "bounds": meta.M.get(prop, {}).get(tier, ""),
    }
    for r in results:
        for k, v in r["info"].items():
            cov[k] = cov.get(k, 0) + v
        if r["states_not_stored"]:
            cov["states_is_lower_bound"] = True
        if not r["exhaustive"] and r["why_not"]:
            cov["not_exhaustive_because"] = r["why_not"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "assumptions": meta.M.get(prop, {}).get("assume", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for k in known(prop):
        print("KNOWN-FINDING: " + k)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d exhaustive=%s wall=%.1fs" % (
        prop, tier, cov["cases_executed"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        cov["exhaustive"], wall))
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    return 0


if __name__ == "__main__":
    main()
