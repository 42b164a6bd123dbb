#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [--tier quick|thorough]

Builds the harnesses of the property against /repo's working tree, lets every harness enumerate its scenarios (split in
shards over the cores), re-runs a failing scenario alone before reporting it, and writes evidence/<id>.json.
Exit 0: held on everything explored (known findings are printed); 1: VIOLATION; 2: the check itself could not run.
"""
import argparse, concurrent.futures as cf, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props

VERIF = build.VERIF

LIVE, STOP = set(), []

def execute(job):
    """One process: returns (job, returncode, stdout, stderr).  -999: timeout; -998: not run or stopped after another failure."""
    if STOP and not job.get("always"):
        return job, -998, "", ""
    p = subprocess.Popen(job["cmd"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=job.get("cwd") or build.BUILD)
    LIVE.add(p)
    try:
        out, err = p.communicate(timeout=job["timeout"])
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        rc = -999
    LIVE.discard(p)
    out, err = out.decode("latin-1"), err.decode("latin-1")
    if STOP and rc < 0 and not job.get("always"):
        rc = -998
    return job, rc, out, err

def known():
    out = []
    try:
        for line in open(f"{VERIF}/known-findings.txt"):
            line = line.strip()
            if line.startswith("finding:"):
                out.append(line[len("finding:"):].strip())
    except OSError:
        pass
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", help="restrict to harness/target names containing this")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = props.PROPS[a.id]
    nin = build.Ninja(f"{a.id}-{a.tier}")
    units = []
    for u in prop["units"](a.tier):
        if a.only and a.only not in f"{u['src']}:{u.get('variant', '')}:{u['tool']}:{u['target']}":
            continue
        kw = {k: u[k] for k in ("variant", "hflags", "lflags", "extra_flags", "opt", "cxx", "keep", "shared") if k in u}
        if "pre" in u:
            kw["objs_extra"] = u["pre"](nin)
        u["bin"] = u["make"](nin) if "make" in u else nin.harness(u["src"], u["tool"], u["target"], u["high"], **kw)
        units.append(u)
    skipped = nin.run(optional={u["bin"] for u in units if u["target"] in build.EXTRA or "make" in u}) if units else []
    broken = [u for u in units if u["bin"] in skipped and "make" in u]    # a selection that must build, and does not
    skipped = [b for b in skipped if all(b != u["bin"] for u in broken)]
    units = [u for u in units if u not in broken]
    units = [u for u in units if u["bin"] not in skipped]
    tb = time.time()
    jobs = []
    for u in units:
        prefix = build.TOOLS[u["tool"]][4]
        n = u.get("shards", 8)
        for i in range(n):
            args = [a.tier] if a.tier == "thorough" else ["quick"]
            args += [f"shard={i}/{n}"]
            if u.get("budget"):
                args.append(f"budget={u['budget']}")
            cmd = [*prefix, u["bin"], *args, *u.get("args", [])]
            jobs.append({"unit": u, "cmd": cmd, "timeout": u.get("timeout", 800 if a.tier == "quick" else 6 * 3600)})
    for extra in prop.get("extra", lambda tier: [])(a.tier):
        jobs.append(extra)
    for u in broken:
        jobs.append({"unit": u, "timeout": 800, "cmd": ["sh", "-c", f"ninja -f {nin.dir}/{nin.name}.ninja {u['bin']} > {u['bin']}.log 2>&1 && exit 0; grep -m 3 -E 'error|undefined' {u['bin']}.log; echo 'FAIL the selection does not build'; exit 3"]})
    tot = {"states": 0, "transitions": 0, "comparisons": 0, "scenarios": 0, "capped": 0}
    samples, fails, errors, per = [], [], [], {}
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("MC_JOBS", "8"))) as ex:
        futs = [ex.submit(execute, j) for j in jobs]
        for f in cf.as_completed(futs):
            job, rc, out, err = f.result()
            u = job["unit"]
            label = f"{u['src']}{u.get('variant', '')}/{u['tool']}/{u['target']}"
            stat = [l for l in out.splitlines() if l.startswith("STATS ")]
            fl = [l for l in out.splitlines() if l.startswith("FAIL ")]
            if stat:
                s = json.loads(stat[-1][6:])
                for k in tot:
                    tot[k] += s.get(k, 0)
                p = per.setdefault(label, {"states": 0, "transitions": 0, "scenarios": 0})
                for k in p:
                    p[k] += s.get(k, 0)
                if len(samples) < 24:
                    samples.extend(f"{label}: {x}" for x in s["samples"][:2])
            if fl:
                fails.append((job, label, fl[0]))
                STOP.append(1)
                for p in list(LIVE):
                    p.terminate()
            elif rc == -998:
                pass
            elif rc == -999:
                errors.append(f"{label}: timeout after {job['timeout']} s")
            elif rc < 0 and rc not in (-2, -9, -15):
                # the process died in a way the harness could not describe: replayed below like any failure
                fails.append((job, label, f"FAIL the process was ended by signal {-rc}"))
                STOP.append(1)
                for p in list(LIVE):
                    p.terminate()
            elif rc != 0 or not stat:
                errors.append(f"{label}: exit {rc}: {out[-600:]} {err[-1500:]}")
            if a.v:
                print(f"[{time.time()-t0:6.1f}] {label} {' '.join(job['cmd'][-3:])} rc={rc}", file=sys.stderr)
    violations = 0
    for job, label, line in fails[:3]:
        # replay the failing scenario alone before believing it
        rcmd = list(job["cmd"])
        num = line.split("scenario=", 1)[1].split()[0] if "scenario=" in line else None
        if num is not None:
            rcmd = [c for c in rcmd if not c.startswith(("shard=", "budget="))] + [f"scenario={num}"]
        _, rc, out, err = execute({"cmd": rcmd, "timeout": 400, "unit": job["unit"], "always": True})
        again = [l for l in out.splitlines() if l.startswith("FAIL ")]
        if not again and num is None and rc < 0 and rc not in (-9, -998, -999):
            again = [f"FAIL the process was ended by signal {-rc}"]
        if not again:
            errors.append(f"{label}: failure did not reproduce: {line}")
            continue
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        path = f"{VERIF}/replays/{a.id}-{violations}.json"
        json.dump({"property": a.id, "tier": a.tier, "harness": label, "cmd": rcmd, "failure": again[0]}, open(path, "w"), indent=1)
        print(f"{label}: {again[0]}")
        print(f"VIOLATION property={a.id} replay={path}")
        violations += 1
        break
    if not violations and not tot["scenarios"]:
        errors.append("nothing was explored")
    for e in errors:
        print("ERROR " + e, file=sys.stderr)
    if errors and not violations:
        sys.exit(2)
    bounds = prop["bounds"][a.tier] if isinstance(prop["bounds"], dict) else prop["bounds"]
    ev = {"property": a.id, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": prop.get("level", "model_checking"),
          "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["comparisons"],
                       "scenarios": tot["scenarios"], "scenarios_skipped_by_time_budget": tot["capped"],
                       "exhaustive": tot["capped"] == 0 and not violations, "bounds": bounds,
                       "note": "states are snapshots of the real library objects; transitions are calls into the library; traces_validated_against_impl counts comparisons of library observations with the reference model",
                       "per_build": per, "samples": samples or ["none"], "build_s": round(tb - t0, 1), "unshipped_variants_that_do_not_build": skipped},
          "assumptions": prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{a.id}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        sys.exit(1)
    for k in known():
        if f"property={a.id} " in k + " ":
            print("KNOWN-FINDING: " + k)
    print(f"{a.id} {a.tier}: held on {tot['scenarios']} scenarios, {tot['states']} states, {tot['transitions']} transitions, {tot['comparisons']} comparisons in {ev['wall_s']} s")

main()
