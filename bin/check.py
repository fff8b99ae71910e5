#!/usr/bin/env python3
"""check.py ID: decide one property of davenquinn/Attitude.

 1. TLC explores the property's model exhaustively within its bounds, checks
    the model's invariants and emits the behaviours/cases to replay.
 2. A driver replays them (and seeded random ones) into the code in /repo and
    records a trace.
 3. TLC validates the trace against the specification, clause by clause.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Any other exit: the machinery itself failed.
"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import tlc  # noqa: E402
from props import PROPS  # noqa: E402

PY = "/opt/venv/bin/python"
REPO = "/repo"


def model_phase(prop, conf, tier, scratch, cases):
    """Exhaustive model checking; returns totals."""
    tot = {"states": 0, "transitions": 0, "models": []}
    procs = []
    for m in conf.get("mc", []):
        module = m["module"]
        cfg = m.get(tier, m["quick"])
        env = {"CASES": cases + "." + cfg, "TIER": tier}
        procs.append((module, cfg, env, tlc.start(module, cfg, scratch, env,
                                                  workers=m.get("workers", 1), heap="6g")))
    for module, cfg, env, p in procs:
        r = tlc.finish(p, 3000 if tier == "thorough" else 600)
        if not r["ok"]:
            raise tlc.MachineryError("model %s/%s: TLC reports\n%s" % (module, cfg, r["out"][-3000:]))
        tot["states"] += r.get("distinct", 0)
        tot["transitions"] += r.get("generated", 0)
        tot["models"].append({"module": module, "cfg": cfg, "distinct": r.get("distinct"),
                              "generated": r.get("generated"), "depth": r.get("depth")})
    with open(cases, "w") as out:
        n = 0
        for module, cfg, env, p in procs:
            if os.path.exists(env["CASES"]):
                for line in open(env["CASES"]):
                    line = line.strip()
                    if line.startswith('"'):     # CSVWrite of a quoted string
                        line = json.loads(line)
                    if line:
                        out.write(line + "\n")
                        n += 1
    tot["cases"] = n
    return tot


def driver_phase(prop, conf, tier, seed, scratch, cases, only):
    trace = os.path.join(scratch, "trace.ndjson")
    meta = os.path.join(scratch, "meta.json")
    mpl = os.path.join(scratch, "mpl")
    if os.path.isdir("/opt/venv/mplconfig"):
        shutil.copytree("/opt/venv/mplconfig", mpl)
    else:
        os.makedirs(mpl)
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch, "TMPDIR": scratch, "LC_ALL": "C.UTF-8",
        "PYTHONPATH": REPO + ":" + os.path.join(ROOT, "harness"),
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
        "MPLBACKEND": "Agg", "MPLCONFIGDIR": mpl,
        "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "VERIF_SEED": str(seed), "VERIF_TIER": tier,
        "VERIF_SCRATCH": scratch,
    }
    env.update(conf.get("env", {}))
    if only:
        env["VERIF_ONLY"] = only
    argv = conf.get("interp", [PY, "-W", "ignore"]) + [
        os.path.join(ROOT, "harness", "drivers", conf["driver"]), cases, trace, meta]
    try:
        r = subprocess.run(argv, env=env, cwd=scratch, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           timeout=2400 if tier == "thorough" else 600)
    except subprocess.TimeoutExpired:
        return trace, None, "the driver did not finish: the code under test hangs"
    if r.returncode:
        return trace, None, "the driver died (exit %s):\n%s" % (r.returncode, r.stdout[-3000:])
    with open(meta) as f:
        return trace, json.load(f), None


def chunks_of(trace, k):
    """Split the trace at scenario boundaries into k parts of similar size."""
    groups, last = [], None
    with open(trace) as f:
        for line in f:
            i = line.index('"sc": "') + 7
            sc = line[i:line.index('"', i)]
            if sc != last:
                groups.append([])
                last = sc
            groups[-1].append(line)
    parts = [[] for _ in range(k)]
    size = [0] * k
    for g in sorted(groups, key=lambda g: -sum(map(len, g))):
        j = size.index(min(size))
        parts[j] += g
        size[j] += sum(map(len, g)) + 400 * len(g)
    return [p for p in parts if p]


def trace_phase(prop, conf, tier, scratch, trace):
    """Validate the trace; returns failures, coverage, lines validated."""
    total = sum(len(l) for l in open(trace))
    k = max(1, min(8, total // 150000 + 1))
    procs, fails, cover, lines = [], [], {}, 0
    gen = 0
    for j, part in enumerate(chunks_of(trace, k)):
        path = os.path.join(scratch, "part%d.ndjson" % j)
        with open(path, "w") as f:
            f.writelines(part)
        p = tlc.start(conf["trace"], conf.get("trace_cfg", conf["trace"] + ".cfg"), scratch,
                      {"TRACE": path}, heap="3g")
        procs.append((part, p))
    for part, p in procs:
        r = tlc.finish(p, 3000 if tier == "thorough" else 800)
        out = r["out"]
        done = None
        for m in re.finditer(r'^<<"FAIL", (\d+), "([^"]*)">>', out, re.M):
            n = int(m.group(1))
            fails.append((m.group(2), part[n - 1]))
        m = re.search(r'^<<"DONE", (\d+), (".*")>>$', out, re.M)
        if m:
            done = int(m.group(1))
            cov = json.loads(ast.literal_eval(m.group(2)))
            if isinstance(cov, dict):
                for c, v in cov.items():
                    cover[c] = cover.get(c, 0) + v
        if done == len(part) and r["ok"]:
            lines += done
            gen += r.get("generated", 0)
            continue
        # TLC stopped inside the trace: the line is one the specification
        # cannot even evaluate.  Find it.
        if "Parsing or semantic analysis failed" in out or "java.lang.OutOfMemory" in out:
            raise tlc.MachineryError("trace specification: " + out[-3000:])
        m = re.search(r"^(?:/\\ )?l = (\d+)", out[::1], re.M)
        nums = [int(x) for x in re.findall(r"^\s*(?:/\\ )?l = (\d+)", out, re.M)]
        if not nums:
            raise tlc.MachineryError("trace validation: " + out[-3000:])
        n = min(max(nums), len(part))
        fails.append(("not-a-behaviour-of-the-specification", part[n - 1]))
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(out[-4000:])
    return fails, cover, lines, gen, len(procs)


def short(line, n=2000):
    line = line.strip()
    return line if len(line) <= n else line[:n] + "..."


def main():
    prop = sys.argv[1]
    conf = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        tlc.build()
        cases = os.path.join(scratch, "cases.ndjson")
        mc = model_phase(prop, conf, tier, scratch, cases)
        t1 = time.time()
        trace, meta, died = driver_phase(prop, conf, tier, seed, scratch, cases, only)
        t2 = time.time()
        known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
                 if k["property"] == prop and k["status"] == "known"]
        fails, cover, lines, gen, parts = [], {}, 0, 0, 0
        if died:
            fails = [("driver", json.dumps({"ev": "died", "sc": "all", "detail": died}))]
        else:
            fails, cover, lines, gen, parts = trace_phase(prop, conf, tier, scratch, trace)
        t3 = time.time()
        new, old = [], {}
        for clause, line in fails:
            rec = json.loads(line)
            hit = [k for k in known if k["clause"] == clause and
                   re.fullmatch(k["scenario"], rec.get("sc", ""))]
            if hit:
                old[hit[0]["id"]] = hit[0]
            else:
                new.append((clause, rec, line))
        samples = []
        if not died:
            with open(trace) as f:
                for i, line in enumerate(f):
                    if i % max(1, lines // 4) == 0 and len(samples) < 4:
                        samples.append(short(line, 700))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": mc["states"], "transitions": mc["transitions"],
                "traces_validated_against_impl": len(set(
                    json.loads(l)["sc"] for l in open(trace))) if not died else 0,
                "samples": samples,
                "trace_events_validated": lines,
                "trace_spec_states": gen,
                "cases_emitted_by_model": mc["cases"],
                "models": mc["models"],
                "clause_evaluations": cover,
                "driver": meta,
            },
            "assumptions": conf.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s %s: model %d states (%.1fs); %d events of %d scenarios (%.1fs) validated in %d part(s) (%.1fs); %d clauses" % (
            prop, tier, mc["states"], t1 - t0, lines,
            ev["coverage"]["traces_validated_against_impl"], t2 - t1, parts, t3 - t2, len(cover)))
        for k in old.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if new:
            rd = os.path.join(ROOT, "out")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.json" % (prop, tier, seed))
            by = {}
            for clause, rec, line in new:
                by.setdefault(clause, []).append(rec.get("sc"))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed,
                           "replay": "VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s --only '%s'" % (
                               seed, tier, prop, new[0][1].get("sc")),
                           "clauses": {c: {"count": len(s), "scenarios": sorted(set(map(str, s)))[:20]}
                                       for c, s in by.items()},
                           "events": [rec for _, rec, line in new[:10] if len(line) < 20000]},
                          f, indent=1)
            for c, s in sorted(by.items()):
                print("  clause %s fails in %d event(s), e.g. scenario %s" % (c, len(s), s[0]))
                if c in ("driver", "crash"):
                    print(new[0][1].get("detail", "")[-1500:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except tlc.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        rc = 2
    sys.exit(rc)
