#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decides one property on the working tree of /repo"""
import importlib
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli.common import *  # noqa: E402,F403

LIB = {"C%02d" % i for i in list(range(1, 18)) + [20, 25, 26]}
CLI = {"C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C26", "C27", "C28", "C29", "C30"}
LEVEL = "exploration"


def run_lib(prop, seed, tier):
    with Scratch() as sc:
        r = subprocess.run([os.path.join(BIN, "mon"), prop, str(seed), tier], cwd=sc.dir, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=840 if tier == "quick" else 36000)
    try:
        return json.loads(r.stdout)
    except ValueError:
        if r.returncode < 0 and r.returncode not in (-9, -15):
            return {"evaluations": 0, "distinct": 0, "violations": 1, "errors": [], "samples": [], "counts": {}, "margins": {},
                    "found": [{"what": "the code under test crashed", "detail": "signal %d: %s" % (-r.returncode, r.stderr[-1500:])}]}
        raise CheckError("monitor ended with %s: %s %s" % (r.returncode, r.stdout[-300:], r.stderr[-1500:]))


def known(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            k = json.load(f)
    except OSError:
        return []
    return [x for x in k.get("known", []) if x["property"] == prop]


def matches(finding, v):
    return v.get("what") == finding["signature"]["what"] and finding["signature"].get("contains", "") in json.dumps(v.get("detail"))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    build()
    mon = Mon(prop, seed, tier)
    cov = {}
    rule = []
    found, nviol = [], 0
    evaluations = distinct = 0
    samples, counts, worst, errors = [], {}, {}, []
    if prop in LIB:
        d = run_lib(prop, seed, tier)
        evaluations += d["evaluations"]
        distinct += d["distinct"]
        found += d["found"]
        nviol += d["violations"]
        errors += d["errors"]
        samples += d["samples"][:6]
        counts.update(d["counts"])
        worst.update(d["margins"])
        rule.append("Calls of the library on generated chains, judged by an independent model: evaluations counts judged executions, "
                    "distinct_nontrivial those with a distinct input (hashed) that exercise the property.")
    if prop in CLI:
        m = importlib.import_module("cli." + prop.lower())
        m.run(mon)
        evaluations += mon.evals
        distinct += len(mon.distinct)
        found += mon.found
        nviol += mon.nviol
        errors += mon.errors
        samples += mon.samples
        for k, v in mon.counts.items():
            counts[k] = counts.get(k, 0) + v
        worst.update({"worst error/bound: " + k: v for k, v in mon.worst.items()})
        rule.append(m.RULE)
    kf = known(prop)
    listed = []
    fresh = []
    for v in found:
        hit = [f for f in kf if matches(f, v)]
        (listed if hit else fresh).append(v)
    for f in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    cov = {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": " ".join(rule), "samples": samples or ["none"],
           "judgements": counts, "margins": worst, "observed": mon.notes, "errors_of_the_check": errors[:5]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "wall_s": round(time.time() - start, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "replay": "VERIF_SEED=%d python3 run.py %s %s" % (seed, prop, tier),
                       "violations": fresh}, f, indent=1, default=repr)
        for v in fresh[:5]:
            print("  %s: %s" % (v["what"], json.dumps(v["detail"], default=repr)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        sys.stderr.write("the check failed, no verdict:\n" + "\n".join(errors[:5]) + "\n")
        return 2
    if evaluations == 0 or distinct == 0:
        sys.stderr.write("nothing was observed, no verdict\n")
        return 3
    print("%s held on %d executions judged (%d distinct), %.1f s" % (prop, evaluations, distinct, time.time() - start))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        sys.stderr.write("the check failed, no verdict: %s\n" % e)
        sys.exit(2)
