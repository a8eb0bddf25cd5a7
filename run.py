#!/usr/bin/env python3
"""Runs the model-checking check of one property against /repo's working tree.

  run.py <ID>        quick or thorough tier, from $VERIF_TIER (default quick)
  run.py setup       builds every harness once
  run.py replay F    re-runs the check recorded in a replay file

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: the check itself failed.
"""
import json, os, re, sys, time

from lib import HERE, CheckError
from checks import CHECKS, ASSUME, setup


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding: "):
                d = json.loads(line[len("finding: "):])
                if d["property"] == prop:
                    out.append(d)
    return out


def compact(spaces):
    """One entry for all lengths of a space."""
    out = {}
    for n, c in spaces:
        m = re.match(r"(.*)\[(\d+) symbols, length (\d+)\]$", n, re.S)
        k = (m.group(1), m.group(2)) if m else (n, None)
        e = out.setdefault(k, [0, []])
        e[0] += c
        if m:
            e[1].append(int(m.group(3)))
    return [["%s[%s symbols, every length %d..=%d]" % (n, k, min(l), max(l)) if k else n, c] for (n, k), (c, l) in out.items()]


def check(prop, tier, seed):
    t0 = time.time()
    steps = CHECKS[prop][tier] if tier in CHECKS[prop] else CHECKS[prop]["quick"]
    tot = {"states": 0, "transitions": 0, "validated": 0, "open": 0}
    spaces, samples, notes, viol, parts = [], [], [], [], []
    for step in steps:
        r = step(prop, tier)
        for k in tot:
            tot[k] += r.get(k, 0)
        label = step.label.strip()
        spaces += [["%s: %s" % (label, n), c] for n, c in r["spaces"]]
        samples += r["samples"][:12]
        notes += r["notes"]
        parts.append({"step": label, "states": r["states"], "transitions": r["transitions"],
                      "validated": r["validated"], "seconds": round(r["seconds"], 2)})
        viol += [[label, c, w] for c, w in r["violations"]]
        if viol:
            break
    known = known_findings(prop)
    fresh = []
    hit = set()
    for label, case, what in viol:
        m = [k for k in known if k["case"] == case]
        if m:
            hit.add(m[0]["case"])
        else:
            fresh.append((label, case, what))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["validated"],
            "left_open_by_the_specification": tot["open"],
            "exhaustive": not fresh,
            "samples": samples[:40], "spaces": compact(spaces), "parts": parts, "notes": notes,
        },
        "assumptions": ASSUME.get(prop, []) + ASSUME["*"],
        "wall_s": round(wall, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    print("%s %s: %d states, %d transitions, %d validated, %.1f s" % (
        prop, tier, tot["states"], tot["transitions"], tot["validated"], wall))
    if fresh:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s.json" % prop)
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "violations": [{"step": a, "case": b, "what": c} for a, b, c in fresh]}, f, indent=1)
        for a, b, c in fresh[:5]:
            print("  [%s] %s" % (a, c[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        setup()
        print("setup ok")
        return 0
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2], encoding="utf-8"))
        for v in d["violations"]:
            print("[%s] case %r: %s" % (v["step"], v["case"], v["what"]))
        return check(d["property"], d["tier"], d["seed"])
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    return check(sys.argv[1], tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        sys.stderr.write("CHECK ERROR: %s\n" % e)
        rc = 2
    sys.exit(rc)
