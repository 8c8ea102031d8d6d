"""Writes /verif/evidence/<id>.json from what a run measured."""
import json
import os


def write(here, prop, tier, seed, results, failed, wall):
    parts, labels, samples, nontriv, ev, sk = {}, {}, [], set(), 0, 0
    for r in results:
        p = parts.setdefault(r["part"], {"evaluations": 0, "distinct_nontrivial": set(), "labels": {}})
        p["evaluations"] += r["evaluations"]
        p["distinct_nontrivial"] |= set(r["digests"])
        ev += r["evaluations"]
        sk += r["skipped"]
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        if len([s for s in samples if s["part"] == r["part"]]) < 2:
            for s in r["samples"][:1]:
                samples.append({"part": r["part"], "case": s})
    rules = {r["part"]: r["rule"] for r in results}
    tot = 0
    for k, p in parts.items():
        n = len(p["distinct_nontrivial"])
        tot += n
        p["distinct_nontrivial"] = n
        p["labels"] = dict(sorted(p["labels"].items()))
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": tot,
            "rule": "; ".join("%s: %s" % (k, rules.get(k, "")) for k in parts) or "see DESIGN.md",
            "samples": samples[:8] or [{"note": "no non-trivial case before the run ended"}],
            "parts": parts, "skipped_at_time_limit": sk,
        },
        "wall_s": round(wall, 2),
    }
    doc["violations"] = 1 if failed else 0
    if failed:
        doc["coverage"]["violation"] = {"part": failed["part"], "message": failed["message"][:2000]}
    d = os.path.join(here, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
