#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--only ctx_name]

Static analysis of /repo/src for one property; see DESIGN.md.
exit 0: holds on everything that was analysed; 1: VIOLATION; 2: the analysis could not decide (most of) it.
"""
import argparse
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa import driver                        # noqa: E402
from sa import lints                         # noqa: E402


def fingerprint(v):
    """stable identification of a violation: context, obligation, partition"""
    guard = "; ".join(l for l, _ in v["trail"]) or "-"
    m = re.sub(r"\s+", " ", v["message"])
    return {"context": v["fn"], "message": m, "guard": guard}


def known(prop, v, path):
    if not os.path.exists(path):
        return None
    fp = fingerprint(v)
    for line in open(path):
        line = line.strip()
        if not line.startswith("{"):
            continue
        k = json.loads(line)
        if k["property"] == prop and k["context"] == fp["context"] and fp["message"].startswith(k["message"]) \
                and (k.get("guard") in (None, fp["guard"])):
            return k
    return None


def short(text, n=240):
    text = str(text)
    return text if len(text) <= n else text[:n] + "..."


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--strict", action="store_true", help="exit 2 if anything is undecided")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    if a.replay:
        r = json.load(open(a.replay))
        driver._init()
        if r.get("fn", "").startswith("lint:"):
            print(json.dumps(r, indent=1))
            return 1
        out = driver._in_big_stack(driver.run_partition, os.path.join(driver.CTX, prop + ".py"), r["fn"],
                                   r["prefix"], r["bindings"], a.tier, r.get("concrete", False))
        for k in ("status", "message", "trail", "stack"):
            print(k, ":", out.get(k))
        return 1 if out["status"] == "violation" else 0
    rep = driver.run(prop, a.tier, only=a.only, jobs=a.jobs)
    lint = lints.run(prop)
    rep.violations += lint.violations
    rep.inconclusive += lint.inconclusive
    kf = os.path.join(HERE, "known_findings.txt")
    fresh, listed = [], {}
    for v in rep.violations:
        k = known(prop, v, kf)
        if k is None:
            fresh.append(v)
        else:
            listed.setdefault(k["what"], []).append(v)
    for what in listed:
        print(f"KNOWN-FINDING: property={prop} {what}")
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    vio = []
    for i, v in enumerate(fresh[:10]):
        path = os.path.join(rdir, f"{prop}-{i}.json")
        w = {k: v.get(k) for k in ("fn", "message", "trail", "stack", "prefix", "bindings", "concrete")}
        json.dump(w, open(path, "w"), indent=1, default=str)
        print(f"  [{v['fn']}] {short(v['message'], 1500)}")
        if v["trail"]:
            print("    partition: " + "; ".join(f"{short(l)}{'' if b is True or not isinstance(b, bool) else ' [no]'}" for l, b in v["trail"]))
        if v.get("bindings"):
            print(f"    keys: {v['bindings']}")
        for s in v["stack"][-8:]:
            print(f"    at {s}")
        print(f"VIOLATION property={prop} replay={path}")
        vio.append({"message": v["message"], "context": v["fn"], "stack": v["stack"][-6:], "replay": path})
    for v in rep.inconclusive[:8]:
        print(f"  INCONCLUSIVE [{v['fn']}] {short(v['message'])}", file=sys.stderr)
        for s in v["stack"][-10:]:
            print(f"    at {s}", file=sys.stderr)
        if v["trail"]:
            print("    partition: " + "; ".join(short(l, 60) for l, _ in v["trail"]), file=sys.stderr)
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "other")
    files = sorted({p for p, _ in rep.lines})
    repo_fns = sorted({f"{p}:{q}" for p, q, _ in rep.functions})
    cov = {
        "explanation": (
            f"Abstract interpretation of the syntax trees of {len(repo_fns)} functions "
            f"({len(rep.lines)} statements, {len(rep.callsites)} call edges) in {', '.join(files) or '-'} "
            f"under {len(rep.contexts)} analysis contexts: {rep.partitions} trace partitions "
            f"({rep.infeasible} contradictory), {rep.obligations} obligations at {len(rep.sites)} obligation sites. "
            f"Rules applied to the whole source: {'; '.join(lint.rules) or 'none'}."),
        "functions": repo_fns,
        "statements": len(rep.lines),
        "call_edges": len(rep.callsites),
        "partitions": rep.partitions,
        "obligations": rep.obligations,
        "contexts": rep.contexts,
        "lint_rules": lint.rules,
        "lint_sites": lint.sites,
        "inconclusive": len(rep.inconclusive),
        "known_findings": sorted(listed),
        "violation_list": vio,
    }
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 3), "assumptions": sorted(rep.assumptions), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop}: {len(repo_fns)} functions, {rep.partitions} partitions, {rep.obligations} obligations, "
          f"{len(fresh)} violations, {len(rep.inconclusive)} undecided, {ev['wall_s']}s")
    if fresh:
        return 1
    if rep.inconclusive:
        # Not decided: reported as such, here and in the evidence.  The check has an answer for what it did explore
        # unless there is little of that.
        decided = rep.partitions - len(rep.inconclusive)
        print(f"UNDECIDED: property={prop} {len(rep.inconclusive)} of {rep.partitions} partitions")
        if a.strict or decided <= len(rep.inconclusive):
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
