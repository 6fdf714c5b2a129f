#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] | --all | --setup | --replay FILE"""
import hashlib, json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, BUILD, CheckError
import props

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """[(harness, label-regex, text)]"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) harness=(\S+) label=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def run_check(prop, tier, only=None):
    t0 = time.time()
    spec = props.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    outdir = os.path.join(BUILD, "run", prop)
    os.makedirs(outdir, exist_ok=True)
    vlib.engine()
    d = vlib.repo_bc()
    known = known_findings(prop)
    kseen = {}
    reports, errors = [], []
    cov = {"paths": 0, "forks": 0, "queries": 0, "z3_calls": 0, "sat": 0, "unsat": 0, "unknown": 0, "solver_s": 0.0, "instructions": 0, "checks": 0, "checks_symbolic": 0, "sampled": 0, "concretizations": 0, "killed_by_assume": 0, "native_calls": 0}
    functions, reach, labels, per_h, replayed, discarded = set(), {}, {}, [], 0, 0
    harnesses = [h for h in spec["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    if only:
        harnesses = [h for h in harnesses if only in h["name"]]
    budget = spec.get("deadline_" + tier, 420 if tier == "quick" else 3000)
    for h in harnesses:
        defines = list(h.get("defs", [])) + list(h.get("defs_" + tier, []))
        sources = [h["src"]] + (["env.cpp"] if h.get("env", True) else []) + h.get("extra", [])
        th = time.time()
        bc = vlib.harness_bc(d, sources, defines)
        left = max(20, budget - (time.time() - t0))
        js, viols = vlib.engine_run(bc, outdir, h["name"], jobs=vlib.NCPU, deadline=min(left, h.get("deadline_" + tier, left)), maxinstr=h.get("maxinstr", 400_000_000))
        for k in cov:
            cov[k] += js.get(k, 0)
        functions.update(js.get("functions", []))
        for k, v in js.get("reach", {}).items():
            reach[h["name"] + ":" + k] = v
        for k, v in js.get("check_labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        per_h.append({"harness": h["name"], "bounds": h.get("bounds_" + tier, h.get("bounds", "")), "paths": js.get("paths", 0), "queries": js.get("queries", 0), "solver_s": round(js.get("solver_s", 0), 2), "checks": js.get("checks", 0), "wall_s": round(time.time() - th, 1)})
        hv = 0
        seen = set()
        for v in viols:
            kf = [k for k in known if k[0] == h["name"] and re.fullmatch(k[1], v["label"])]
            if kf:
                kseen[kf[0]] = kseen.get(kf[0], 0) + 1
                continue
            if v["label"] in seen and len([s for s in seen]) > 0:
                continue
            # replay against the natively compiled sources before believing it
            exe = vlib.native_bin(d, sources, defines, "harness")
            path = os.path.join(EVID, "%s.replay.%s.txt" % (prop, hashlib.sha256((h["name"] + v["label"]).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                f.write("PROPERTY %s\nHARNESS %s\nTIER %s\nVIOL %s\nDETAIL %s\nWHERE %s\n" % (prop, h["name"], tier, v["label"], v["detail"], v["where"]))
                f.write("\n".join(v["vars"]) + "\nEND\n")
            ok, what = vlib.replay(exe, path)
            replayed += 1
            if ok:
                seen.add(v["label"])
                reports.append((path, h["name"], v["label"], v["detail"], what))
                hv += 1
            else:
                discarded += 1
                errors.append("counterexample of %s:%s (%s) does not reproduce natively: %s [%s]" % (h["name"], v["label"], v["detail"], what, path))
        missing = [r for r in h.get("reach", []) if not js.get("reach", {}).get(r)]
        if js.get("incomplete"):
            errors.append("%s: incomplete: %s" % (h["name"], json.dumps(js.get("incomplete_reasons", {}))[:600]))
        if js.get("unknown"):
            errors.append("%s: %d solver queries undecided" % (h["name"], js["unknown"]))
        if js.get("model_mismatch"):
            errors.append("%s: %d models disagree with the evaluator" % (h["name"], js["model_mismatch"]))
        if missing:
            errors.append("%s: witnesses not reached: %s" % (h["name"], ", ".join(missing)))
        if len(reports) >= 5:
            break
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": cov["paths"], "transitions": cov["instructions"], "traces_validated_against_impl": replayed,
                       "samples": [{"path_class": k, "paths": v} for k, v in sorted(reach.items())[:40]] + [{"assertion": k, "evaluations": v} for k, v in sorted(labels.items())[:40]],
                       "harnesses": per_h, "functions_encoded": sorted(functions), "functions_encoded_count": len(functions),
                       "paths": cov["paths"], "path_splits": cov["forks"], "queries": cov["queries"], "z3_calls": cov["z3_calls"], "queries_sat": cov["sat"], "queries_unsat": cov["unsat"], "queries_unknown": cov["unknown"], "solver_s": round(cov["solver_s"], 2),
                       "assertions_evaluated": cov["checks"], "assertions_symbolic": cov["checks_symbolic"], "concretizations": cov["concretizations"], "sampled_values": cov["sampled"], "paths_pruned_by_assumptions": cov["killed_by_assume"], "native_library_calls": cov["native_calls"],
                       "counterexamples_replayed": replayed, "counterexamples_discarded": discarded, "errors": errors,
                       "rule": "states = completed symbolic paths; transitions = IR instructions executed on them; every path covers all inputs satisfying its path condition"},
          "assumptions": props.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(wall, 1), "violations": len(reports)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k in kseen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    for p, hn, l, det, what in reports:
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  harness=%s assertion=%s detail=%s native=%s" % (hn, l, det[:300], what))
    for e in errors:
        print("NOTE %s" % e if reports else "ERROR %s" % e)
    print("%s %s: %d paths, %d queries (%.1f s solver), %d assertions, %d functions, %.1f s" % (prop, tier, cov["paths"], cov["queries"], cov["solver_s"], cov["checks"], len(functions), wall))
    if reports:
        return 1
    return 2 if errors else 0


def do_replay(path):
    meta = {}
    for line in open(path):
        m = re.match(r"(PROPERTY|HARNESS|TIER|VIOL) (.*)", line)
        if m:
            meta[m.group(1)] = m.group(2).strip()
    h = [x for x in props.PROPS[meta["PROPERTY"]]["harnesses"] if x["name"] == meta["HARNESS"]][0]
    defines = list(h.get("defs", [])) + list(h.get("defs_" + meta["TIER"], []))
    sources = [h["src"]] + (["env.cpp"] if h.get("env", True) else []) + h.get("extra", [])
    d = vlib.repo_bc()
    ok, what = vlib.replay(vlib.native_bin(d, sources, defines, "harness"), path)
    print(("REPRODUCED " if ok else "not reproduced: ") + what)
    return 1 if ok else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if "--only" in a:
        i = a.index("--only"); only = a[i + 1]; del a[i:i + 2]
    try:
        if a[0] == "--setup":
            vlib.engine(); vlib.repo_bc()
            return 0
        if a[0] == "--replay":
            return do_replay(a[1])
        if a[0] == "--all":
            rc = 0
            for p in props.PROPS:
                rc = max(rc, run_check(p, tier))
            return rc
        return run_check(a[0], tier, only)
    except CheckError as e:
        print("ERROR " + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
