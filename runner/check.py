#!/usr/bin/env python3
"""Decides one property: builds the engines from /repo's working tree, runs them, writes evidence.

exit 0  held on everything explored        exit 1  violation, confirmed on the real code
exit 2  build or engine error              exit 3  too little could be decided to give an answer
"""
import fcntl, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "runner"))
import meta, kani

def known_findings(prop):
    out = []
    p = os.path.join(V, "known-findings.json")
    if os.path.exists(p):
        for f in json.load(open(p)).get("findings", []):
            if f["property"] == prop:
                out.append(f)
    return out

def build(engine, profiles):
    t = time.time()
    with open(os.path.join(V, ".build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", os.path.join(V, "build.sh"), engine] + profiles, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("build of %s against /repo failed" % engine)
    return r.returncode == 0, time.time() - t

def reproduces(v, work):
    """A violation seen over stand-in types counts only if the real types show it."""
    ok, _ = build("treesnat", ["checked"])
    if not ok:
        return False
    f = os.path.join(work, "cand.json"); json.dump(v, open(f, "w"))
    r = subprocess.run([os.path.join(V, "target", "treesnat", "checked", "treesnat"), "replay", f], stdout=subprocess.PIPE, text=True, timeout=300)
    v["replay_output"] = r.stdout.splitlines()[:4]
    return r.returncode == 1

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    M = meta.PROPS[prop]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    work = os.path.join(V, "work", prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    replays = os.path.join(V, "replays"); os.makedirs(replays, exist_ok=True)
    ev = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    engines = M.get("engines", [("symx", p) for p in M.get("profiles", ["checked"])])
    build_s, broken = 0.0, []
    for e in dict.fromkeys(e for e, _ in engines):
        ok, t = build(e, [p for x, p in engines if x == e])
        build_s += t
        if not ok:
            broken.append(e)
    if engines and len(broken) == len(set(e for e, _ in engines)) and prop not in kani.HARNESSES:
        sys.exit(2)
    kj = kani.start(prop, tier, work) if prop in kani.HARNESSES else None
    parts, viols, undec = [], [], []
    for e in broken:
        undec.append((e, "*", "the stand-in types do not cover an interface the code now uses"))
    for e, p in engines:
        if e in broken:
            continue
        out = os.path.join(work, e + "-" + p + ".json")
        exe = os.path.join(V, "target", e, p, e)
        env = dict(os.environ, VERIF_SEED=str(seed))
        if tier == "quick":
            env.setdefault("SYMX_BUDGET_S", str(int(560 / len(engines))))
        r = subprocess.run([exe, "check", prop, tier, out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sys.stdout.write(r.stdout[-6000:])
        if not os.path.exists(out):
            print("engine produced no result (exit %d)" % r.returncode)
            sys.exit(2)
        d = json.load(open(out)); d["profile"] = e + "/" + p
        parts.append(d)
        for v in d["violations"]:
            v = {"property": prop, "engine": e, "profile": p, "config": v["id"], "inputs": v["detail"]["inputs"], "what": v["detail"]["what"][:8], "confirmed_by": v["detail"]["confirmed_by"]}
            if e == "trees":
                if not reproduces(v, work):
                    undec.append((e, v["config"], "counterexample over the stand-in types did not show on the real ones"))
                    d["decided"] -= 1
                    continue
                v["confirmed_by"] = "native"
            viols.append(v)
        undec += [(d["profile"], u["id"], u["detail"]) for u in d["undecided"]]
        if viols:
            break
    kres = kani.finish(kj) if kj else []
    for k in kres:
        print("  kani %s: %s (%.1f s)" % (k["harness"], k["status"], k["wall_s"]))
        if k["status"] == "violated":
            viols.append({"property": prop, "engine": "kani", "harness": k["harness"], "config": k["harness"], "what": k["failed_checks"][:8], "inputs": k.get("inputs"), "confirmed_by": k.get("confirmed_by")})
        elif k["status"] != "holds":
            undec.append(("kani", k["harness"], k.get("detail", k["status"])))
    # known findings: matched by configuration prefix and failing text, never extended here
    known, fresh = [], []
    for v in viols:
        hit = None
        for f in known_findings(prop):
            if re.fullmatch(f["config"], v["config"]) and any(re.search(f["what"], w) for w in v["what"]):
                hit = f
        (known if hit else fresh).append(v)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit["title"]))
    tasks = sum(p["tasks"] for p in parts) + len(kres)
    decided = sum(p["decided"] for p in parts) + sum(k["status"] in ("holds", "violated") for k in kres)
    skipped = sum(p["skipped_for_time"] for p in parts)
    S = lambda k: sum(p["solver"][k] for p in parts)
    T = lambda k: sum(p[k] for p in parts)
    cov = {
        "explanation": M["explanation"],
        "functions_encoded": sorted(set(f for p in parts for f in p["functions"]) | set(f for k in kres for f in k["functions"])),
        "bounds": M["bounds"],
        "outside_the_bounds": M["outside"],
        "engines": ["%s (%s)" % e for e in engines], "configurations": tasks, "configurations_decided": decided, "configurations_skipped_for_time": skipped,
        "configurations_undecided": [list(u) for u in undec][:50],
        "obligations": T("obligations") + sum(k.get("checks", 0) for k in kres),
        "paths_explored": T("paths"), "branch_flips_shown_infeasible": T("infeasible_flips"), "branch_flips_not_explored": T("unexplored_flips"),
        "operation_nodes_encoded": T("nodes"), "node_pairs_proved_equal": T("merged_pairs"),
        "concretised_values": T("concretised"),
        "solver": {"smt": parts[0]["solver"]["binary"] if parts else "CBMC (Kani)", "queries": S("queries") + sum(k["wall_s"] > 0 for k in kres), "unsat": S("unsat"), "sat": S("sat"), "unknown": S("unknown"), "solver_time_s": round(S("time_s") + sum(k.get("solver_time_s") or 0 for k in kres), 3), "query_bytes": S("query_bytes")},
        "kani": [{k: v for k, v in x.items() if k != "log"} for x in kres],
        "samples": [{"profile": p["profile"], "configuration": c["id"], "status": c["status"], "encoding": c["sample"], "paths": c["paths"]} for p in parts for c in p["configs"][:: max(1, len(p["configs"]) // 6)]][:12],
        "build_s": round(build_s, 1),
    }
    evidence = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov,
                "assumptions": M["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    json.dump(evidence, open(ev, "w"), indent=1)
    if fresh:
        for n, v in enumerate(fresh):
            path = os.path.join(replays, "%s-%d.json" % (prop, n))
            json.dump(dict(v, how="python3 runner/replay.py %s" % path), open(path, "w"), indent=1)
            for w in v["what"][:3]:
                print("  %s %s: %s" % (prop, v["config"], w))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    for u in undec[:20]:
        print("  UNDECIDED (not part of what held): %s %s %s" % u)
    if decided < M.get("least", 0.5) * tasks or decided == 0:
        print("%s: only %d of %d configurations could be decided" % (prop, decided, tasks))
        sys.exit(3)
    print("%s: held on %d of %d configurations (%d solver queries), %.1f s" % (prop, decided, tasks, cov["solver"]["queries"], time.time() - t0))
    sys.exit(0)

main()
