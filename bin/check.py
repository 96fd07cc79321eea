#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only ENTRY] [-v]

Decides one property: builds /repo's current sources and the harness to LLVM
bitcode, executes the harness symbolically (build/wsym), and reports a violation
only after its counterexample reproduced in a native build of the same sources."""
import sys, argparse
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from wsymlib import *
import checks as C


def load_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(re.findall(r'(\w+)="([^"]*)"', l))
                d["property"] = re.search(r"property=(\S+)", l).group(1)
                out.append(d)
    return out


def matches(f, pid, entry, v):
    if f["property"] != pid:
        return False
    if f.get("entry") and not re.fullmatch(f["entry"], entry):
        return False
    if f.get("kind") and f["kind"] != v["kind"]:
        return False
    if f.get("msg") and f["msg"] not in v["msg"]:
        return False
    if f.get("where") and f["where"] not in " ".join([v["loc"]] + v["stack"]):
        return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--cov", action="store_true", help="print block coverage of the encoded functions")
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    spec = C.CHECKS[pid]
    t0 = time.time()
    ensure_engine()
    work = os.path.join(BUILD, "run", pid + ("" if tier == "quick" else "_thorough"))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    b = Builder(work)
    jobs = []
    errors, results = [], []
    try:
        for g in spec["groups"]:
            runs = []
            for r in g["runs"]:
                if a.only and not re.fullmatch(a.only, r["entry"]):
                    continue
                argl = r.get("quick", [()]) if tier == "quick" else r.get("thorough", r.get("quick", [()]))
                for ar in argl:
                    if not isinstance(ar, tuple):
                        ar = (ar,)
                    runs.append((r, ar))
            if not runs:
                continue
            srcs = g["srcs"]
            bc = b.link(g["name"], srcs, tuple(g.get("defs", ())))
            for r, ar in runs:
                jobs.append((g, bc, r, ar))
    except CheckError as e:
        print("CHECK-ERROR", str(e))
        return 2
    tmax = spec.get("max_time", 600 if tier == "quick" else 3000)
    samples = spec.get("traces", 3)

    def one(j):
        g, bc, r, ar = j
        name = r["entry"] + "".join("_%s" % x for x in ar)
        opts = ["--max-time=%d" % r.get("max_time", tmax), "--trace-samples=%d" % samples,
                "--max-viol=%d" % r.get("max_viol", 12)] + list(r.get("opts", []))
        if tier == "thorough":
            opts += ["--cross=%d" % r.get("cross", 25)]
        res = run_wsym(bc, r["entry"], name, work, args=ar, opts=opts, tmo=tmax + 120, mem_gb=r.get("mem_gb", 8))
        return res

    # natively built replay programs, one per (group, entry)
    exes = {}

    def exe(g, entry):
        k = (g["name"], entry)
        if k not in exes:
            exes[k] = b.native(g["name"], g["srcs"], entry, tuple(g.get("defs", ())))
        return exes[k]

    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][2].get("weight", 1))
    res_by = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(one, jobs[i]): i for i in order}
        for f in cf.as_completed(futs):
            i = futs[f]
            res_by[i] = f.result()
            if a.v:
                r = res_by[i]
                print("  %-40s %s paths=%s viol=%d queries=%s solver=%.1fs wall=%.1fs %s" % (
                    r["harness"], "ok " if r["complete"] else "INCOMPLETE", r.get("paths"), len(r["violations"]), r.get("queries"),
                    r.get("solver_s", 0), r.get("wall_s", 0), r.get("engine_error", "") + " " + r.get("why_incomplete", "")), flush=True)
    findings = load_findings()
    known, confirmed, unconfirmed = [], [], []
    validated = mismatched = 0
    repdir = os.path.join(VERIF, "evidence", pid + ".replay")
    shutil.rmtree(repdir, ignore_errors=True)
    tot = dict(paths=0, paths_completed=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, model_reuse=0, solver_s=0.0, instructions=0,
               memory_accesses_checked=0, assertions_decided_by_solver=0, assertions_decided_by_folding=0, cross_checked=0, cross_disagree=0, paths_assumed_away=0)
    funcs, covers, sams = {}, {}, []
    runs_out = []
    try:
        for i, (g, bc, r, ar) in enumerate(jobs):
            res = res_by[i]
            name = res["harness"]
            for k in tot:
                tot[k] += res.get(k, 0) or 0
            for k, v in res.get("functions", {}).items():
                o = funcs.get(k, [0, 0])
                funcs[k] = [max(o[0], v[0]), max(o[1], v[1])]
            for k, v in res.get("covers", {}).items():
                covers[(r["entry"], k)] = covers.get((r["entry"], k), 0) + v
            sams += ["%s: %s" % (name, s) for s in res.get("samples", [])[:1]]
            runs_out.append({"run": name, "paths": res.get("paths_completed"), "queries": res.get("queries"), "unsat": res.get("unsat"),
                             "solver_s": round(res.get("solver_s", 0), 2), "wall_s": round(res.get("wall_s", 0), 2), "complete": res["complete"]})
            if res.get("engine_error"):
                errors.append("%s: engine: %s" % (name, res["engine_error"]))
            elif not res["complete"] and not res["violations"]:
                errors.append("%s: not decided within the limits: %s (unknown=%s)" % (name, res.get("why_incomplete"), res.get("unknown")))
            elif not res["complete"] and (res.get("why_incomplete") or res.get("unknown")):
                errors.append("%s: not decided within the limits: %s" % (name, res.get("why_incomplete")))
            for v in res["violations"]:
                kf = [f for f in findings if matches(f, pid, r["entry"], v)]
                if kf:
                    # a known finding is listed only if it still reproduces
                    st, out = replay(exe(g, r["entry"]), v["cex"], ar, v["kind"])
                    if st in ("confirmed", "hang"):
                        known.append((kf[0], name, v))
                    else:
                        unconfirmed.append((name, v, st, out))
                    continue
                if len(confirmed) >= 6:
                    confirmed.append((name, v, None, "not replayed (limit)"))
                    continue
                st, out = replay(exe(g, r["entry"]), v["cex"], ar, v["kind"])
                if st in ("confirmed", "hang"):
                    os.makedirs(repdir, exist_ok=True)
                    dst = os.path.join(repdir, os.path.basename(v["cex"]))
                    shutil.copy(v["cex"], dst)
                    open(dst + ".txt", "w").write("replay: bin/replay.py %s %s %s %s\n%s: %s\nat %s\n%s\n\nnative output:\n%s\n" % (
                        pid, r["entry"], dst, " ".join(map(str, ar)), v["kind"], v["msg"], v["loc"], "\n".join(v["stack"]), out))
                    confirmed.append((name, v, dst, out))
                else:
                    unconfirmed.append((name, v, st, out))
        # completed paths, re-run natively: the executor and the machine must agree
        if not confirmed:
            tj = []
            for i, (g, bc, r, ar) in enumerate(jobs):
                for t in res_by[i].get("traces", []):
                    tj.append((exe(g, r["entry"]), t, ar))
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for (e, t, ar), (st, out) in zip(tj, ex.map(lambda x: replay(x[0], x[1], x[2], "none"), tj)):
                    if st == "completed":
                        validated += 1
                    else:
                        mismatched += 1
                        errors.append("native run disagrees with the executor on a passing path %s: %s %s" % (t, st, out[-300:]))
    except CheckError as e:
        errors.append(str(e))
    missing = []
    for g in spec["groups"]:
        for r in g["runs"]:
            if a.only and not re.fullmatch(a.only, r["entry"]):
                continue
            for c in r.get("covers", []):
                if not covers.get((r["entry"], c)):
                    missing.append("%s:%s" % (r["entry"], c))
    if missing and not confirmed and not known:
        errors.append("vacuity: never reached: " + ", ".join(missing))
    nassert = len([1 for (e, k) in covers if k.startswith("assert:")])
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {
              "states": tot["paths_completed"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
              "samples": sams[:12] or ["(no symbolic input)"],
              "what": "symbolic execution of the compiled sources: 'states' = feasible symbolic paths run to their end, 'transitions' = solver-decided forks",
              "bounds": spec["bounds"] if isinstance(spec["bounds"], str) else spec["bounds"][tier],
              "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"],
              "queries_cached": tot["cache_hits"] + tot["model_reuse"], "solver_s": round(tot["solver_s"], 3), "solver": "Z3 4.8.12 (bit-vectors / floating point)",
              "cvc5_cross_checked": tot["cross_checked"], "cvc5_disagreements": tot["cross_disagree"],
              "instructions": tot["instructions"], "memory_accesses_checked": tot["memory_accesses_checked"],
              "distinct_assertions_reached": nassert,
              "assertions_decided_by_solver": tot["assertions_decided_by_solver"], "assertions_decided_by_folding": tot["assertions_decided_by_folding"],
              "functions_encoded": {k: "%d/%d blocks" % tuple(v) for k, v in sorted(funcs.items())},
              "covers": {"%s:%s" % k: v for k, v in sorted(covers.items()) if not k[1].startswith("assert:")},
              "runs": runs_out, "known_findings": ["%s %s" % (n, v["msg"]) for (_, n, v) in known],
              "undecided": errors},
          "assumptions": spec.get("assumptions", []) + C.COMMON_ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if tot["cross_disagree"]:
        errors.append("the two solvers disagree on %d queries" % tot["cross_disagree"])
    if a.cov:
        for k, v in sorted(funcs.items()):
            print("   %s %d/%d" % (k, v[0], v[1]))
    seen = set()
    for f, name, v in known:
        if id(f) in seen:
            continue
        seen.add(id(f))
        print("KNOWN-FINDING: property=%s %s" % (pid, f.get("what", v["msg"])))
    for name, v, st, out in unconfirmed:
        errors.append("counterexample did not reproduce natively (%s): %s %s at %s [%s]" % (st, v["kind"], v["msg"], v["loc"], v["cex"]))
        if a.v:
            errors[-1] += "\n" + out[-1500:]
    for name, v, dst, out in confirmed:
        if dst is None:
            continue
        print("violated in %s: %s: %s\n   at %s" % (name, v["kind"], v["msg"], v["loc"]))
        print("VIOLATION property=%s replay=%s" % (pid, dst))
    for e in errors:
        print("UNDECIDED", e)
    print("%s %s: %d runs, %d paths, %d queries (%d unsat, %d unknown), solver %.1fs, %d assertions, %d traces validated, %d functions, wall %.1fs" % (
        pid, tier, len(jobs), tot["paths_completed"], tot["queries"], tot["unsat"], tot["unknown"], tot["solver_s"], nassert, validated, len(funcs), wall))
    if not a.v and not os.environ.get("WSYM_KEEP"):
        for p in glob.glob(os.path.join(work, "*.bc")) + glob.glob(os.path.join(work, "*.o")) + glob.glob(os.path.join(work, "replay_*")):
            os.unlink(p)
    if confirmed:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
