#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of the real code."""
import glob, json, os, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vcommon import *
from checks import CHECKS

ASSUME = [
    "code is executed from the LLVM IR rustc (nightly-2022-02-16, release profile: overflow checks and debug assertions off) generates for /repo's current tree",
    "memory allocation does not fail; the global allocator is replaced by one the engine tracks block by block",
    "a formatting/printing call's output is discarded; time and environment are fixed values",
]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = CHECKS[prop]
    build_engine()
    work = os.path.join(BUILD, "run-%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep_dir = os.path.join(VERIF, "build", "replay-" + prop)
    shutil.rmtree(rep_dir, ignore_errors=True)
    known = [k for k in known_findings() if k["property"] == prop and k.get("status") == "known"]
    tot = dict(paths=0, forks=0, instrs=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, checks=0, blocks=0, assume_pruned=0, violations=0, inconclusive=0)
    tot["domain_queries"] = 0
    functions, lines, entries_ev, samples = set(), {}, [], []
    problems, viols, found_known = [], [], {}
    validated = diverged = 0
    build_s = 0.0
    for part in spec["parts"]:
        group = part["group"]
        ents = list(part["entries"])
        if tier == "thorough":
            ents += part.get("thorough", [])
        else:
            ents += part.get("quick", [])
        bc, lib, bs = build_group(group)
        build_s += bs
        out = os.path.join(work, group)
        os.makedirs(out, exist_ok=True)
        left = (720 if tier == "quick" else 20000) - (time.time() - t0)
        if left < 30 or (viols and not known):
            problems.append("part %s not run (time budget)" % group)
            continue
        extra = list(part.get("args", [])) + ["--total", str(int(left))]
        if not known:
            extra.append("--stop-on-violation")
        d = run_symx(bc, ents, out, part.get("secs", 600 if tier == "quick" else 6000), extra=extra)
        for e in d["entries"]:
            for k in tot:
                tot[k] += e[k]
            functions.update(e["functions"])
            for f, n in e["lines"].items():
                lines[f] = max(lines.get(f, 0), n)
            entries_ev.append({k: v for k, v in e.items() if k not in ("functions", "lines")})
            name = e["entry"]
            if e["inconclusive"]:
                problems.append("%s: %d inconclusive paths" % (name, e["inconclusive"]))
            base = name[:-5] if name.endswith("_deep") else name
            need = part.get("labels", {}).get(name, part.get("labels", {}).get(base, part.get("need", ["end"])))
            if not e["violations"] and not e["inconclusive"]:
                for l in need:
                    if not e["labels"].get(l):
                        problems.append("%s: vacuous, label '%s' never reached" % (name, l))
            # violations: replay natively, then classify
            for vt in sorted(glob.glob(os.path.join(out, "viol_%s_*.txt" % name))):
                if not os.path.basename(vt)[5:].rsplit("_", 1)[0] == name:
                    continue
                if len(viols) >= 3:
                    break
                model = vt[:-4] + ".model"
                text = open(vt, errors="replace").read()
                msg = text.split("\n", 1)[0]
                hit = None
                for k in known:
                    if k["entry"] == name and k["match"] in text:
                        hit = k
                st, o = native(lib, name, model)
                if st != "failed" and ("memory error" in msg or "unreachable code" in msg):
                    st, o = native(lib, name, model, valgrind=True)
                if st == "timeout" and ("does not terminate" in msg or "deadlock" in msg):
                    st = "failed"
                if hit and st == "failed":
                    found_known[hit["id"]] = hit
                    continue
                rec = {"entry": name, "message": msg, "replay": st}
                if st == "failed":
                    os.makedirs(rep_dir, exist_ok=True)
                    base = os.path.join(rep_dir, os.path.basename(vt)[:-4])
                    shutil.copy(model, base + ".model")
                    with open(base + ".txt", "w") as f:
                        f.write("property %s, harness %s\n%s\nnative replay (%s %s %s %s):\n%s" % (prop, name, text, VPRUN, lib, name, base + ".model", o[-4000:]))
                    rec["path"] = base + ".txt"
                    viols.append(rec)
                else:
                    problems.append("%s: counterexample not reproduced natively (%s): %s" % (name, st, msg))
            # sampled complete paths: the compiled code must agree with the interpreter
            ps = sorted(glob.glob(os.path.join(out, "path_%s_*.model" % name)))
            ps = [p for p in ps if os.path.basename(p)[5:].rsplit("_", 1)[0] == name][: part.get("validate", 6)]
            for p in ps:
                st, o = native(lib, name, p)
                got = [l[6:] for l in o.split("\n") if l.startswith("REACH ")]
                want = [l for l in open(p[:-6] + ".labels").read().split("\n") if l]
                if st == "held" and got == want:
                    validated += 1
                    if len(samples) < 8:
                        samples.append({"entry": name, "inputs": open(p).read()[:1500], "labels": want})
                elif part.get("native_differs"):
                    pass
                else:
                    diverged += 1
                    problems.append("%s: native run of %s disagrees with the engine (%s)" % (name, os.path.basename(p), st))
        inc = os.path.join(out, "inconclusive.log")
        if os.path.exists(inc):
            log(open(inc).read()[:3000])
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["forks"] + len(entries_ev),
            "transitions": tot["instrs"],
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no complete path (see violations)"}],
            "explanation": "states = symbolic path states created at feasible branches (one per harness entry plus one per fork); transitions = IR instructions executed symbolically; each path stands for every input satisfying its path condition",
            "solver": {"name": "Z3 (QF_BV)", "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "seconds": round(tot["solver_s"], 2), "branch_queries_decided_by_byte_domain": tot["domain_queries"]},
            "complete_paths": tot["paths"], "assertions_checked": tot["checks"], "assumption_pruned_paths": tot["assume_pruned"],
            "inconclusive_paths": tot["inconclusive"], "bounds": spec["bounds"],
            "functions_encoded_count": len(functions), "functions_encoded": sorted(functions)[:400],
            "source_lines_encoded": lines, "entries": entries_ev,
            "build_s": round(build_s, 1), "problems": problems,
        },
        "assumptions": ASSUME + spec.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d entries, %d paths, %d queries (%.1f s solver), %d assertions, %d traces validated, %.0f s" %
          (prop, tier, len(entries_ev), tot["paths"], tot["queries"], tot["solver_s"], tot["checks"], validated, wall))
    for k in found_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    seen = set()
    for v in viols:
        key = (v["entry"], v["message"])
        if key in seen:
            continue
        seen.add(key)
        print("  violated in %s: %s" % (v["entry"], v["message"]))
    for p in problems:
        print("  problem: " + p)
    if viols:
        print("VIOLATION property=%s replay=%s" % (prop, viols[0]["path"]))
        return 1
    shutil.rmtree(work, ignore_errors=True)
    return 2 if problems else 0


if __name__ == "__main__":
    try:
        rc = main()
    except RuntimeError as e:
        print("ERROR: %s" % e)
        rc = 3
    sys.exit(rc)
