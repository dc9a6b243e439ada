#!/usr/bin/env python3
"""Decide one property: symbolic execution of the real code, then native replay of whatever the
solver found.  usage: run.py PROPERTY [quick|thorough] [--entry NAME ...] [--time S]"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS, COMMON_ASSUMPTIONS, MODULE_ASSUMPTIONS

V, B = build.V, build.B
KNOWN = os.path.join(V, "known_findings.json")


def replay(binary, entry, inputs, tries=1):
    """Run the harness natively on concrete inputs."""
    text = "".join(f"{n} {h}\n" for n, h in inputs)
    last = None
    for _ in range(tries):
        try:
            p = subprocess.run([binary, entry], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return {"end": "timeout", "fails": [], "marks": [], "out": ""}
        r = {"end": f"exit {p.returncode}", "fails": [], "marks": [], "out": ""}
        for l in p.stdout.splitlines():
            k, _, v = l.partition(" ")
            if k == "END":
                r["end"] = v
            elif k == "CHECK-FAIL":
                r["fails"].append(v)
            elif k == "MARKS":
                r["marks"] = [x for x in v.split("|") if x]
            elif k == "OUT":
                r["out"] = v
        last = r
        yield r
    return last


def reproduces(r, v):
    if v["kind"] == "check":
        return v["tag"] in r["fails"]
    return r["end"].startswith(("panic", "exit -", "exit 134", "exit 139", "timeout"))


def run_entry(symex, lls, binary, pid, e, tier, tmax, jobs):
    t0 = time.time()
    out = f"{B}/run/{pid}-{tier}/{e['key']}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    params = dict(e.get("params", {}))
    params.update(e.get("thorough" if tier == "thorough" else "quick", {}))
    cmd = [symex, *lls, "--entry", e["entry"], "--out", out, "--jobs", str(jobs), "--time", str(tmax), "--log-paths", "24",
           "--stop-after", str(e.get("stop_after", 60))]
    for k, x in params.items():
        cmd += ["--param", f"{k}={x}"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    f = f"{out}/result.json"
    if not os.path.exists(f):
        raise SystemExit(f"symbolic execution of {e['entry']} failed (rc {p.returncode}):\n{p.stdout[-3000:]}")
    r = json.load(open(f))
    rd = lambda n: [json.loads(l) for l in open(f"{out}/{n}.jsonl")] if os.path.exists(f"{out}/{n}.jsonl") else []
    r["params"] = params
    r["key"] = e["key"]
    r["bound"] = e["bound"]
    r["viol"], r["inc"], paths = rd("violations"), rd("incomplete"), rd("paths")
    # a harness serving several properties states which assertions belong to this one
    if e.get("only"):
        r["viol"] = [v for v in r["viol"] if v["kind"] != "check" or v["tag"].startswith(tuple(e["only"]))]
    # native validation of sampled paths: same branch marks and same transcript
    r["validated"], r["mismatch"] = 0, []
    bad_inputs = [v["inputs"] for v in r["viol"]]
    for q in paths[:40]:
        ok = None
        for n in replay(binary, e["entry"], q["inputs"], 3):
            ok = n["end"] == "ok" and n["marks"] == q["marks"] and n["out"] == q["out"]
            if ok:
                break
        if ok:
            r["validated"] += 1
        else:
            r["mismatch"].append({"inputs": q["inputs"], "native": n, "symbolic": {"marks": q["marks"], "out": q["out"]}})
    r["samples"] = [{"inputs": q["inputs"], "marks": q["marks"]} for q in paths[:3]]
    # native replay of violations, by tag
    r["confirmed"], r["unconfirmed"] = {}, {}
    for v in r["viol"]:
        tag = f"{v['kind']}:{v['tag']}" if v["kind"] != "check" else v["tag"]
        if tag in r["confirmed"] or r["unconfirmed"].get(tag, 0) >= 6:
            continue
        hit = None
        for n in replay(binary, e["entry"], v["inputs"], 8):
            if reproduces(n, v):
                hit = n
                break
        if hit:
            r["confirmed"][tag] = (v, hit)
        else:
            r["unconfirmed"][tag] = r["unconfirmed"].get(tag, 0) + 1
    for t in r["confirmed"]:
        r["unconfirmed"].pop(t, None)
    r["entry_s"] = round(time.time() - t0, 1)
    r["missing_marks"] = [m for m in e.get("marks", []) if not r["marks"].get(m)]
    return r


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = a[1] if len(a) > 1 and a[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--entry") + 1:] if "--entry" in a else None
    c = CHECKS[pid]
    t0 = time.time()
    with ThreadPoolExecutor(3) as ex:
        # some are about the module itself, and run over its callbacks
        m = c.get("module", False)
        s, n = ex.submit(build.symex), ex.submit(build.native, m)
        lls = build.ir(m)
        symex, binary = s.result(), n.result()
    built = time.time() - t0
    for i, e in enumerate(c["entries"]):
        e["key"] = f"{i}-{e['entry']}"
    ents = [e for e in c["entries"] if (not only or e["entry"] in only) and (tier == "thorough" or not e.get("thorough_only"))]
    tmax = 420 if tier == "quick" else 3600
    jobs, conc = (8, 1) if len(ents) == 1 else (4, 2) if len(ents) == 2 else (3, 4)
    with ThreadPoolExecutor(conc) as ex:
        fs = [ex.submit(run_entry, symex, lls, binary, pid, e, tier, tmax, jobs) for e in ents]
        rs = [f.result() for f in fs]
    known = json.load(open(KNOWN))["findings"] if os.path.exists(KNOWN) else []
    viol, kf, errs, notes = [], [], [], []
    for r in rs:
        for tag, (v, hit) in r["confirmed"].items():
            k = [x for x in known if x["property"] == pid and x["entry"] == r["entry"] and x["tag"] == tag]
            if k:
                kf.append(k[0])
            else:
                viol.append((r["entry"], tag, v, hit))
        for tag in r["unconfirmed"]:
            errs.append(f"{r['entry']}: counterexample for '{tag}' does not reproduce natively")
        for q in r["mismatch"]:
            n, y = q["native"], q["symbolic"]
            if n["end"] != "ok" and not n["fails"] and n["marks"] != y["marks"]:
                errs.append(f"{r['entry']}: a path the solver found clean fails in a native run: {json.dumps(q)[:1500]}")
        if r["mismatch"]:
            notes.append(f"{r['entry']}: {len(r['mismatch'])} sampled path(s) have another transcript in a native run, e.g. {json.dumps(r['mismatch'][0])[:1500]}")
            if not r["validated"]:
                errs.append(f"{r['entry']}: no sampled path agrees with a native run")
        if r["missing_marks"] and not viol and not r["incomplete"]:
            errs.append(f"{r['entry']}: never reached {r['missing_marks']}")
        if r["incomplete"]:
            why = sorted({i.get("why", "") for i in r["inc"]})
            notes.append(f"{r['entry']}: {r['incomplete']} path(s) not finished ({'; '.join(why)[:400]})")
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in rs)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("symbolic_branches"),
            "traces_validated_against_impl": tot("validated"),
            "exhaustive": not any(r["incomplete"] or r["time_cut"] or r["violations"] for r in rs),
            "samples": [{"entry": r["entry"], **s} for r in rs for s in r["samples"]][:12],
            "functions_encoded": sorted({f for r in rs for f in r["kuadrant_functions"]}),
            "queries_discharged": tot("solver_queries"), "solver_s": round(tot("solver_s"), 2),
            "branch_conditions_decided_by_domain_reasoning": tot("domain_decisions"),
            "assertions_checked": tot("obligations"),
            "native_transcript_mismatches": sum(len(r["mismatch"]) for r in rs),
            "entries": [{k: r[k] for k in ("key", "entry", "bound", "params", "paths", "assume_cut", "symbolic_branches", "solver_queries",
                                           "solver_sat", "solver_unsat", "solver_unknown", "solver_s", "domain_decisions", "obligations",
                                           "obligations_decided_by_path_condition", "obligations_unsat", "instructions", "max_depth",
                                           "functions_total", "incomplete", "time_cut", "violations", "marks", "validated", "entry_s")} for r in rs],
            "meaning": "states = complete execution paths through the compiled code, each standing for every input that satisfies its path condition; transitions = branches on symbolic data decided",
        },
        "assumptions": (MODULE_ASSUMPTIONS if c.get("module") else COMMON_ASSUMPTIONS) + c.get("assumptions", []),
        "not_finished": notes, "build_s": round(built, 1), "wall_s": round(wall, 1), "violations": len(viol),
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for r in rs:
        print(f"{r['key']}: {r['paths']} paths, {r['symbolic_branches']} symbolic branches, {r['solver_queries']} queries in {r['solver_s']:.1f} s, "
              f"{r['obligations']} assertions, {r['violations']} violations, {r['incomplete']} unfinished, {r['validated']} replayed natively, {r['entry_s']} s; {r['bound']}")
    for n in notes:
        print("NOTE", n)
    for k in {json.dumps(x) for x in kf}:
        k = json.loads(k)
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for e in errs:
        print("ERROR", e)
    if viol:
        d = f"{V}/evidence/replay"
        os.makedirs(d, exist_ok=True)
        for i, (entry, tag, v, hit) in enumerate(viol[:20]):
            f = f"{d}/{pid}-{i}.txt"
            with open(f, "w") as o:
                o.write(f"# property {pid}, harness {entry}, {v['kind']}: {tag}\n# native run: {hit['end']} failing checks {hit['fails']}\n"
                        f"# path: {v['marks']}\n# to run again: grep -v '^#' {f} | {binary} {entry}\n")
                for n, h in v["inputs"]:
                    o.write(f"{n} {h}\n")
            print(f"  {entry}: {tag}: inputs {json.dumps(v['inputs'])[:600]} native: {hit['end']}")
            print(f"VIOLATION property={pid} replay={f}")
        sys.exit(1)
    if errs:
        sys.exit(2)
    print(f"{pid} held on everything explored ({tot('paths')} paths, {round(wall)} s)")


main()
