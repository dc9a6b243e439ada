#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "crates/kuadrant-filter/src/"
P, NA = [], []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": [f if f.startswith(("README", "doc", "crates")) else K + f for f in files],
         "mechanism": [{"name": n, "where": (w if w.startswith("crates") else K + w)} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Deny failure mode: no failure lets a guarded request through",
  "When a service's failure mode is deny, a request goes on only after that service stated a positive verdict. Any failure on the way to the verdict (an error status, an undecodable or verdict-less reply, a predicate or message that cannot be evaluated, a dispatch that fails, an on-reply action or nested call that fails, body data that never comes, an earlier failed action) answers the request with one 500 instead.",
  ["inputs", "fault_sequences", "configurations"], "every gRPC status, every reply byte string within bounds, every client header and body value within bounds, every listed place of failure, legacy and typed actions, tracing on or off",
  "unit tests drive single tasks with a handful of canned replies; the guarantee is over every status, every reply byte string and every place where handling a reply may fail, composed with requeueing and wrapping of tasks",
  ["kuadrant/pipeline/tasks/failure_mode.rs", "kuadrant/pipeline/executor.rs", "kuadrant/pipeline/blueprint.rs", "kuadrant/pipeline/tasks/dynamic.rs"],
  [("failure-mode wrapping of tasks, also requeued ones", "kuadrant/pipeline/tasks/failure_mode.rs"), ("reply handling", "kuadrant/pipeline/tasks/dynamic.rs"), ("translation of legacy actions", "configuration.rs")],
  observe=["local replies, dispatched calls and resumes seen by the proxy"])
p("C02", "Allow failure mode: failures are skipped, denials still deny",
  "When a service's failure mode is allow, a failure to obtain its verdict never answers the request: the following actions are consulted as if that action had succeeded. An explicit denial stated by the service still refuses the request.",
  ["inputs", "fault_sequences", "configurations"], "every gRPC status, every reply byte string within bounds, every listed place of failure before the call, at dispatch, at reading and while handling the reply, legacy and typed actions",
  "tests cover a failed dispatch and one error status; which replies count as failures and whether the rest of the actions still run depends on every status and reply byte string",
  ["kuadrant/pipeline/tasks/failure_mode.rs", "kuadrant/pipeline/executor.rs", "configuration.rs"],
  [("failure-mode wrapping", "kuadrant/pipeline/tasks/failure_mode.rs"), ("completion of failed tasks", "kuadrant/pipeline/executor.rs")])
p("C03", "A refusal is final: one reply, nothing resumed or called afterwards",
  "Once an action refuses a request, the client gets exactly one reply stating that verdict, the request is never resumed, no further service is called for it, and replies arriving later change nothing. Without a refusal no reply is sent.",
  ["schedules", "inputs", "configurations"], "every list of actions within bounds (parallel, sequential, guarding or not, nested calls, legacy, both failure modes, tracing), every order of replies, every status and verdict byte",
  "the tests fix one order of replies and one verdict per action; this is over all interleavings of replies with verdicts",
  ["kuadrant/pipeline/executor.rs", "kuadrant/pipeline/tasks/send_reply.rs", "crates/wasm-shim/src/filter/kuadrant_filter.rs"],
  [("termination of the pipeline", "kuadrant/pipeline/executor.rs"), ("resume decisions", "crates/wasm-shim/src/filter/kuadrant_filter.rs")])
p("C04", "The request is held exactly while a guard's verdict is outstanding",
  "A request is held from the moment a guarding action is due or called until its verdict (including follow-up calls it makes) is in, and is resumed once no guard is outstanding. Actions declared not to guard never hold it, and replies nobody waits for never resume it.",
  ["schedules", "inputs", "configurations"], "every list of actions within bounds, every order of replies, every status and verdict byte, one unsolicited reply",
  "holding is decided from barriers, queues and dependencies together, so it depends on the history of calls and replies; tests check a few two-step histories",
  ["kuadrant/pipeline/executor.rs", "kuadrant/context.rs", "kuadrant/pipeline/tasks/dynamic.rs"],
  [("pause decision", "kuadrant/pipeline/executor.rs"), ("barrier of outstanding guards", "kuadrant/context.rs")])
p("C05", "Actions run once, in dependency order, as early as allowed",
  "A legacy action is consulted only after the one before it is over; a sequential action waits for everything before it, and everything after it waits for it; parallel actions are consulted without waiting for each other. Each action is consulted exactly once, as soon as what it waits for (including follow-up calls of an earlier action's reply) is over.",
  ["schedules", "configurations"], "every list of actions within bounds over legacy, parallel, sequential, guarding or not and nested calls, every order of replies, every status and verdict byte",
  "tests sample a few lists and reply orders; ordering is over every list and interleaving",
  ["kuadrant/pipeline/executor.rs", "kuadrant/pipeline/blueprint.rs"],
  [("dependency assignment", "kuadrant/pipeline/blueprint.rs"), ("queueing and completion of tasks", "kuadrant/pipeline/executor.rs")])
p("C06", "Every stream ends: nothing is held once no call is outstanding",
  "When every dispatched call was answered and the stream's data has ended, the request or response is not held and the pipeline is over, whatever data the remaining actions were waiting for.",
  ["schedules", "inputs", "configurations"], "every schedule of the ordering property, and action lists waiting for request or response body data or attributes that never come, with bodies, without bodies, or body-less requests",
  "a hang needs a particular combination of missing data, phase and remaining task; tests only drive streams whose data arrives",
  ["kuadrant/pipeline/executor.rs", "kuadrant/pipeline/tasks", "crates/wasm-shim/src/filter/kuadrant_filter.rs"],
  [("end-of-stream handling", "kuadrant/pipeline/executor.rs"), ("body availability", "kuadrant/context.rs")])

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

TECH = "symbolic execution of the compiled LLVM IR with SMT (bounded), counterexamples replayed natively"
NOTE = ("Every path of the real compiled code within the stated bounds is decided by a solver (no sampling); nothing is said beyond the bounds. "
        "Trusts the symbolic executor's model of LLVM IR (checked by native replay of sampled paths), the code generator below LLVM IR, and the harness's proxy standing in for the wasm glue crate.")
MNOTE = ("Every path of the real compiled code, the wasm glue crate included, within the stated bounds is decided by a solver (no sampling); nothing is said beyond the bounds. "
         "Trusts the symbolic executor's model of LLVM IR (checked by native replay of sampled paths), the code generator below LLVM IR, and the harness's proxy and stand-in for the proxy-wasm SDK, whose Kuadrant fork is not available here.")


def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    claimed = [x["id"] for x in P if x["id"] in CHECKS]
    m = {"version": 1, "setup_cmd": "python3 tools/build.py module",
         "checks": [{"property": i, "quick_cmd": f"python3 tools/run.py {i} quick", "thorough_cmd": f"python3 tools/run.py {i} thorough",
                     "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking",
                     "level_note": (CHECKS[i].get("note", "") + " " + (MNOTE if CHECKS[i].get("module") else NOTE)).strip()} for i in claimed],
         "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    left = {x["id"] for x in P} - set(claimed) - {i for i, _ in NA}
    if left:
        print("neither claimed nor not applicable:", sorted(left))


if __name__ == "__main__":
    main()
