#!/usr/bin/env python3
"""Writes the property sections of DESIGN.md from properties.jsonl, the harness configurations, known-findings.json and the
notes below. Not used by any check."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {  # oracle, remarks
 "C01": ("reference normal form of a Go value, written independently with reflection; decoded trees are compared node by node", "Nil, cycles, limits on length and depth, unexported fields and map order are part of the grammar, so that a rule lost for one kind at one nesting depth is met."),
 "C02": ("a second decoder written from the wire format; verdict and decoded message must agree", "Memory is bounded by a limit on the process, so that an allocation taken from an untrusted count is seen as a failure."),
 "C03": ("a Go map", "All back ends (memory, badger memory and disk, compressed, cached, prefixed) replay the same histories."),
 "C04": ("brute-force linearizability of the recorded history per key", "The schedules are those of the real code: the sources are rewritten at check time with a scheduling point before every statement."),
 "C05": ("the recorded tree (paths, kinds, modes, contents, links) before the first operation", "Write failures are real ones: RLIMIT_FSIZE cuts writes at a chosen byte."),
 "C06": ("the original program, compiled and run on the same inputs: results, side effects, panics", "Hundreds of functions are instrumented and compiled as one program per batch; a batch that does not compile is divided to find the function."),
 "C07": ("a reference interpreter of the generated functions that knows which return is taken and which variables have which values", "Shares programs and executions with C06."),
 "C08": ("the result that was stored", "Identity collisions are met by putting all trees of the bound into one result and comparing after the round trip."),
 "C09": ("a reference selection that pairs calls by path and occurrence", "The pipeline part drives monitor, selection, storage, filter and comparison together."),
 "C10": ("a reference comparison that pairs calls by path and occurrence and counts", ""),
 "C11": ("one-to-one match of sent and recorded messages; order by acceptance", "Under the scheduler every interleaving up to the preemption bound is run; a deadlock or lost wake-up is a violation."),
 "C12": ("the generator's knowledge of which declarations differ, and a token-level comparison of the texts for changes without meaning", "Line marks are compared with a definition by longest common subsequence."),
 "C13": ("the table the module files were rendered from", ""),
 "C14": ("reachability in the generated graph", "For dynamic calls only the callers that can really call are required; more may be listed (the call graph is conservative)."),
 "C15": ("a state machine of the stages", "The stand-ins ask an explorer for their outcome, so all reachable sequences of outcomes are run, and only those."),
 "C16": ("the file trees before the run; the expected sequence of go commands", "The go command is replaced by a script in PATH which edits the module files as the real one does and fails when told."),
 "C17": ("the enumerated findings", ""),
 "C19": ("the enumerated changes and tests; the trees before the run", "The script is really run, by bash, on a mutant of each file."),
 "C20": ("what a shell was asked to print and to exit with; the bytes, exit state and environment are known to the test before the run", "Real processes are started, signalled and time out; the output sinks are driven with every split of the bytes."),
 "C22": ("a table with, for each kind of change, the fields with another value, and, for each way of use, the functions that see them and whether the test fails; totals follow from the tables. A difference between the modelled and the real test (rather than the report) would show as a failing assertion in the project", "Up to four runs at once, each with its own GOPATH, build cache (hard links of a prepared one), proxy and ports. A function that disappears is not a changed function (module.go says so: it shows as a compile failure), so only its effect on the tests of the package is required. With every cell in one program, a failing assertion leads by function type to unrelated function literals (call graph over-approximation), so one unchanged test is left out of the thorough grid. Maps that gain keys and values that become nil are reported as differences without values; for those only a non-zero count is required."),
 "C21": ("the tree that was built, and the files the handler must meet", "Runs under the controlled scheduler (copies, walks, semaphore of routines), then free-running with the race detector. Trees live on a memory file system, so that faults (a removed file, a read-only directory, a handler that fails) come at a chosen step."),
 "C18": ("a table of good and bad values per setting", ""),
}
def main():
    props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
    props.sort(key=lambda p: p["id"])
    kf = json.load(open(f"{ROOT}/known-findings.json"))
    kf = next(v for v in kf.values() if isinstance(v, list))
    res = {}
    rp = f"{ROOT}/tools/seeded_results.json"
    if os.path.exists(rp): res = json.load(open(rp))
    out = []
    for p in props:
        pid = p["id"]
        c = json.load(open(f"{ROOT}/harness/{pid}/config.json"))
        oracle, rem = NOTES.get(pid, ("", ""))
        out.append(f"### {pid} {p['title']}\n")
        out.append(f"* Decided by: {c.get('technique','')}. {c['rule'][0].upper()+c['rule'][1:]}.")
        if oracle: out.append(f"* Oracle: {oracle}.")
        if rem: out.append(f"* {rem}")
        out.append(f"* Bounds, quick: {c['bounds']['quick']}. Thorough: {c['bounds']['thorough']}.")
        w = p.get("why_tests_cant")
        if w: out.append(f"* Beyond tests: {w}")
        if c.get("assumptions"): out.append("* Assumptions: " + "; ".join(c["assumptions"]) + ".")
        fx = [e for e in kf if e["property"] == pid]
        for e in fx:
            if e["status"] == "fixed": out.append("* Found and repaired: " + re.sub(r"^fixed: property=\S+ ", "", e["what"]) + ".")
            else: out.append("* Known finding (not repaired): " + e["what"] + ".")
        sd = sorted(d for d in os.listdir(f"{ROOT}/seeded") if d.startswith(pid + "-")) if os.path.isdir(f"{ROOT}/seeded") else []
        for d in sd:
            m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
            out.append(f"* Planted: `{d}`: {m['what_it_breaks'].rstrip('.')}. {res.get(d,'Caught by ' + pid)}.")
        out.append("")
    s = open(f"{ROOT}/DESIGN.md").read()
    head = s[:s.index("## Properties")]
    rest = s[s.index("## Limits"):] if "## Limits" in s else ""
    open(f"{ROOT}/DESIGN.md", "w").write(head + "## Properties\n\nGenerated by `tools/design.py` from the files the checks use.\n\n" + "\n".join(out) + "\n" + rest)
main()
