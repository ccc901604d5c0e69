#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below and harness/*/config.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


prop("C01", "Captured values cross the monitor wire unchanged",
     "Every message an instrumented program sends to the monitor (point, state, panic, error) decodes to the same point id, time, text, stack frames and the same named, typed and ordered tree of field values that was captured, for every Go value. The only differences allowed are the announced limits: strings, slices and maps are cut at the configured length (large maps keep their smallest keys), nesting at the configured depth, and a reference back to an enclosing value is replaced by a marker naming its path. Encoding always finishes and never panics or alters the value.",
     ["inputs"], "all Go values built from every kind's boundary values with every composite constructor to a bounded depth, all small pointer graphs, all lengths and depths around each limit, all message headers and stacks",
     "The existing tests encode a few dozen hand-picked values; a wrong boundary (varint width, packed bools, a cut at the limit, a cycle through an interface) is only met by particular values.",
     ["lens/astclient.go", "lens/astapi.go", "lens/astsrv.go"],
     [("streaming reflection encoder with cycle, depth and length limits", "lens/astclient.go streamField/streamValueSlice"), ("mirror decoder", "lens/astsrv.go readValue/readStackFrames")],
     observe=["lensEncodeMessage*", "decodeMessage*"])

prop("C02", "Malformed monitor messages are rejected, never crash the monitor",
     "For every byte sequence posted to any monitor endpoint, the monitor either decodes a message within its limits, answers success and delivers exactly one callback with it (none for error notifications), or answers with a client error and delivers nothing. It never panics, overflows its stack, hangs, or allocates memory out of proportion to the bytes received and the configured limit. Every strict prefix of a valid message, every unknown value tag and every count above the configured limit is rejected; requests other than POST are refused.",
     ["inputs", "fault_sequences"], "all byte strings up to a bounded length over a protocol-aware alphabet from every protocol position, every claimed count at every length field, every single-byte corruption, deletion and cut of valid messages, short reads and read errors at every offset",
     "Tests feed a handful of truncated buffers; robustness is a claim over all byte strings.",
     ["lens/astsrv.go"],
     [("length and nesting limits while decoding", "lens/astsrv.go read*"), ("decode before dispatch", "lens/astsrv.go handlePoint*")],
     observe=["HTTP status", "handler callbacks", "heap allocation"])

prop("C03", "Every storage back end behaves as one map from key to bytes",
     "For every history of save, load, delete, list and clear on the in-memory store, the on-disk store and prefix-wrapped stores over either, each load returns exactly the bytes last saved under that key (also empty values and values larger than the internal split limit), or not-found after a delete or clear, and each listing returns exactly the live keys with that prefix. Callers own the buffers they pass in and get back. Stores wrapped with different prefixes over one base never see or change each other's keys, and keys used internally for split values are never visible.",
     ["histories", "inputs"], "all operation histories to a depth over keys that are prefixes of each other and values on both sides of the split limit, on every back end",
     "Tests run a few fixed sequences; leftovers of an earlier larger value, a prefix mistaken for a key, or a wrong part size need specific histories.",
     ["lens/storage.go"],
     [("split parts and marker written in one transaction", "lens/storage.go badgerStorage.SaveState"), ("copies on save and load", "lens/storage.go memStorage"), ("prefix + ';' namespacing", "lens/storage.go prefixStorage")],
     observe=["Storage interface"])

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    cf = os.path.join(V, "harness", p["id"], "config.json")
    if not os.path.exists(cf):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet") if "NA" in globals() else "no check built yet"})
        continue
    c = json.load(open(cf))
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
                   "technique": c.get("technique", "bounded-exhaustive exploration of the implementation against a reference model"),
                   "level": c["level"], "level_note": c.get("level_note") or ("Bounds (quick): " + c.get("bounds", {}).get("quick", "") + ". Assumptions: " + "; ".join(c.get("assumptions", [])))})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks}
if na:
    m["not_applicable"] = na
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
