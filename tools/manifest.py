#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
DST = "deterministic simulation with fault injection: "
LEVEL = {
    "C01": ("fault_enumeration", DST + "every I/O step of each simulated evaluation is failed in every applicable way, then seeded combinations; oracle: the fault-free run"),
    "C02": ("exploration", DST + "seeded re-chunking, short and interrupted reads of every stream; oracle: the unsplit run"),
    "C03": ("exploration", DST + "seeded hash seeds, directory orders, clocks, pids, hosts and working directories; oracle: the first run"),
    "C04": ("exploration", DST + "seeded cooperative schedules of concurrent evaluations, plus the same under the race detector; oracle: each evaluation alone"),
    "C05": ("exploration", DST + "seeded histories of failing and succeeding evaluations on shared engines; oracle: a fresh process per evaluation"),
    "C06": ("fault_enumeration", DST + "kill, torn write and power loss at every step of a cache refresh or fetch, and seeded interleavings with other refreshes and builds; oracle: old/new entry model"),
    "C07": ("fault_enumeration", DST + "every broken cluster answer and every failing step of a refresh; oracle: model of the cluster's definitions"),
    "C08": ("fault_enumeration", DST + "every way a fetch can fail, then recovery, and seeded interleavings of concurrent fetches; oracle: cold/warm/offline equality and a cache model"),
    "C09": ("fault_enumeration", DST + "kill, power loss and I/O error at every step of allow commands and seeded interleavings of several; oracle: model of acknowledged entries"),
    "C10": ("exploration", DST + "seeded scripts, authorisations, prompts and configurations with faults; oracle: predicted list of process starts"),
    "C11": ("fault_enumeration", DST + "every way a child process or its pipes can fail at every step; oracle: the bytes the child produced"),
    "C12": ("fault_enumeration", DST + "standard output and error failing at every write and byte, errors at every step; oracle: the fault-free output"),
    "C13": ("fault_enumeration", DST + "error at every step with the simulated descriptor table audited, and long repetitions under a small limit"),
    "C14": ("exploration", DST + "seeded corruption of every input and seeded operator applications in a simulated process with step, memory and stack limits"),
    "C15": ("fault_enumeration", DST + "stream faults at every byte class and step of the KRM function; oracle: the generated item list"),
    "C16": ("fault_enumeration", DST + "reader and writer faults at every position of the YAML streams; oracle: the fault-free stream"),
    "C17": ("exploration", DST + "atomic replacement or removal of an input at every step of a build; oracle: builds of the old and the new tree"),
    "C18": ("fault_enumeration", DST + "any command killed, losing power or failing at every step in a populated machine; oracle: the machine's files before, and the addresses and programs of the fault-free run"),
    "C19": ("fault_enumeration", DST + "any command killed, losing power, failing at every step or interleaved with others, then run again; oracle: the never-disturbed run"),
}
NOTE = {
    "C01": "Every single step failed once per applicable error for the generated evaluations of the run; evaluations themselves are a seeded sample.",
    "C04": "Interleavings are chosen at yield points (I/O, channel and lock operations and calls into the engine); the race-detector part observes accesses under those schedules.",
}
DEFNOTE = {
    "fault_enumeration": "All fault points of each sampled workload are enumerated in the thorough tier and a seeded majority in the quick tier; workloads are a seeded sample.",
    "exploration": "Seeded search; coverage is what the evidence file counts, nothing is exhausted.",
}
NA = {
    "C30": "A pure function of the operands: no schedule, time, I/O, crash or other party can change it, so simulation has nothing to decide; needs input-output testing against the language definition.",
    "C31": "Lexical scoping is a pure function of the script; no nondeterminism or fault is involved.",
    "C32": "Pass-through of quoted data is a pure function of the script; no nondeterminism or fault is involved.",
    "C33": "Validation is a pure function of value and schema; only the loading of schemas meets faults, and that is C01, C06-C08.",
    "C34": "Merge and patch semantics are pure functions of two documents; no nondeterminism or fault is involved.",
    "C35": "The round trip of complete text is a pure function of it; the streaming part, which meets faults, is C16.",
    "C36": "Positions are a pure function of the script text; no nondeterminism or fault is involved.",
}
import re
built = set(re.findall(r'ID:\s*"(C\d\d)"', "".join(open(os.path.join(root, "sim/internal/props", f)).read() for f in os.listdir(root + "/sim/internal/props"))))
m = {"version": 1, "setup_cmd": "./check list", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in built:
        lv, tech = LEVEL[i]
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                            "technique": tech, "level": lv, "level_note": NOTE.get(i, DEFNOTE[lv])})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
