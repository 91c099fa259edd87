"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C13": "runtime monitoring: session monitors on live objects, replay in varied interpreters",
    "C19": "runtime monitoring: online model checker of operation histories",
    "C22": "runtime monitoring: geometric/statistical oracles over generated profiles",
    "C24": "runtime monitoring: hooked stdout/logger with trace checker",
    "C26": "runtime monitoring: offline checker replaying the printed execution log",
    "C27": "runtime monitoring with fault injection at every solver invocation",
    "C11": "runtime monitoring: metamorphic oracle (copies, merging, scaling)",
    "C12": "runtime monitoring: metamorphic oracle (permutations)",
    "C09": "runtime monitoring: differential oracle between algorithms",
    "C17": "runtime monitoring: axiom and implication monitors over rule outputs",
}
SPECIAL = {
    "C13": "Sessions of operations on shared live objects and replays in other interpreters; the oracle is equality of the library's own results over time, so a wrong but repeatable result is left to C01-C08 and C15-C18.",
    "C09": "Differential only between algorithms (plus exact scores for Thiele rules, AV, Monroe): an error common to all algorithms of a rule is left to C01-C08.",
    "C11": "Metamorphic: relates results of the library to each other, the values themselves are decided by C01-C08 and C15.",
    "C12": "Metamorphic: relates results of the library to each other, the values themselves are decided by C01-C08 and C15.",
    "C27": "Faults are injected into the Python bindings of Gurobi, python-mip/CBC and OR-Tools at chosen solver invocations (every index for short runs); a solver claiming OPTIMAL or INFEASIBLE is believed.",
    "C26": "The detailed log is parsed with patterns taken from its present wording; a message that is not recognised is ignored, required kinds that vanish give no verdict rather than an alarm.",
}
NOTE = ("Real code under generated workloads (seeded), each execution judged by an independent exact oracle written from the "
        "definition; exploration of a bounded input space (see RULE in the evidence), no proof.")
LV = {"C27": "fault_enumeration"}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "mon/checks/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "bash mon/check.sh %s quick" % i,
                       "thorough_cmd": "bash mon/check.sh %s thorough" % i,
                       "technique": TECH.get(i, "runtime monitoring with an exact reference oracle"),
                       "level": LV.get(i, "exploration"), "level_note": SPECIAL.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks}
if na:
    m["not_applicable"] = na
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "open")
