"""Writes MANIFEST.json from properties.jsonl and the driver's table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/driver")
import props
ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "P01": "Printing and parsing again is a pure function of the document: no schedule, stream, clock, fault or shared state takes part, so there is nothing to simulate (that printing is the same whoever else prints or edits is E06).",
 "P02": "How operators group is a pure function of the expression's text; nothing a simulator controls can influence it (that the outcome depends on the bytes only is E01, E03 and E09).",
 "P03": "The value of a literal is a pure function of its text; nothing a simulator controls can influence it (that texts are those of the own document, whatever else is parsed, is E04 and E09).",
 "P04": "The shape of child lists and parent links is a pure function of the document (that they do not change while threads share, clone or edit trees is E04 to E06).",
 "P05": "The accepted language is a pure function of the bytes (that the answer does not depend on delivery, history or other threads is E01, E03, E07 and E09).",
 "P06": "The tool is one straight line of calls without input, streams, threads or timers of its own: no nondeterminism or fault for the property to depend on.",
}
TECH = {True: "deterministic simulation with fault injection: seeded search over schedules, faults and operation histories, race detector on the simulated schedules",
        False: "deterministic simulation with fault injection: seeded search over stream faults, schedules and operation histories"}
NOTE_G = "Sampled, not exhaustive: a quiet run says that none of the simulated schedules and histories (counted in the evidence file) broke the property. The real pkg/dag code runs, with its goroutines, channels, selects and map iterations decided by the seed; every answer is compared with an independent model of the graph. Trusts the source rewriter, the simulator's channel semantics and the Go race detector."
NOTE_S = "Sampled, not exhaustive. The real pkg/dag set code runs under simulated threads; answers are compared with an independent model. Trusts the source rewriter and the Go race detector."
NOTE_E = "Sampled, not exhaustive: documents, damage, stream behaviour, thread schedules and map orders are drawn from the seed. The real pkg/etx and participle code runs; outcomes are compared with what the same bytes give when parsed alone%s. Whether that reference is what the language description asks for is not judged (P01 to P05). Trusts the source rewriter%s."
checks = []
for p in ps:
    i = p["id"]
    if i in NA:
        continue
    s = props.PROPS[i]
    if i[0] == "G":
        note = NOTE_S if i == "G11" else NOTE_G
    else:
        note = NOTE_E % (" in a fresh process" if i == "E09" else "", " and the Go race detector" if s["race"] else "")
    if i == "E07":
        note += " Documents nest at most a few hundred levels; far deeper nesting is a known finding."
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH[s["race"]], "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: each check copies /repo's working tree (and the participle module from the module cache) to a scratch directory, rewrites the copy so that goroutines, channels, locks, clocks and map iterations go through the simulator, and builds it there. Known and fixed findings: known_findings.json. Replay a violation with ./replay FILE."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
